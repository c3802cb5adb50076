// A stroke, or a series of strokes, repeated: for the checks that look at what
// grows with the length of a session.
#pragma once
#include <cmath>
#include <limits>

#include "gen.h"

namespace session {
using namespace gen;  // NOLINT

enum Act { kNothing, kDoPredict, kDoSave, kDoRestore, kDoBad };

struct Plan {
  StrokeModelParams params, other;
  std::vector<Input> cycle;  // the inputs repeated; the first one starts the stroke only
  std::vector<int> acts;     // before each input
  double period;
  bool strokes;              // each repetition is a stroke of its own
  int reset;                 // between strokes: 0 no, 1 Reset(), 2 Reset(params), 3 other parameters
  int act;                   // 0 updates only, 1 predictions too, 2 everything
  double inputs;             // in each repetition
  int warm, more;            // repetitions until every window is full, and the ones to follow
};

// Runs `n` repetitions. `seen` is called after every prediction and update with
// the number of their results.
template <typename F>
void Repeat(StrokeModeler& m, const Plan& p, double& offset, int n, F seen) {
  for (int k = 0; k < n; ++k) {
    if (p.strokes && p.reset == 1) (void)m.Reset();
    if (p.strokes && p.reset == 2) (void)m.Reset(p.params);
    if (p.strokes && p.reset == 3) (void)m.Reset(k % 2 ? p.other : p.params);
    for (size_t i = p.strokes ? 0 : 1; i < p.cycle.size(); ++i) {
      size_t count = 0;
      {
        std::vector<Result> results;
        switch (p.acts[i]) {
          case kDoPredict: (void)m.Predict(results); break;
          case kDoSave: m.Save(); break;
          case kDoRestore: m.Restore(); break;
          case kDoBad: {
            Input bad = p.cycle[i];
            bad.position.x = std::numeric_limits<float>::quiet_NaN();
            (void)m.Update(bad, results);
            break;
          }
          default: break;
        }
        count = results.size();
      }
      Input in = p.cycle[i];
      in.time = Time(in.time.Value() + offset);
      {
        std::vector<Result> results;
        (void)m.Update(in, results);
        count += results.size();
      }
      seen(count);
    }
    offset += p.period;
  }
}

inline Plan GenPlan(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  u.big = false;
  Plan p;
  p.params = GenParams(c, u);
  p.other = GenParams(c, u);
  p.strokes = s.chance(1, 3);
  p.reset = s.below(4);
  StrokeOpts so;
  so.long_moves = 40;
  so.up = p.strokes ? kAny : kNo;
  so.nan_stylus = true;
  p.cycle = GenStroke(c, u, so, 0);
  if (p.cycle.size() < 2) throw pbt::Discard{};
  if (p.strokes && p.cycle.back().event_type != Input::EventType::kUp && p.reset == 0) p.reset = 1;
  p.period = p.cycle.back().time.Value() + u.period;
  int act = p.act = s.weighted({2, 2, 2});  // none, predictions only, anything
  for (size_t i = 0; i < p.cycle.size(); ++i) {
    int a = kNothing;
    if (act == 1 && s.chance(1, 2)) a = kDoPredict;
    if (act == 2) a = s.weighted({4, 2, 1, 1, 1});
    p.acts.push_back(a);
  }
  const auto& w = p.params.wobble_smoother_params;
  const auto& t = p.params.stylus_state_modeler_params;
  const auto& l = p.params.position_modeler_params.loop_contraction_mitigation_params;
  double span = 0, count = 1;
  if (w.is_enabled) span = std::max(span, w.timeout.Value());
  if (t.use_stroke_normal_projection) {
    span = std::max(span, t.min_sample_duration.Value());
    count = std::max(count, 1. * t.min_input_samples);
  } else {
    count = std::max(count, 1. * t.max_input_samples);
  }
  if (l.is_enabled) {
    span = std::max(span, l.min_speed_sampling_window.Value());
    count = std::max(count, 1. * l.min_discrete_speed_samples);
  }
  if (auto* k = std::get_if<KalmanPredictorParams>(&p.params.prediction_params)) {
    count = std::max(count, 1. * std::max(k->max_time_samples, k->min_stable_iteration));
  }
  const double inputs = p.inputs = p.cycle.size() - 1;
  // Until every window is full. (Restores may undo all but one input of each
  // repetition.)
  p.warm = p.strokes ? 4 : static_cast<int>(std::ceil(std::max(span / p.period, count / (act == 2 ? 1 : inputs)))) + 3;
  if (p.warm * inputs > 1500) throw pbt::Discard{};
  p.more = static_cast<int>(std::ceil(std::max(10. * p.warm, 6000 / inputs)));
  c.note("params: %s", Str(p.params).c_str());
  if (p.reset == 3) c.note("other params: %s", Str(p.other).c_str());
  for (size_t i = 0; i < p.cycle.size(); ++i) c.note("  %d %s", p.acts[i], Str(p.cycle[i]).c_str());
  c.note("%s, reset %d, period %.9g, %d repetitions, then %d", p.strokes ? "strokes" : "one stroke", p.reset, p.period, p.warm, p.more);
  return p;
}

// Labels for the evidence.
inline void Describe(Case& c, const Plan& p) {
  c.label(p.strokes ? "many strokes" : "long stroke");
  c.label_if(p.strokes && p.reset == 3, "changing parameters");
  c.label_if(p.act == 2, "saves and restores");
  c.label_if(p.act != 0 && !IsPredDisabled(p.params), "predictions");
  if (!p.strokes) {
    c.label_if(!p.params.wobble_smoother_params.is_enabled, "long stroke, no smoothing");
    c.label_if(!p.params.position_modeler_params.loop_contraction_mitigation_params.is_enabled, "long stroke, no mitigation");
    c.label_if(IsKalman(p.params), "long stroke, Kalman");
  }
}

}  // namespace session
