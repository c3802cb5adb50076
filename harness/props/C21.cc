// Ordinary strokes, however degenerate in timing and geometry, give finite
// results with stylus values in range.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

struct Range {
  double lo = INFINITY, hi = -INFINITY;
  bool unknown = false;
  void Add(float v) {
    if (std::isnan(v) || v < 0) {
      unknown = true;
    } else {
      lo = std::min<double>(lo, v);
      hi = std::max<double>(hi, v);
    }
  }
  bool Has(float v) const {
    if (unknown) return v == -1;
    return v >= lo - 1e-6 * std::fabs(lo) && v <= hi + 1e-6 * std::fabs(hi);
  }
};

void RequireSane(Case& c, const std::vector<Result>& v, const Range& pr, const Range& ti, const Range& ori, const char* what, size_t i) {
  for (size_t j = 0; j < v.size(); ++j) {
    const Result& r = v[j];
    CHECK_THAT(c, r.position.IsFinite() && r.velocity.IsFinite() && r.acceleration.IsFinite() && std::isfinite(r.time.Value()), "%s %zu, result %zu is not finite: %s", what, i, j,
               Str(r).c_str());
    CHECK_THAT(c, std::isfinite(r.pressure) && pr.Has(r.pressure), "%s %zu, result %zu: pressure %.9g outside [%.9g, %.9g]%s", what, i, j, r.pressure, pr.lo, pr.hi,
               pr.unknown ? " (unknown)" : "");
    CHECK_THAT(c, std::isfinite(r.tilt) && ti.Has(r.tilt), "%s %zu, result %zu: tilt %.9g outside [%.9g, %.9g]%s", what, i, j, r.tilt, ti.lo, ti.hi, ti.unknown ? " (unknown)" : "");
    CHECK_THAT(c, ori.unknown ? r.orientation == -1 : r.orientation >= 0 && r.orientation <= kTwoPi * (1 + 1e-6), "%s %zu, result %zu: orientation %.9g%s", what, i, j,
               r.orientation, ori.unknown ? " (unknown)" : "");
  }
}

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  po.small_limits = s.chance(1, 8);
  StrokeModelParams p = GenParams(c, u, po);
  if (s.chance(1, 4)) {
    // Degenerate but valid parameters.
    switch (s.below(5)) {
      case 0: p.wobble_smoother_params.timeout = Duration(0); break;
      case 1: p.wobble_smoother_params.speed_ceiling = p.wobble_smoother_params.speed_floor; break;
      case 2: {
        auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
        l.speed_upper_bound = l.speed_lower_bound;
        break;
      }
      case 3: p.stylus_state_modeler_params.max_input_samples = 1; break;
      default:
        if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
          k->confidence_params.max_travel_speed = k->confidence_params.min_travel_speed;
          k->max_time_samples = 1;
          k->min_stable_iteration = 1;
        }
    }
    if (!p.wobble_smoother_params.is_enabled) p.wobble_smoother_params = WobbleSmootherParams{.is_enabled = false};
  }
  Dut m(c);
  MustReset(c, m, p);
  int strokes = s.weighted({6, 3, 1}) + 1;
  int multi = 0, degenerate = 0, predicted = 0, accepted = 0;
  for (int k = 0; k < strokes; ++k) {
    StrokeOpts so;
    so.max_moves = 20;
    so.long_moves = 100;
    so.tiny_dt = true;
    so.nan_stylus = s.chance(1, 3);
    std::vector<Input> in = GenStroke(c, u, so);
    // Runs of equal positions, times, or both but the stylus values.
    for (size_t i = 1; i < in.size(); ++i) {
      if (!s.chance(1, 8)) continue;
      switch (s.below(3)) {
        case 0: in[i].position = in[i - 1].position; break;
        case 1: {
          double d = in[i].time.Value() - in[i - 1].time.Value();
          for (size_t j = i; j < in.size(); ++j) in[j].time = Time(std::max(in[j].time.Value() - d, in[j - 1].time.Value()));
          break;
        }
        default:
          in[i].position = in[i - 1].position;
          in[i].time = in[i - 1].time;
      }
    }
    // At the same time, or 1e-9 of a period apart: not a rounding error apart.
    for (size_t i = 1; i < in.size(); ++i) {
      if (in[i].time.Value() - in[i - 1].time.Value() < 0.9e-9 * u.period) in[i].time = in[i - 1].time;
    }
    NoteCase(c, p, in);
    Range pr, ti, ori, spr, sti, sori;
    bool saved = false;
    std::optional<Input> last, slast;
    for (size_t i = 0; i < in.size(); ++i) {
      if (last && (SameInput(in[i], *last) || in[i].time < last->time)) continue;
      std::vector<Result> out, pred;
      Range npr = pr, nti = ti, nori = ori;
      npr.Add(in[i].pressure);
      nti.Add(in[i].tilt);
      nori.Add(in[i].orientation);
      absl::Status st = m.Update(in[i], out);
      if (!st.ok()) {
        CHECK_THAT(c, po.small_limits, "update %zu refused: %s", i, std::string(st.message()).c_str());
        continue;
      }
      ++accepted;
      for (auto& r : out) c.note("    [%zu] %s", i, Str(r).c_str());
      pr = npr;
      ti = nti;
      ori = nori;
      if (last && (in[i].time == last->time || in[i].position == last->position)) ++degenerate;
      last = in[i];
      multi += out.size() > 1;
      if (in[i].event_type == Input::EventType::kDown) {
        // A down's result carries the input's own stylus values.
        CHECK_THAT(c, out.size() == 1 && out[0].position.IsFinite() && out[0].velocity == Vec2{} && out[0].acceleration == Vec2{} && std::isfinite(out[0].time.Value()),
                   "result of the down event");
      } else {
        RequireSane(c, out, pr, ti, ori, "update", i);
      }
      if (in[i].event_type == Input::EventType::kUp) {
        last.reset();
        break;
      }
      if (!IsPredDisabled(p) && s.chance(1, 2)) {
        st = m.Predict(pred);
        CHECK_THAT(c, st.ok(), "prediction after input %zu fails", i);
        for (auto& r : pred) c.note("    [%zu] prediction %s", i, Str(r).c_str());
        RequireSane(c, pred, pr, ti, ori, "prediction after input", i);
        predicted += !pred.empty();
      }
      int what = s.weighted({14, 1, 1});
      if (what == 1) {
        m.Save();
        saved = true;
        spr = pr, sti = ti, sori = ori, slast = last;
      } else if (what == 2 && saved) {
        m.Restore();
        pr = spr, ti = sti, ori = sori, last = slast;
      }
    }
    if (last) (void)m.Reset();
  }
  c.label_if(predicted > 0, IsKalman(p) ? "Kalman prediction" : "stroke-end prediction");
  c.label_if(degenerate > 0, "repeated time or position");
  c.label_if(p.wobble_smoother_params.is_enabled, "wobble smoothing");
  c.label_if(p.position_modeler_params.loop_contraction_mitigation_params.is_enabled, "loop mitigation");
  c.label_if(p.stylus_state_modeler_params.use_stroke_normal_projection, "stroke normal projection");
  if (accepted >= 3 && degenerate > 0 && multi > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C21",
    "One to three generated strokes with all options, with repeated time stamps and positions, "
    "almost simultaneous inputs (down to 1e-9 of the input period), pauses, unknown and NaN "
    "stylus fields, predictions, saves and restores; every field of every result must be finite "
    "and pressure, tilt and orientation in range. Non-trivial: at least three updates, one with a "
    "repeated time or position, one with several results.",
    "Parameters for which a single step of the spring is stable|positions up to a few thousand "
    "times the distance between inputs",
    700000, 10000000, Run};
