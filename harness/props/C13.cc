// Stroke-end prediction is what lifting the pen now would add.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

bool Close(Vec2 a, Vec2 b, double scale) {
  return Dist(D(a), D(b)) <= 1e-5 * (Len(D(a)) + Len(D(b))) + 1e-6 * scale;
}

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  po.mitigation = kNo;
  po.angle = kNo;
  po.pred = kPredStrokeEnd;
  po.small_limits = s.chance(1, 4);
  po.wobble = kNo;
  int wob = s.chance(1, 4) ? 2 : 0;
  if (wob) po.wobble = kYes;
  StrokeModelParams p = GenParams(c, u, po);
  if (s.chance(1, 3)) {
    static const float kMul[] = {0.125f, 0.03f, 0.5f};
    p.position_modeler_params.drag_constant *= s.pick(kMul);
    static const float kStop[] = {1e-3f, 1e-4f, 0.3f};
    p.sampling_params.end_of_stroke_stopping_distance = s.pick(kStop) * u.length;
  }
  StrokeOpts so;
  so.tiny_dt = s.chance(1, 4);
  so.max_moves = 12;
  so.long_moves = 50;
  std::vector<Input> in = GenStroke(c, u, so);
  GenHugeGap(c, u, p, in);
  NoteCase(c, p, in);
  // One modeler goes on; a twin is given the same inputs and then the up.
  Dut m(c);
  MustReset(c, m, p);
  int compared = 0, empty = 0, several = 0;
  Result prev{};
  bool saved = false;
  size_t saved_at = 0;
  (void)saved_at;
  for (size_t i = 0; i < in.size() && in[i].event_type != Input::EventType::kUp; ++i) {
    std::vector<Result> out, pred, up;
    if (!m.Update(in[i], out).ok()) {
      if (p.sampling_params.max_outputs_per_call >= 100000) c.fail("update %zu refused", i);
      break;
    }
    Result before = prev;
    prev = out.back();
    if (s.chance(1, 3)) continue;
    absl::Status st = m.Predict(pred);
    CHECK_THAT(c, st.ok(), "prediction after input %zu fails", i);
    for (auto& x : pred) c.note("    [%zu] prediction %s", i, Str(x).c_str());
    if (wob == 2) {
      // Smoothed: it heads for the smoothed position.
      double dt = i ? in[i].time.Value() - in[i - 1].time.Value() : 0;
      if (pred.empty() || dt <= 0) continue;
      const Result& q = out.size() > 1 ? out[out.size() - 2] : before;
      Anchor a = ImpliedAnchor(q, out.back(), p);
      Result from = out.back();
      for (size_t j = 0; j < pred.size(); ++j) {
        Anchor b = ImpliedAnchor(from, pred[j], p);
        CHECK_THAT(c, Dist(a.pos, b.pos) <= a.err + b.err, "prediction after input %zu heads for (%.9g, %.9g), the smoothed input is at (%.9g, %.9g)", i, b.pos.x, b.pos.y,
                   a.pos.x, a.pos.y);
        from = pred[j];
      }
      ++compared;
      several += pred.size() > 1;
      continue;
    }
    // Lift the pen here, with a twin or by saving and restoring.
    Input lift = in[i];
    lift.event_type = Input::EventType::kUp;
    bool twin = s.chance(1, 2);
    if (twin) {
      FRESH_MODELER(t);
      MustReset(c, t, p);
      std::vector<Result> ignored;
      for (size_t j = 0; j <= i; ++j) (void)t.Update(in[j], ignored);
      st = t.Update(lift, up);
    } else {
      m.Save();
      saved = true;
      st = m.Update(lift, up);
      m.Restore();
      m.Release();
    }
    CHECK_THAT(c, st.ok(), "up after input %zu refused: %s", i, std::string(st.message()).c_str());
    for (auto& x : up) c.note("    [%zu] up         %s", i, Str(x).c_str());
    ++compared;
    if (pred.empty()) {
      ++empty;
      // An up always has one result; with nothing to add it is (almost) where
      // the tip was.
      double stop = p.sampling_params.end_of_stroke_stopping_distance;
      CHECK_THAT(c, up.size() == 1 && Dist(D(up[0].position), D(prev.position)) < stop * (1 + 1e-4) + 8 * kEpsF * Len(D(prev.position)),
                 "after input %zu: no prediction, but the up adds %zu results", i, up.size());
      continue;
    }
    CHECK_THAT(c, pred.size() == up.size(), "after input %zu: %zu results predicted, the up adds %zu", i, pred.size(), up.size());
    for (size_t j = 0; j < pred.size(); ++j) {
      double k = p.position_modeler_params.spring_mass_constant;
      double ascale = (Len(D(in[i].position)) + Len(D(prev.position))) / k + p.position_modeler_params.drag_constant * Len(D(prev.velocity));
      double tt = std::fabs(pred[j].time.Value());
      CHECK_THAT(c,
                 Close(pred[j].position, up[j].position, Len(D(in[i].position))) && Close(pred[j].velocity, up[j].velocity, Len(D(prev.velocity))) &&
                     Close(pred[j].acceleration, up[j].acceleration, ascale) && std::fabs(pred[j].time.Value() - up[j].time.Value()) <= 1e-14 * tt,
                 "after input %zu, result %zu: predicted %s, the up gives %s", i, j, Str(pred[j]).c_str(), Str(up[j]).c_str());
    }
    several += pred.size() > 1;
  }
  c.label_if(empty > 0, "empty prediction");
  c.label_if(saved, "up undone by restore");
  c.label_if(wob == 2, "smoothed");
  if (compared >= 2 && several > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C13",
    "A generated stroke with the stroke-end predictor; at generated points the prediction "
    "is compared with the results of an up at the last position and time, made on a twin "
    "fed the same inputs, or on the same modeler between save and restore. With "
    "smoothing, the anchor implied by the prediction is compared with the one implied by "
    "the update instead. Non-trivial: at least two predictions compared, one with several "
    "results.",
    "Loop mitigation and upsampling by angle off, as they apply to the up as an input",
    1000000, 15000000, Run};
