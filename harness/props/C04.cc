// The tip follows the spring-mass-drag model along the input path.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  po.mitigation = kNo;
  po.default_physics = s.chance(1, 2);
  StrokeModelParams p = GenParams(c, u, po);
  StrokeOpts so;
  so.tiny_dt = s.chance(1, 4);
  so.max_pause = 60;
  std::vector<Input> in = GenStroke(c, u, so);
  GenHugeGap(c, u, p, in);
  NoteCase(c, p, in);
  const double k = p.position_modeler_params.spring_mass_constant;
  const double drag = p.position_modeler_params.drag_constant;
  const bool wobble = p.wobble_smoother_params.is_enabled;
  Dut m(c);
  MustReset(c, m, p);
  std::vector<Result> pred;
  Result prev{};
  V from{};            // where the anchor's path starts: the previous input
  double from_err = 0;
  bool from_known = true;
  int steps = 0, multi = 0;
  V lo{}, hi{};
  for (size_t i = 0; i < in.size(); ++i) {
    Call call = Feed(m, in[i], i ? &prev : nullptr, i ? in[i - 1].time.Value() : 0, p.sampling_params.min_output_rate);
    CHECK_THAT(c, call.ok() && !call.out.empty(), "update %zu: status %d, %zu results", i, static_cast<int>(call.code), call.out.size());
    for (auto& x : call.out) c.note("    %s", Str(x).c_str());
    if (s.chance(1, 8)) (void)m.Predict(pred);
    if (s.chance(1, 16)) m.Save();
    V at = D(in[i].position);
    if (i == 0) {
      prev = call.out[0];
      CHECK_THAT(c, Eq(prev.position, in[0].position), "down's result is not at the input");
      from = lo = hi = at;
      continue;
    }
    lo = {std::min(lo.x, at.x), std::min(lo.y, at.y)};
    hi = {std::max(hi.x, at.x), std::max(hi.y, at.y)};
    const bool up = in[i].event_type == Input::EventType::kUp;
    const int n = call.steps;
    const std::vector<Result>& r = call.out;
    if (n == 0) {
      if (!up || r.size() == 1) {
        // No time has passed, or nothing to add: the state is repeated.
        if (!up) CHECK_THAT(c, r.size() == 1 && SameTip(r[0], prev), "move without a step changes the tip: %s", Str(r[0]).c_str());
      }
      from = at;
      from_err = 0;
      from_known = up || !wobble;
      continue;
    }
    // Where the anchor's path ends: the (smoothed) position of this input.
    V to = at;
    double to_err = 0;
    const Result& before_last = n == 1 ? prev : r[n - 2];
    if (wobble && !up) {
      Anchor a = ImpliedAnchor(before_last, r[n - 1], p);
      to = a.pos;
      to_err = a.err;
    }
    if (!from_known && n >= 2) {
      // Recover the start of the path from the first step.
      Anchor a1 = ImpliedAnchor(prev, r[0], p);
      from = (n * a1.pos - to) / (n - 1.);
      from_err = 4 * (n * a1.err + to_err) / (n - 1.);
      from_known = true;
    }
    for (int j = 0; j < n; ++j) {
      const Result& q = j ? r[j - 1] : prev;
      V q_p = D(q.position), q_v = D(q.velocity);
      if (from_known) {
        double f = (j + 1.) / n;
        V anchor = from + f * (to - from);
        V acc = (anchor - q_p) / k - drag * q_v;
        double err = 6 * kEpsF * ((2 * Len(from) + 2 * Len(to) + Len(anchor) + Len(q_p) + Len(anchor - q_p)) / k + drag * Len(q_v)) +
                     (from_err + to_err) / k + 1e-30;
        CHECK_THAT(c, Dist(acc, D(r[j].acceleration)) <= err,
                   "update %zu, step %d of %d: acceleration (%.9g, %.9g), model gives (%.9g, %.9g) +- %.3g", i, j + 1, n,
                   r[j].acceleration.x, r[j].acceleration.y, acc.x, acc.y, err);
      }
      double dt = r[j].time.Value() - q.time.Value();
      V v = q_v + dt * D(r[j].acceleration);
      double verr = 6 * kEpsF * (Len(q_v) + dt * Len(D(r[j].acceleration))) + 1e-30;
      CHECK_THAT(c, Dist(v, D(r[j].velocity)) <= verr,
                 "update %zu, step %d of %d: velocity (%.9g, %.9g), model gives (%.9g, %.9g)", i, j + 1, n, r[j].velocity.x,
                 r[j].velocity.y, v.x, v.y);
      V x = q_p + dt * D(r[j].velocity);
      double xerr = 6 * kEpsF * (Len(q_p) + dt * Len(D(r[j].velocity))) + 1e-30;
      CHECK_THAT(c, Dist(x, D(r[j].position)) <= xerr,
                 "update %zu, step %d of %d: position (%.9g, %.9g), model gives (%.9g, %.9g)", i, j + 1, n, r[j].position.x,
                 r[j].position.y, x.x, x.y);
      if (po.default_physics) {
        double slack = 2 * Dist(lo, hi) + 1e-4 * (Len(lo) + Len(hi));
        V z = D(r[j].position);
        CHECK_THAT(c, z.x >= lo.x - slack && z.x <= hi.x + slack && z.y >= lo.y - slack && z.y <= hi.y + slack,
                   "update %zu: the tip is far outside the input path: (%.9g, %.9g)", i, z.x, z.y);
      }
      ++steps;
    }
    if (n > 1) ++multi;
    from = to;
    from_err = to_err;
    from_known = true;
    prev = r.back();
  }
  c.label_if(wobble, "smoothed");
  c.label_if(multi > 0, "upsampled");
  c.label_if(po.default_physics, "default physics");
  c.label_if(in.size() > 40, "long stroke");
  if (steps >= 4 && in.size() >= 4) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C04",
    "A generated stroke under generated parameters without loop mitigation. Every result "
    "up to an input's time is checked against one step, in double precision, of the "
    "documented model from the result before it, with the anchor on the line between the "
    "inputs (with smoothing: between the anchors implied by the results). Non-trivial: at "
    "least four steps over three updates.",
    "Tolerance of a few float roundings of the terms of each equation|steps are in the stable range",
    600000, 10000000, Run};
