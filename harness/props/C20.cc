// Number of results per call within the configured limits.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

void Run(Case& c) {
  Src& s = c.src;
  bool dyadic = s.chance(1, 2);
  Units u = GenUnits(c, {.dyadic = dyadic});
  ParamOpts po;
  po.dyadic_rate = dyadic;
  po.pred = s.chance(1, 10) ? kPredDisabled : kPredEnabled;
  po.unstable_ok = s.chance(1, 4);
  if (po.unstable_ok) po.mitigation = kNo;
  StrokeModelParams p = GenParams(c, u, po);
  auto& q = p.sampling_params;
  static const int kMax[] = {1, 2, 3, 5, 10, 20, 50, 200};
  q.max_outputs_per_call = s.pick(kMax) + s.range(0, 2);
  static const int kIter[] = {20, 1, 2, 3, 7, 100, 1000};
  q.end_of_stroke_max_iterations = s.pick(kIter);
  if (s.chance(1, 2)) q.end_of_stroke_stopping_distance *= 1e-4f;
  if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
    if (s.chance(1, 2)) k->min_catchup_velocity *= 1e-4f;
    static const double kInt[] = {1, 10, 300, 0.1};
    k->prediction_interval = Duration(s.pick(kInt) * u.period);
    k->confidence_params.max_estimation_distance *= 100;
    if (s.chance(1, 2)) {
      k->confidence_params.min_travel_speed = 0;
      k->confidence_params.max_travel_speed = 0;
    }
  }
  StrokeOpts so;
  so.tiny_dt = !dyadic && s.chance(1, 3);
  so.max_moves = 16;
  so.long_moves = 60;
  so.max_pause = 60;
  so.dyadic = dyadic;
  std::vector<Input> in = GenStroke(c, u, so);
  GenHugeGap(c, u, p, in);
  // Some inputs just within, at and just beyond the limit.
  if (in.size() > 1 && s.chance(2, 3)) {
    int places = s.range(1, 3);
    for (int j = 0; j < places; ++j) {
      size_t i = 1 + s.below(in.size() - 1);
      double steps = q.max_outputs_per_call + static_cast<int>(s.below(5)) - 2 - (s.chance(1, 4) ? q.end_of_stroke_max_iterations : 0);
      if (steps < 0) steps = 0;
      static const double kFrac[] = {0, 0.5, -0.25};
      steps = std::max(0., steps + s.pick(kFrac));
      double shift = in[i - 1].time.Value() + steps / q.min_output_rate - in[i].time.Value();
      for (size_t k = i; k < in.size(); ++k) in[k].time = Time(std::max(in[k].time.Value() + shift, in[k - 1].time.Value()));
    }
  }
  NoteCase(c, p, in);
  Dut m(c);
  MustReset(c, m, p);
  const double max = q.max_outputs_per_call;
  Result tip{};
  std::optional<Input> last, saved_last;
  Result saved_tip{};
  bool saved = false;
  bool at_limit = false, rejected = false, pred_limit = false;
  int calls = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    // Already in the stroke's past after a rejected input: skip.
    if (last && in[i] == *last) continue;
    if (!last && i > 0) break;
    bool up = in[i].event_type == Input::EventType::kUp;
    IntRange n{0, 0};
    if (last) n = Steps(tip, *last, in[i], p);
    std::vector<Result> out;
    absl::Status st = m.Update(in[i], out);
    c.note("    [%zu] %s, %zu results; needs %g to %g", i, st.ok() ? "ok" : "refused", out.size(), n.lo, n.hi);
    for (auto& r : out) c.note("      %s", Str(r).c_str());
    ++calls;
    CHECK_THAT(c, out.size() <= max, "update %zu gives %zu results, limit %g", i, out.size(), max);
    bool finite = std::isfinite(tip.velocity.x) && std::isfinite(tip.velocity.y) && Len(D(tip.velocity)) < 1e18 && Len(D(tip.position)) < 1e18;
    bool mitigation = p.position_modeler_params.loop_contraction_mitigation_params.is_enabled;
    bool angle = q.max_estimated_angle_to_traverse_per_input > 0;
    if (last && finite && !(mitigation && angle)) {
      if (n.lo > max) {
        CHECK_THAT(c, !st.ok(), "update %zu needs %g results and is accepted with %zu, limit %g", i, n.lo, out.size(), max);
        CHECK_THAT(c, st.code() == absl::StatusCode::kInvalidArgument, "update %zu: status %d", i, static_cast<int>(st.code()));
        rejected = true;
      } else if (n.hi <= max) {
        CHECK_THAT(c, st.ok(), "update %zu needs %g results and is refused, limit %g: %s", i, n.hi, max, std::string(st.message()).c_str());
      }
      if (st.ok() && out.size() == max) at_limit = true;
    }
    if (!st.ok()) {
      CHECK_THAT(c, out.empty(), "update %zu is refused with %zu results", i, out.size());
      continue;
    }
    bool overflow = false;
    for (auto& r : out) overflow |= !r.position.IsFinite() || !r.velocity.IsFinite() || !std::isfinite(r.time.Value());
    if (overflow && po.unstable_ok) {
      c.label("unstable, overflowed");
      break;
    }
    if (last) {
      // Not truncated: the last of the results required is at the input's time.
      int before = 0;
      bool reaches = false;
      for (auto& r : out) {
        before += r.time.Value() <= in[i].time.Value();
        reaches |= r.time.Value() == in[i].time.Value();
      }
      if (in[i].time.Value() > last->time.Value()) {
        CHECK_THAT(c, reaches, "update %zu stops short of its time", i);
        if (!(mitigation && angle) && finite) CHECK_THAT(c, before >= n.lo, "update %zu gives %d results up to its time, the rate needs %g", i, before, n.lo);
      }
      if (!up) CHECK_THAT(c, before == static_cast<int>(out.size()), "move %zu gives results beyond its time", i);
      int beyond = static_cast<int>(out.size()) - before;
      CHECK_THAT(c, beyond <= q.end_of_stroke_max_iterations, "update %zu gives %d results beyond its time, limit %d", i, beyond, q.end_of_stroke_max_iterations);
      if (up && beyond == q.end_of_stroke_max_iterations) c.label("all iterations used");
    }
    if (out.empty()) c.fail("update %zu gives no result", i);
    tip = out.back();
    last = in[i];
    if (up) {
      last.reset();
      if (saved && s.chance(1, 2)) {
        m.Restore();
        last = saved_last;
        tip = saved_tip;
        c.label("restored");
      }
      continue;
    }
    if (!IsPredDisabled(p) && s.chance(1, 2)) {
      std::vector<Result> pred;
      st = m.Predict(pred);
      ++calls;
      CHECK_THAT(c, st.ok(), "prediction after input %zu fails", i);
      CHECK_THAT(c, pred.size() <= max, "prediction after input %zu has %zu results, limit %g", i, pred.size(), max);
      if (!IsKalman(p)) {
        CHECK_THAT(c, static_cast<int>(pred.size()) <= q.end_of_stroke_max_iterations, "stroke-end prediction after input %zu has %zu results, limit %d", i, pred.size(),
                   q.end_of_stroke_max_iterations);
      }
      pred_limit |= pred.size() == max;
    }
    if (s.chance(1, 10)) {
      m.Save();
      saved = true;
      saved_last = last;
      saved_tip = tip;
    }
  }
  c.label_if(at_limit, "update at the limit");
  c.label_if(pred_limit, IsKalman(p) ? "Kalman prediction at the limit" : "stroke-end prediction at the limit");
  c.label_if(rejected, "too far apart");
  if (calls >= 3 && (at_limit || pred_limit || rejected)) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C20",
    "Generated strokes with small limits on the results per call and 1 to 1000 iterations, "
    "times moved to just within, at and beyond the limit, slow catch-up and long prediction "
    "intervals; the number of results of every update and prediction is compared with the "
    "limits, and rejection with the number of results which the output rate requires. "
    "Non-trivial: at least three calls, one of them rejected or at the limit.",
    "Number required is decided within float rounding of the time difference, exactly for "
    "exactly representable times|with loop mitigation and the angle option together the tip's "
    "velocity is not observable: only the upper limits are checked",
    1800000, 20000000, Run};
