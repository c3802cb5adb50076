// Turning by more than the set angle is upsampled.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

void Run(Case& c) {
  Src& s = c.src;
  bool dyadic = s.chance(1, 2);
  Units u = GenUnits(c, {.dyadic = dyadic});
  ParamOpts po;
  po.mitigation = kNo;
  po.angle = s.chance(1, 6) ? kNo : kYes;
  po.dyadic_rate = dyadic;
  po.small_limits = s.chance(1, 3);
  StrokeModelParams p = GenParams(c, u, po);
  const bool on = p.sampling_params.max_estimated_angle_to_traverse_per_input > 0;
  if (on && s.chance(3, 4)) {
    static const double kAngle[] = {0.1, 0.05, 0.25, 1, 0.02, 3.1, 0.005};
    p.sampling_params.max_estimated_angle_to_traverse_per_input = s.pick(kAngle);
  }
  StrokeOpts so;
  so.tiny_dt = !dyadic && s.chance(1, 3);
  so.dyadic = dyadic;
  so.max_moves = 20;
  so.long_moves = 60;
  std::vector<Input> in = GenStroke(c, u, so);
  NoteCase(c, p, in);
  Dut m(c);
  MustReset(c, m, p);
  Result prev{};
  Input from{};
  const double limit = p.sampling_params.max_outputs_per_call;
  int by_angle = 0, decisive = 0, refused = 0, turned = 0, full = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    if (i == 0) {
      Call call = Feed(m, in[0], nullptr, 0, 0);
      CHECK_THAT(c, call.ok(), "down refused");
      prev = call.out[0];
      from = in[0];
      continue;
    }
    IntRange rate = RateSteps(in[i].time.Value() - from.time.Value(), p.sampling_params.min_output_rate);
    IntRange want = Steps(prev, from, in[i], p);
    Call call = Feed(m, in[i], &prev, from.time.Value(), 0);
    for (auto& x : call.out) c.note("    %s", Str(x).c_str());
    c.note("  -> %d, %d steps, expected %g to %g (rate alone %g)", static_cast<int>(call.code), call.steps, want.lo, want.hi, rate.lo);
    if (!call.ok()) {
      CHECK_THAT(c, call.code == absl::StatusCode::kInvalidArgument, "input %zu: status %d", i, static_cast<int>(call.code));
      CHECK_THAT(c, want.hi > limit, "input %zu refused: needs at most %g results, limit %g", i, want.hi, limit);
      CHECK_THAT(c, call.out.empty(), "input %zu refused, but has results", i);
      ++refused;
      if (in[i].event_type == Input::EventType::kUp) break;
      continue;
    }
    CHECK_THAT(c, want.lo <= limit, "input %zu accepted: needs at least %g results, limit %g", i, want.lo, limit);
    bool up = in[i].event_type == Input::EventType::kUp;
    if (up && from.time.Value() == in[i].time.Value()) {
      // Without time passing, catch-up and steps cannot always be told apart.
      break;
    }
    double n = call.steps;
    if (!up && n == 0) CHECK_THAT(c, call.out.size() == 1, "input %zu: no step, %zu results", i, call.out.size());
    CHECK_THAT(c, want.has(n) || (n == 0 && want.lo <= 1 && in[i].time.Value() == from.time.Value()), "input %zu: %g results, expected %g to %g (rate alone: %g)", i, n, want.lo, want.hi, rate.lo);
    if (n == limit) ++full;
    if (want.lo == want.hi) ++decisive;
    if (want.lo > rate.hi) ++by_angle;
    if (want.lo > rate.hi && want.lo == want.hi) ++turned;
    prev = call.out.back();
    from = in[i];
  }
  c.label_if(by_angle > 0, "angle adds results");
  c.label_if(turned > 0, "angle adds results, exact count known");
  c.label_if(refused > 0, "refused at the limit");
  c.label_if(full > 0, "exactly the limit");
  c.label_if(!on, "option off");
  if (decisive >= 2 && (by_angle > 0 || !on)) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C07",
    "A generated stroke under generated parameters, mostly with the angle option set (0.005 "
    "to 3.1 radians), sometimes with a small output limit. The number of results per input "
    "is compared with the larger of rate and angle counts, recomputed in double precision "
    "from the last result with an interval for rounding; refusals exactly beyond the limit. "
    "Non-trivial: at least two inputs with a single admissible count and, with the option "
    "on, one where the angle decides.",
    "Counts within the float accuracy of the angle are accepted",
    600000, 9000000, Run};
