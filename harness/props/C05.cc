// The end of the stroke catches up with the final input, without overshoot.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

struct Cand {
  V pos, vel, acc;
  double moved, moved_err;     // distance from the state before
  double t, t_err;             // where the closest point to the anchor lies
  double pos_err;
};

// `now` is the time before the step, which limits how precisely dt passes.
Cand Step(V p, V v, V anchor, double dt, double k, double drag, double now) {
  Cand z;
  z.acc = (anchor - p) / k - drag * v;
  z.vel = v + dt * z.acc;
  z.pos = p + dt * z.vel;
  double acc_err = 8 * kEpsF * ((Len(anchor) + Len(p) + Len(anchor - p)) / k + drag * Len(v));
  double dt_err = 5e-16 * std::fabs(now);
  double vel_err = dt_err * Len(z.acc) + 6 * kEpsF * (Len(v) + dt * Len(z.acc)) + dt * acc_err;
  z.pos_err = dt_err * Len(z.vel) + 6 * kEpsF * (Len(p) + dt * Len(z.vel)) + dt * vel_err + 1e-36;
  z.moved = Dist(p, z.pos);
  z.moved_err = 4 * kEpsF * z.moved + z.pos_err;
  double len2 = Dot(z.pos - p, z.pos - p);
  if (z.moved <= 2 * z.pos_err) {
    z.t = 1;
    z.t_err = 1e30;
  } else {
    z.t = Dot(anchor - p, z.pos - p) / len2;
    z.t_err = 8 * kEpsF * (1 + Dist(anchor, p) / z.moved) +
              2 * z.pos_err * (Dist(anchor, p) + 2 * z.moved) / len2;
  }
  return z;
}

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  po.mitigation = kNo;
  po.small_limits = s.chance(1, 4);
  StrokeModelParams p = GenParams(c, u, po);
  if (s.chance(1, 2)) {
    // Little drag and a short distance: several halvings.
    static const float kStop[] = {1e-3f, 1e-4f, 0.5f, 2};
    p.sampling_params.end_of_stroke_stopping_distance = s.pick(kStop) * u.length;
    static const float kMul[] = {0.125f, 0.03f, 1, 0.5f};
    p.position_modeler_params.drag_constant *= s.pick(kMul);
    static const int kIter[] = {20, 40, 8, 3, 1000};
    p.sampling_params.end_of_stroke_max_iterations = s.pick(kIter);
  }
  StrokeOpts so;
  so.max_moves = 12;
  so.long_moves = 40;
  std::vector<Input> in = GenStroke(c, u, so);
  if (in.size() > 1 && s.chance(1, 8)) {
    // A long way to the up event, which leaves few outputs for the catch-up.
    auto& limit = p.sampling_params.max_outputs_per_call;
    if (s.chance(1, 2)) in.back().time = Time(in.back().time.Value() + s.logreal(1, 300) / p.sampling_params.min_output_rate);
    double most = 1;
    for (size_t i = 1; i < in.size(); ++i) {
      most = std::max(most, RateSteps(in[i].time.Value() - in[i - 1].time.Value(), p.sampling_params.min_output_rate).hi);
    }
    limit = std::min(100000., most + s.range(0, 24));
  }
  NoteCase(c, p, in);
  const double k = p.position_modeler_params.spring_mass_constant;
  const double drag = p.position_modeler_params.drag_constant;
  const double stop = p.sampling_params.end_of_stroke_stopping_distance;
  Dut m(c);
  MustReset(c, m, p);
  Result prev{};
  Call call;
  for (size_t i = 0; i < in.size(); ++i) {
    Call x = Feed(m, in[i], i ? &prev : nullptr, i ? in[i - 1].time.Value() : 0, 0);
    if (!x.ok()) {
      // Only the limit on outputs may refuse an input here.
      if (p.sampling_params.max_outputs_per_call >= 100000) c.fail("update %zu refused", i);
      throw pbt::Discard{};
    }
    for (auto& r : x.out) c.note("    %s", Str(r).c_str());
    // Out of control (varying steps can excite a spring with little drag):
    // squares of such numbers are no longer within the range of float.
    for (auto& r : x.out) {
      if (!(Len(D(r.position)) < 1e15 && Len(D(r.velocity)) < 1e17)) throw pbt::Discard{};
    }
    if (i + 1 == in.size()) {
      call = x;
    } else {
      prev = x.out.back();
    }
  }
  const std::vector<Result>& r = call.out;
  const int limit = p.sampling_params.end_of_stroke_max_iterations;
  if (in.size() > 1 && in[in.size() - 2].time.Value() == call.in.time.Value() && limit <= 12 &&
      p.sampling_params.max_estimated_angle_to_traverse_per_input <= 0) {
    // No time to cover, and no step too short for the clock: a result at the up's own time
    // can only repeat the state before it.
    CHECK_THAT(c, call.steps == 0, "no time to cover, but the result differs from the one before: %s", Str(r[0]).c_str());
    c.label("no time to cover");
  }
  const double t_up = call.in.time.Value();
  int n = call.steps;
  V anchor = D(call.in.position);
  Result state = n ? r[n - 1] : prev;
  size_t next = n;
  bool repeated = n == 0 && r.size() == 1 && SameTip(r[0], prev);
  if (repeated) next = 1;
  double dt = 1 / p.sampling_params.min_output_rate;
  const int budget = p.sampling_params.max_outputs_per_call - n;
  bool small = false;
  int used = 0, halvings = 0, outputs = 0;
  bool done = false;       // a result certainly ended it
  bool maybe_done = false; // a result may have ended it
  const double ulp = 4e-16 * std::fabs(t_up) + 1e-300;
  while (next < r.size()) {
    const Result& out = r[next];
    CHECK_THAT(c, !done, "continues after a result within the stopping distance: %s", Str(out).c_str());
    double step = out.time.Value() - state.time.Value();
    // Candidates which must have been discarded before this one.
    for (;;) {
      CHECK_THAT(c, used < limit, "result %zu: more than %d iterations", next, limit);
      ++used;
      Cand z = Step(D(state.position), D(state.velocity), anchor, dt, k, drag, state.time.Value());
      if (n == 0 && r.size() == 1 && z.moved < stop + 2 * z.moved_err && std::fabs(step - dt) <= 1e-6 * dt + 2 * ulp) {
        // There is always one result: here, the step that was too small.
        CHECK_THAT(c, Dist(z.pos, D(out.position)) <= 2 * z.pos_err, "the only result is not a step of the model: %s", Str(out).c_str());
        done = true;
        small = true;
        break;
      }
      CHECK_THAT(c, z.moved > stop - 2 * z.moved_err, "result %zu: continues although a step of %.9g moves only %.9g < %.9g", next, dt, z.moved, stop);
      if (std::fabs(step - dt) <= 1e-6 * dt + 2 * ulp) {
        CHECK_THAT(c, z.t >= 1 - z.t_err, "result %zu passes the closest point to the up position: %.9g", next, z.t);
        CHECK_THAT(c, Dist(z.pos, D(out.position)) <= 2 * z.pos_err, "result %zu: position (%.9g, %.9g), a step of the model gives (%.9g, %.9g)", next,
                   out.position.x, out.position.y, z.pos.x, z.pos.y);
        double vtol = 2 * z.pos_err / dt + 16 * kEpsF * Len(z.vel);
        CHECK_THAT(c, Dist(z.vel, D(out.velocity)) <= vtol, "result %zu: velocity (%.9g, %.9g), a step of the model gives (%.9g, %.9g)", next,
                   out.velocity.x, out.velocity.y, z.vel.x, z.vel.y);
        double atol = 16 * kEpsF * ((Len(anchor) + Len(D(state.position))) / k + drag * Len(D(state.velocity)) + Len(z.acc));
        CHECK_THAT(c, Dist(z.acc, D(out.acceleration)) <= atol, "result %zu: acceleration (%.9g, %.9g), a step of the model gives (%.9g, %.9g)", next,
                   out.acceleration.x, out.acceleration.y, z.acc.x, z.acc.y);
        double d0 = Dist(D(state.position), anchor), d1 = Dist(D(out.position), anchor);
        CHECK_THAT(c, d1 < d0 + 2 * z.pos_err, "result %zu is not closer to the up position: %.9g after %.9g", next, d1, d0);
        double derr = 8 * kEpsF * (Len(anchor) + Len(D(out.position)));
        done = d1 < stop - derr;
        maybe_done = d1 < stop + derr;
        break;
      }
      CHECK_THAT(c, step < dt, "result %zu: a step of %.9g instead of %.9g", next, step, dt);
      CHECK_THAT(c, z.t < 1 + z.t_err, "result %zu: step of %.9g although one of %.9g does not pass the closest point (%.9g)", next, step, dt, z.t);
      dt /= 2;
      ++halvings;
    }
    state = out;
    ++next;
    ++outputs;
  }
  CHECK_THAT(c, outputs <= limit, "%d results after the up's time, limit %d", outputs, limit);
  // Was it right to stop?
  const char* why = "stopping distance";
  if (!done && !maybe_done) {
    why = "iterations";
    for (;;) {
      if (used >= limit) break;
      if (used >= budget) {
        why = "output limit";
        break;
      }
      ++used;
      Cand z = Step(D(state.position), D(state.velocity), anchor, dt, k, drag, state.time.Value());
      if (z.moved < stop + 2 * z.moved_err) {
        why = "no progress";
        // There is always one result: here, the step that was too small.
        CHECK_THAT(c, !repeated || z.moved >= stop - 2 * z.moved_err || dt < 8 * ulp || p.sampling_params.max_estimated_angle_to_traverse_per_input > 0,
                   "the only result repeats the state before it, although a step of %.9g (moving %.9g) was tried", dt, z.moved);
        break;
      }
      CHECK_THAT(c, z.t < 1 + z.t_err,
                 "stops after %d iterations (limit %d) although a step of %.9g moves %.9g (stopping distance %.9g) without passing the closest point", used,
                 limit, dt, z.moved, stop);
      dt /= 2;
      ++halvings;
    }
  }
  c.label(why);
  c.label_if(halvings > 0, "halved");
  c.label_if(halvings > 3, "halved more than three times");
  c.label_if(repeated || small, "nothing to add");
  c.label_if(outputs == 0, "no catch-up");
  if (outputs >= 2) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C05",
    "A generated stroke ending with an up, under generated parameters (also low drag, "
    "small and large stopping distances, few or many iterations). The results after the "
    "up's time are replayed by a nondeterministic reference in double precision: each must "
    "be the first step, halving from one period, which does not pass the closest point; "
    "the reason for stopping must be one of the documented ones. Non-trivial: at least two "
    "results of catch-up.",
    "Decisions within float rounding of a threshold are accepted either way",
    1200000, 15000000, Run};
