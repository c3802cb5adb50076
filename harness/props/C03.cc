// Timing and number of results per update.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

void Run(Case& c) {
  Src& s = c.src;
  bool dyadic = s.chance(1, 2);
  Units u = GenUnits(c, {.dyadic = dyadic});
  ParamOpts po;
  po.dyadic_rate = dyadic;
  StrokeModelParams p = GenParams(c, u, po);
  StrokeOpts so;
  so.tiny_dt = !dyadic && s.chance(1, 3);
  so.dyadic = dyadic;
  so.max_pause = 40;
  std::vector<Input> in = GenStroke(c, u, so);
  GenHugeGap(c, u, p, in);
  NoteCase(c, p, in);
  bool angle = p.sampling_params.max_estimated_angle_to_traverse_per_input > 0;
  double rate = p.sampling_params.min_output_rate, period = 1 / rate;
  Dut m(c);
  MustReset(c, m, p);
  // The vector is sometimes kept, sometimes cleared.
  std::vector<Result> out, pred;
  bool keep = s.chance(1, 2);
  if (s.chance(1, 4)) out.resize(s.below(5) + 1);
  Result last{};
  int upsampled = 0, single = 0, zero = 0, caught_up = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    if (!keep) out.clear();
    std::vector<Result> before = out;
    absl::Status st = m.Update(in[i], out);
    CHECK_THAT(c, st.ok(), "update %zu refused: %s", i, std::string(st.message()).c_str());
    CHECK_THAT(c, out.size() > before.size(), "update %zu yields no result", i);
    for (size_t j = 0; j < before.size(); ++j) {
      CHECK_THAT(c, Same(before[j], out[j]), "update %zu changed result %zu already in the vector", i, j);
    }
    std::vector<Result> r(out.begin() + before.size(), out.end());
    for (auto& x : r) c.note("    %s", Str(x).c_str());
    if (s.chance(1, 8)) (void)m.Predict(pred);
    double t1 = in[i].time.Value();
    if (i == 0) {
      CHECK_THAT(c, r.size() == 1, "down yields %zu results", r.size());
      CHECK_THAT(c, Eq(r[0].position, in[0].position) && Eq(r[0].time, in[0].time), "down's result is not at the input: %s", Str(r[0]).c_str());
      CHECK_THAT(c, r[0].velocity == (Vec2{0, 0}) && r[0].acceleration == (Vec2{0, 0}), "down's result moves: %s", Str(r[0]).c_str());
      last = r[0];
      continue;
    }
    double t0 = in[i - 1].time.Value(), dt = t1 - t0;
    double ulp = 4 * 2.3e-16 * std::max(std::fabs(t0), std::fabs(t1));
    bool up = in[i].event_type == Input::EventType::kUp;
    // Never backwards, from the last result of the previous update on.
    double prev = last.time.Value();
    for (size_t j = 0; j < r.size(); ++j) {
      CHECK_THAT(c, r[j].time.Value() >= prev, "update %zu: time goes back from %.17g to %.17g", i, prev, r[j].time.Value());
      prev = r[j].time.Value();
    }
    IntRange want = RateSteps(dt, rate);
    size_t n = 0;
    while (n < r.size() && r[n].time.Value() <= t1 + ulp) ++n;
    if (up && dt == 0 && n > 0 && !angle) {
      // Nothing to add: a single repeated state.
      CHECK_THAT(c, r.size() == 1, "up without time passing: %zu results at its time", n);
      n = 0;
    }
    if (up) {
      caught_up += n < r.size();
      if (dt > 0 || angle) {
        CHECK_THAT(c, dt == 0 || n >= 1, "up at %.17g: no result up to its time", t1);
      }
      // The rest: steps of at most one period.
      double pt = n ? r[n - 1].time.Value() : last.time.Value();
      for (size_t j = n; j < r.size(); ++j) {
        double g = r[j].time.Value() - pt;
        CHECK_THAT(c, g <= period * (1 + 1e-6) + ulp, "up: results %.17g apart, period %.17g", g, period);
        pt = r[j].time.Value();
      }
    } else {
      CHECK_THAT(c, n == r.size(), "move: result at %.17g is after the input at %.17g", r.back().time.Value(), t1);
      CHECK_THAT(c, std::fabs(r.back().time.Value() - t1) <= ulp, "move: last result at %.17g instead of %.17g", r.back().time.Value(), t1);
    }
    // Evenly spaced up to the input's time.
    for (size_t j = 0; j < n; ++j) {
      double expect = t0 + dt * (j + 1.) / n;
      CHECK_THAT(c, std::fabs(r[j].time.Value() - expect) <= ulp + 2e-7 * dt,
                 "update %zu: result %zu of %zu at %.17g, evenly spaced would be %.17g", i, j, n, r[j].time.Value(), expect);
    }
    if (n) CHECK_THAT(c, dt / n <= period * (1 + 1e-6), "update %zu: %zu results over %.17g, period %.17g", i, n, dt, period);
    if (!angle) {
      double lo = want.lo, hi = want.hi;
      if (!up) lo = std::max(lo, 1.), hi = std::max(hi, 1.);
      CHECK_THAT(c, n >= lo && n <= hi, "update %zu: %zu results over %.17g at rate %.17g instead of %g", i, n, dt, rate, lo);
      if (!up && want.hi <= 1) ++single;
    }
    if (n > 1) ++upsampled;
    if (dt == 0) ++zero;
    last = r.back();
  }
  c.label_if(upsampled > 0, "upsampled");
  c.label_if(single > 0, "faster than the rate");
  c.label_if(zero > 0, "same time stamp");
  c.label_if(caught_up > 0, "catch-up");
  c.label_if(angle, "upsampling by angle");
  c.label_if(in.size() > 40, "long stroke");
  if (in.size() >= 3 && upsampled + single > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C03",
    "A generated stroke (up to 24, sometimes 120 moves; several shapes, pauses, bursts, "
    "simultaneous inputs) under generated parameters, with the vector kept or cleared "
    "between calls. Per update: the number of results against the output rate, even "
    "spacing, order, last time, untouched older results. Non-trivial: at least two "
    "updates after the down, one of them upsampled or faster than the rate.",
    "Parameters and inputs of ordinary magnitude|counts within rounding of the float time "
    "difference are accepted; exactly representable times leave no such slack",
    600000, 8000000, Run};
