// Other units, a turned coordinate system or another origin of time change the
// results exactly as they change the inputs. Powers of two scale floating point
// numbers without rounding, so the comparison is for equality.
#include "../gen.h"

using namespace gen;  // NOLINT

namespace {

struct Change {
  double len = 1, time = 1, shift = 0;
  int turns = 0;
  bool swap = false;

  Vec2 Dir(Vec2 v, double scale) const {
    v = {static_cast<float>(v.x * scale), static_cast<float>(v.y * scale)};
    for (int i = 0; i < turns; ++i) v = {-v.y, v.x};
    if (swap) v = {v.y, v.x};
    return v;
  }
  Input Of(Input in) const {
    in.position = Dir(in.position, len);
    in.time = Time(in.time.Value() * time + shift);
    return in;
  }
  Result Of(Result r) const {
    r.position = Dir(r.position, len);
    r.velocity = Dir(r.velocity, len / time);
    r.acceleration = Dir(r.acceleration, len / (time * time));
    r.time = Time(r.time.Value() * time + shift);
    return r;
  }
  StrokeModelParams Of(StrokeModelParams p) const {
    double v = len / time;
    auto& w = p.wobble_smoother_params;
    if (w.is_enabled) {
      w.timeout = w.timeout * time;
      w.speed_floor *= v;
      w.speed_ceiling *= v;
    }
    auto& m = p.position_modeler_params;
    m.spring_mass_constant *= time * time;
    m.drag_constant /= time;
    auto& l = m.loop_contraction_mitigation_params;
    if (l.is_enabled) {
      l.speed_lower_bound *= v;
      l.speed_upper_bound *= v;
      l.min_speed_sampling_window = l.min_speed_sampling_window * time;
    }
    auto& q = p.sampling_params;
    q.min_output_rate /= time;
    q.end_of_stroke_stopping_distance *= len;
    auto& t = p.stylus_state_modeler_params;
    if (t.use_stroke_normal_projection) t.min_sample_duration = t.min_sample_duration * time;
    if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
      k->min_catchup_velocity *= v;
      k->prediction_interval = k->prediction_interval * time;
      k->confidence_params.min_travel_speed *= v;
      k->confidence_params.max_travel_speed *= v;
      k->confidence_params.max_estimation_distance *= len;
      k->confidence_params.max_linear_deviation *= len;
    }
    return p;
  }
};

// Numbers this small may have lost digits to underflow, which scaling changes.
// Projecting along the normal multiplies velocities and accelerations.
bool Tiny(const std::vector<Result>& v, const StrokeModelParams& p) {
  float limit = p.stylus_state_modeler_params.use_stroke_normal_projection ? 1e-12f : 1e-30f;
  auto tiny = [&](float f) { return f != 0 && std::fabs(f) < limit; };
  for (auto& r : v) {
    if (tiny(r.velocity.x) || tiny(r.velocity.y) || tiny(r.acceleration.x) || tiny(r.acceleration.y) || tiny(r.position.x) || tiny(r.position.y)) return true;
  }
  return false;
}

void RequireChanged(Case& c, const Change& ch, const std::vector<Result>& a, const std::vector<Result>& b, const char* what, size_t i) {
  CHECK_THAT(c, a.size() == b.size(), "%s %zu: %zu results, after the change of units %zu", what, i, a.size(), b.size());
  for (size_t j = 0; j < a.size(); ++j) {
    c.note("  %s %zu: %s", what, i, Str(a[j]).c_str());
    Result e = ch.Of(a[j]);
    CHECK_THAT(c, Same(e, b[j]), "%s %zu, result %zu, in the other coordinates:\n  expected %s\n  actual   %s", what, i, j, Str(e).c_str(), Str(b[j]).c_str());
  }
}

void Run(Case& c) {
  Src& s = c.src;
  bool shift = s.chance(1, 3);
  Units u = GenUnits(c, {.dyadic = shift});
  ParamOpts po;
  po.dyadic_rate = shift;
  if (shift) po.angle = kNo;
  bool swap = s.chance(1, 4);
  if (swap) {
    po.normal = kNo;
    po.mitigation = kNo;
  }
  po.small_limits = s.chance(1, 6);
  StrokeModelParams p = GenParams(c, u, po);
  Change ch;
  ch.swap = swap;
  ch.turns = s.below(4);
  static const double kPow[] = {1, 2, 0.5, 16, 1. / 16, 1024, 1. / 1024};
  if (!IsKalman(p)) ch.len = s.pick(kPow);
  ch.time = s.pick(kPow);
  if (p.position_modeler_params.loop_contraction_mitigation_params.is_enabled && u.time_scale > 1 && ch.time > 1) ch.time = 1 / ch.time;
  StrokeOpts so;
  so.max_moves = 20;
  so.long_moves = 80;
  if (shift) {
    p.sampling_params.end_of_stroke_max_iterations = std::min(p.sampling_params.end_of_stroke_max_iterations, 20);
    so.dyadic = true;
    static const double kShift[] = {1, -1, 16, 512};
    ch.shift = s.pick(kShift) * u.time_scale * ch.time;
  }
  std::vector<Input> in = GenStroke(c, u, so);
  if (shift) {
    // Start within a few units of zero: every time that occurs is then exact.
    double t0 = in[0].time.Value();
    // Gaps are cut to a power of two of output periods, so that each is divided
    // into exactly representable steps.
    double period = 1 / p.sampling_params.min_output_rate, prev = t0, now = 0;
    for (auto& x : in) {
      double gap = x.time.Value() - prev;
      prev = x.time.Value();
      double n = std::ceil(gap / period);
      if (n > 1) {
        double f = std::exp2(std::floor(std::log2(n)));
        if (f != n) gap = f * period;
      }
      now += gap;
      x.time = Time(now);
    }
  }
  NoteCase(c, p, in);
  c.note("length *%g, time *%g +%g, quarter turns %d, swap %d", ch.len, ch.time, ch.shift, ch.turns, ch.swap);
  // The tip itself, without the mitigation's influence on the results.
  FRESH_MODELER(tip);
  StrokeModelParams plain = p;
  plain.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
  FRESH_MODELER(a);
  FRESH_MODELER(b);
  MustReset(c, tip, plain);
  MustReset(c, a, p);
  MustReset(c, b, ch.Of(p));
  int ok = 0, multi = 0;
  for (size_t i = 0; i < in.size(); ++i) {
    std::vector<Result> ra, rb;
    absl::Status sa = a.Update(in[i], ra), sb = b.Update(ch.Of(in[i]), rb);
    CHECK_THAT(c, sa.code() == sb.code(), "update %zu: status %d, after the change of units %d", i, static_cast<int>(sa.code()), static_cast<int>(sb.code()));
    std::vector<Result> rt;
    (void)tip.Update(in[i], rt);
    if (Tiny(ra, p) || Tiny(rb, p) || Tiny(rt, p)) {
      c.label("stopped at an underflow");
      return;
    }
    RequireChanged(c, ch, ra, rb, "update", i);
    ok += sa.ok();
    multi += ra.size() > 1;
    if (s.chance(1, 4)) {
      sa = a.Predict(ra);
      sb = b.Predict(rb);
      CHECK_THAT(c, sa.code() == sb.code(), "prediction %zu: status %d, after the change of units %d", i, static_cast<int>(sa.code()), static_cast<int>(sb.code()));
      rt.clear();
      (void)tip.Predict(rt);
      if (Tiny(ra, p) || Tiny(rb, p) || Tiny(rt, p)) continue;
      RequireChanged(c, ch, ra, rb, "prediction", i);
      c.label_if(IsKalman(p) && !ra.empty(), "Kalman prediction");
    }
    int k = s.weighted({12, 1, 1});
    if (k == 1) {
      a.Save();
      b.Save();
      tip.Save();
    } else if (k == 2 && !shift) {
      a.Restore();
      b.Restore();
      tip.Restore();
    }
  }
  c.label_if(ch.len != 1, "length");
  c.label_if(ch.time != 1, "time");
  c.label_if(ch.turns != 0, "turn");
  c.label_if(swap, "swap");
  c.label_if(shift, "time shift");
  bool changed = ch.len != 1 || ch.time != 1 || ch.turns || swap || shift;
  if (changed && ok >= 3 && multi > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C19",
    "A generated stroke with predictions, saves and restores, run on two modelers in two "
    "coordinate systems: lengths and times scaled by powers of two, quarter turns, axes "
    "swapped, time shifted (for exactly representable times). The results must correspond "
    "bit for bit. Non-trivial: some change, at least three updates accepted, one of them "
    "with several results.",
    "Powers of two, quarter turns and exact times, for which floating point arithmetic commutes "
    "with the change|lengths not scaled with the Kalman predictor|axes swapped only without "
    "stroke normal projection, which distinguishes left from right in ties",
    700000, 10000000, Run};
