// Reference computations shared by several properties: double precision, with
// explicit error bounds, written from the documentation.
#ifndef INK_VERIF_REF_H_
#define INK_VERIF_REF_H_

#include <algorithm>
#include <cmath>
#include <vector>

#include "dut.h"

namespace ref {

using namespace gen;  // NOLINT

struct V {
  double x = 0, y = 0;
};
inline V D(Vec2 v) { return {v.x, v.y}; }
inline V operator+(V a, V b) { return {a.x + b.x, a.y + b.y}; }
inline V operator-(V a, V b) { return {a.x - b.x, a.y - b.y}; }
inline V operator*(V a, double s) { return {a.x * s, a.y * s}; }
inline V operator*(double s, V a) { return {a.x * s, a.y * s}; }
inline V operator/(V a, double s) { return {a.x / s, a.y / s}; }
inline double Dot(V a, V b) { return a.x * b.x + a.y * b.y; }
inline double Cross(V a, V b) { return a.x * b.y - a.y * b.x; }
inline double Len(V a) { return std::hypot(a.x, a.y); }
inline double Dist(V a, V b) { return Len(a - b); }

// Range of ceil(v) given a relative uncertainty of v.
struct IntRange {
  double lo, hi;
  bool has(double n) const { return n >= lo && n <= hi; }
};

// Number of results the output rate asks for over `dt`.
inline IntRange RateSteps(double dt, double rate) {
  double f = static_cast<float>(dt);
  double v = f * rate;
  if (f == dt && std::fma(f, rate, -v) == 0) return {std::ceil(v), std::ceil(v)};
  return {std::ceil(v * (1 - 4e-7)), std::ceil(v * (1 + 4e-7))};
}

// Number of results asked for by the angle option, from the tip state.
inline IntRange AngleSteps(const Result& tip, const Input& from, const Input& to,
                           const StrokeModelParams& p) {
  double limit = p.sampling_params.max_estimated_angle_to_traverse_per_input;
  if (!(limit > 0)) return {0, 0};
  double dt = to.time.Value() - from.time.Value();
  double k = p.position_modeler_params.spring_mass_constant;
  V v0 = D(tip.velocity);
  V dv = (D(to.position) - D(tip.position)) / k * dt;
  V v1 = v0 + dv;
  // Uncertainty of v1, from rounding in float.
  double err = 4 * kEpsF * (Len(v0) + 2 * Len(dv) +
                            (Len(D(to.position)) + Len(D(tip.position))) / k * dt);
  double m0 = Len(v0), m1 = Len(v1);
  if (m0 == 0) return {0, 0};
  // Denormal lengths have hardly any direction left.
  if (m1 <= 2 * err || m0 < 1e-36 || m1 < 1e-36) return {0, std::ceil(3.1415927 / limit * (1 + 1e-6))};
  double angle = std::atan2(std::fabs(Cross(v0, v1)), Dot(v0, v1));
  double de = err / m1 + 1e-6;
  // acos() of a float is only good to sqrt(eps) near 0 and pi.
  double c_err = 6 * kEpsF + de * std::sin(angle) + de * de;
  double c = std::cos(angle);
  double lo = std::acos(std::min(1., c + c_err));
  double hi = std::acos(std::max(-1., c - c_err));
  lo = std::max(0., std::min(lo, angle - de));
  hi = std::max(hi, angle + de);
  return {std::ceil(lo / limit * (1 - 1e-6)), std::ceil(hi / limit * (1 + 1e-6))};
}

// Number of results up to the time of the input `to`.
inline IntRange Steps(const Result& tip, const Input& from, const Input& to,
                      const StrokeModelParams& p) {
  IntRange r = RateSteps(to.time.Value() - from.time.Value(),
                         p.sampling_params.min_output_rate);
  IntRange a = AngleSteps(tip, from, to, p);
  return {std::max(r.lo, a.lo), std::max(r.hi, a.hi)};
}

// Distance between two angles, modulo a full turn.
inline double AngleDist(double a, double b) {
  double d = std::fabs(std::fmod(a - b, kTwoPi));
  return std::min(d, kTwoPi - d);
}

// One successful or rejected update of a stroke.
struct Call {
  Input in;
  absl::StatusCode code = absl::StatusCode::kOk;
  std::vector<Result> out;
  // How many of the results lie at or before the input's time. A single result
  // which only repeats the state before the call does not count as a step.
  int steps = 0;
  bool ok() const { return code == absl::StatusCode::kOk; }
};

inline bool SameTip(const Result& a, const Result& b) {
  return Eq(a.position, b.position) && Eq(a.velocity, b.velocity) &&
         Eq(a.acceleration, b.acceleration) && Eq(a.time, b.time);
}

// Feeds one input; `prev` is the last result before it (null for a down).
template <typename Modeler>
Call Feed(Modeler& m, const Input& in, const Result* prev,
                 double prev_input_time, double rate) {
  Call k;
  k.in = in;
  k.code = m.Update(in, k.out).code();
  if (!k.ok() || prev == nullptr) return k;
  // A step of the catch-up is at least 2^-20 of a period in practice; use half
  // a thousandth of a period of slack, or less if the inputs are close.
  double slack = std::fabs(in.time.Value()) * 1e-15;
  (void)rate;
  for (const Result& r : k.out) {
    if (r.time.Value() <= in.time.Value() + slack) ++k.steps;
  }
  if (k.out.size() == 1 && in.time.Value() == prev_input_time && SameTip(k.out[0], *prev)) {
    k.steps = 0;
  }
  return k;
}

// The anchor implied by a result and the one before it, with an error bound.
struct Anchor {
  V pos;
  double err;
};
inline Anchor ImpliedAnchor(const Result& r0, const Result& r1,
                            const StrokeModelParams& p) {
  double k = p.position_modeler_params.spring_mass_constant;
  double d = p.position_modeler_params.drag_constant;
  V x = D(r0.position) + k * (D(r1.acceleration) + d * D(r0.velocity));
  double err = 4 * kEpsF * (Len(x) + Len(D(r0.position)) + k * Len(D(r1.acceleration)) + 2 * k * d * Len(D(r0.velocity)));
  return {x, err + 1e-36};
}

}  // namespace ref

#endif
