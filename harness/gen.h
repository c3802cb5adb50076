// Generators of parameters, strokes and call histories, and small helpers which
// all properties share. Only the public API of the library is used here.
#ifndef INK_VERIF_GEN_H_
#define INK_VERIF_GEN_H_

#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "engine.h"
#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"

namespace gen {

using namespace ink::stroke_model;  // NOLINT
using pbt::Case;
using pbt::Src;

constexpr double kEpsF = 1.1920929e-7;
constexpr double kTwoPi = 6.283185307179586;

// ---------------------------------------------------------------- units

// The "ordinary" magnitudes of a case; everything else is relative to these.
struct Units {
  double length = 1;    // typical distance between inputs
  double period = 1. / 64;  // typical time between inputs
  double speed() const { return length / period; }
  // The default spring and drag constants suit a unit of time of about a
  // second at 60-240 inputs per unit.
  double time_scale = 1;
  bool big = false;  // large windows and a long stroke
};

struct UnitOpts {
  bool dyadic = false;  // exactly representable times and lengths
};

inline Units GenUnits(Case& c, UnitOpts o = {}) {
  Units u;
  Src& s = c.src;
  static const double kLen[] = {1, 0.0625, 8, 1. / 1024, 512};
  u.length = kLen[s.weighted({6, 2, 3, 1, 1})];
  if (o.dyadic) {
    static const double kPer[] = {1. / 64, 1. / 128, 1. / 256, 1. / 32};
    u.period = s.pick(kPer);
    static const double kTs[] = {1, 1. / 1024, 1024};
    u.time_scale = kTs[s.weighted({6, 1, 1})];
  } else {
    static const double kPer[] = {1. / 60, 1. / 64, 1. / 120, 1. / 240, 0.01, 0.0083};
    u.period = s.pick(kPer);
    static const double kTs[] = {1, 1000, 0.001, 1. / 60};
    u.time_scale = kTs[s.weighted({6, 1, 1, 1})];
  }
  u.period *= u.time_scale;
  u.big = s.chance(1, 128);
  c.label_if(u.big, "large windows, long stroke");
  return u;
}

// ---------------------------------------------------------------- parameters

enum Tri { kNo, kYes, kAny };
enum Pred { kPredAny, kPredStrokeEnd, kPredKalman, kPredDisabled, kPredEnabled };

struct ParamOpts {
  Tri wobble = kAny;
  Tri mitigation = kAny;
  Tri normal = kAny;  // stroke normal projection
  Tri angle = kAny;   // upsampling by angle
  Pred pred = kPredAny;
  bool dyadic_rate = false;
  bool default_physics = false;
  bool small_limits = false;  // often a small max_outputs_per_call
  bool unstable_ok = false;   // do not ensure that one Euler step is stable
};

inline bool Tri2Bool(Case& c, Tri t, uint64_t num = 1, uint64_t den = 2) {
  return t == kYes || (t == kAny && c.src.chance(num, den));
}

// Usually one of the listed values, sometimes anything in their range.
template <size_t N>
double PickReal(Src& s, const double (&a)[N], double lo, double hi) {
  return s.chance(1, 8) ? s.logreal(lo, hi) : s.pick(a);
}
template <size_t N>
int PickInt(Src& s, const int (&a)[N], int lo, int hi, bool big) {
  if (big && s.chance(1, 2)) return static_cast<int>(s.logreal(hi, 1000));
  return s.chance(1, 8) ? s.range(lo, hi) : s.pick(a);
}

inline KalmanPredictorParams GenKalman(Case& c, const Units& u) {
  Src& s = c.src;
  KalmanPredictorParams k;
  static const double kNoise[] = {0.01, 0.1, 1, 1e-4, 0.26458};
  k.process_noise = PickReal(s, kNoise, 1e-4, 1) * (u.length * u.length);
  k.measurement_noise = PickReal(s, kNoise, 1e-4, 1) * (u.length * u.length);
  static const int kStable[] = {4, 1, 2, 3, 8};
  k.min_stable_iteration = PickInt(s, kStable, 1, 30, u.big);
  static const int kSamples[] = {20, 2, 3, 5, 10};
  k.max_time_samples = PickInt(s, kSamples, 1, 40, u.big);
  static const double kCatch[] = {0.001, 0.02, 0.2, 1};
  k.min_catchup_velocity = PickReal(s, kCatch, 1e-3, 1) * u.speed();
  if (s.chance(1, 3)) {
    static const float kW[] = {0, 1, 0.25f, 2};
    k.acceleration_weight = s.pick(kW);
    k.jerk_weight = s.pick(kW);
  }
  static const double kInt[] = {0.02, 0.025, 0.1, 0.005};
  k.prediction_interval = Duration(PickReal(s, kInt, 0.002, 0.2) * u.time_scale);
  auto& q = k.confidence_params;
  static const int kDes[] = {20, 1, 4, 10};
  q.desired_number_of_samples = PickInt(s, kDes, 1, 40, u.big);
  static const double kDist[] = {1.5, 10, 0.2, 1000};
  q.max_estimation_distance = PickReal(s, kDist, 0.1, 1000) * u.length;
  static const double kMin[] = {0.05, 0, 0.5};
  static const double kMax[] = {0.2, 0, 1};
  q.min_travel_speed = s.pick(kMin) * u.speed();
  q.max_travel_speed = q.min_travel_speed + static_cast<float>(s.pick(kMax) * u.speed());
  static const double kDev[] = {10, 1, 0.1, 1000};
  q.max_linear_deviation = PickReal(s, kDev, 0.1, 1000) * u.length;
  static const float kBase[] = {.4f, 0, 1};
  q.baseline_linearity_confidence = s.pick(kBase);
  return k;
}

// Parameters which are valid, and ordinary for the units.
inline StrokeModelParams GenParams(Case& c, const Units& u, ParamOpts o = {}) {
  Src& s = c.src;
  StrokeModelParams p;
  auto& w = p.wobble_smoother_params;
  w.is_enabled = Tri2Bool(c, o.wobble);
  if (w.is_enabled) {
    static const double kTimeout[] = {2.5, 4, 1, 0.5, 0, 20, 3};
    w.timeout = Duration(PickReal(s, kTimeout, 0.1, 60) * (u.big ? 16 : 1) * u.period);
    static const double kFloor[] = {0.5, 0.02, 0, 1, 2};
    static const double kRange[] = {1, 0.01, 0, 4};
    w.speed_floor = PickReal(s, kFloor, 0.01, 3) * u.speed();
    w.speed_ceiling = w.speed_floor + static_cast<float>(s.pick(kRange) * u.speed());
  }
  auto& m = p.position_modeler_params;
  m.spring_mass_constant = 11.f / 32400 * (u.time_scale * u.time_scale);
  m.drag_constant = 72.f / u.time_scale;
  if (!o.default_physics && s.chance(1, 2)) {
    static const float kMul[] = {1, 0.5f, 2, 0.125f, 8};
    m.spring_mass_constant *= s.pick(kMul);
    m.drag_constant *= s.pick(kMul);
    if (s.chance(1, 4)) m.spring_mass_constant *= s.real(0.5, 2);
    if (s.chance(1, 4)) m.drag_constant *= s.real(0.5, 2);
  }
  auto& q = p.sampling_params;
  if (o.dyadic_rate) {
    static const double kRate[] = {64, 128, 256, 16, 512, 32};
    q.min_output_rate = s.pick(kRate) / u.time_scale;
  } else {
    static const double kRate[] = {180, 60, 200, 120, 240, 1000, 30, 64, 128};
    q.min_output_rate = PickReal(s, kRate, 30, 1000) / u.time_scale;
  }
  static const double kStop[] = {0.01, 0.001, 0.1, 1};
  q.end_of_stroke_stopping_distance = PickReal(s, kStop, 1e-4, 2) * u.length;
  static const int kIter[] = {20, 1, 2, 5, 100};
  q.end_of_stroke_max_iterations = kIter[s.weighted({5, 1, 1, 1, 1})];
  if (s.chance(1, 16)) q.end_of_stroke_max_iterations = s.range(1, 1000);
  if (o.small_limits && s.chance(2, 3)) q.max_outputs_per_call = s.range(1, 40);
  if (Tri2Bool(c, o.angle, 1, 4)) {
    static const double kAngle[] = {0.5, 0.1, 1.5707963267948966, 3, 0.02};
    q.max_estimated_angle_to_traverse_per_input = PickReal(s, kAngle, 0.02, 3.1);
  }
  if (!o.unstable_ok) {
    // Raise the output rate until one step is comfortably stable.
    for (int i = 0; i < 30; ++i) {
      double dt = 1 / q.min_output_rate;
      if (dt * m.drag_constant < 1 && dt * dt / m.spring_mass_constant < 1) break;
      q.min_output_rate *= 2;
    }
  }
  auto& t = p.stylus_state_modeler_params;
  auto& l = m.loop_contraction_mitigation_params;
  l.is_enabled = o.normal != kNo && Tri2Bool(c, o.mitigation, 1, 3);
  t.use_stroke_normal_projection = l.is_enabled || Tri2Bool(c, o.normal);
  if (t.use_stroke_normal_projection) {
    static const int kMinIn[] = {10, 1, 2, 3, 5};
    t.min_input_samples = PickInt(s, kMinIn, 1, 40, u.big);
    static const double kMinDur[] = {0.05, 0.5, 2.5, 10};
    t.min_sample_duration = Duration(PickReal(s, kMinDur, 0.01, 40) * (u.big ? 16 : 1) * u.period);
  } else {
    static const int kMaxIn[] = {10, 1, 2, 3, 5, 20};
    t.max_input_samples = PickInt(s, kMaxIn, 1, 60, u.big);
  }
  if (l.is_enabled) {
    static const double kLo[] = {0, 0.5, 0.1, 2};
    static const double kSpan[] = {1, 0, 0.2, 10};
    l.speed_lower_bound = PickReal(s, kLo, 0.01, 4) * u.speed();
    l.speed_upper_bound = l.speed_lower_bound + static_cast<float>(s.pick(kSpan) * u.speed());
    static const float kStr[] = {1, 0.5f, 0.25f, 0, 0.8f};
    float a = s.pick(kStr), b = s.pick(kStr);
    if (s.chance(1, 8)) a = s.unit();
    if (s.chance(1, 8)) b = s.unit();
    l.interpolation_strength_at_speed_lower_bound = a > b ? a : b;
    l.interpolation_strength_at_speed_upper_bound = a > b ? b : a;
    static const double kWin[] = {2.5, 0.5, 10, 1};
    l.min_speed_sampling_window = Duration(std::min(10000., PickReal(s, kWin, 0.1, 30) * (u.big ? 16 : 1) * u.period));
    static const int kDisc[] = {3, 1, 2, 10};
    l.min_discrete_speed_samples = PickInt(s, kDisc, 1, 40, u.big);
  }
  Pred pr = o.pred;
  if (pr == kPredAny) {
    static const Pred kP[] = {kPredStrokeEnd, kPredKalman, kPredDisabled};
    pr = kP[s.weighted({3, 3, 1})];
  } else if (pr == kPredEnabled) {
    static const Pred kP[] = {kPredStrokeEnd, kPredKalman};
    pr = s.pick(kP);
  }
  if (pr == kPredStrokeEnd) {
    p.prediction_params = StrokeEndPredictorParams{};
  } else if (pr == kPredKalman) {
    p.prediction_params = GenKalman(c, u);
  } else {
    p.prediction_params = DisabledPredictorParams{};
  }
  return p;
}

// ---------------------------------------------------------------- strokes

struct StrokeOpts {
  int max_moves = 24;
  int long_moves = 120;        // length of the occasional long stroke
  bool dyadic = false;         // positions and times exactly representable
  Tri up = kYes;
  bool zero_dt = true;         // simultaneous inputs
  bool pauses = true;
  double max_pause = 20;       // in periods
  bool tiny_dt = false;        // almost simultaneous inputs
  bool unknown = true;         // unknown stylus fields
  bool nan_stylus = false;
  bool offsets = true;         // positions far from the origin, odd start times
  bool all_known = false;      // pressure, tilt and orientation all present
};

// Positions along a shape. Deterministic in the choices; each input draws its
// own small number of choices, so that dropping inputs is possible.
struct StrokeGen {
  Case& c;
  Units u;
  StrokeOpts o;
  int shape, timing;
  double x, y, dirx = 1, diry = 0, t;
  int i = 0;
  int pm, tm, om;  // stylus modes
  int drop_p, drop_t, drop_o;
  double radius = 4;

  StrokeGen(Case& cc, const Units& uu, const StrokeOpts& oo, double start_time)
      : c(cc), u(uu), o(oo), t(start_time) {
    Src& s = c.src;
    shape = s.weighted({3, 3, 3, 2, 1, 2, 2});
    timing = s.weighted({4, 3, 2, 3});
    x = y = 0;
    if (o.offsets) {
      static const double kOff[] = {0, 10, -100, 300};
      x = kOff[s.weighted({4, 2, 1, 1})] * u.length;
      y = kOff[s.weighted({4, 2, 1, 1})] * u.length;
    }
    static const double kRad[] = {4, 1, 0.5, 16};
    radius = s.pick(kRad);
    static const double kDirs[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {2, -1}, {-1, 0.5}};
    const double* d = kDirs[s.below(7)];
    dirx = d[0];
    diry = d[1];
    // unknown, constant, ramp, random, extremes, beyond the nominal range
    static const int kMode[] = {0, 1, 2, 3, 4, 5};
    auto mode = [&](bool beyond) {
      int m = kMode[s.weighted({4, 2, 6, 6, 2, beyond ? 1 : 0})];
      return o.all_known && m == 0 ? 2 : m;
    };
    pm = mode(true);
    tm = mode(true);
    om = mode(false);
    auto drop = [&] {
      return o.unknown && !o.all_known && s.chance(1, 6) ? s.range(0, o.max_moves) : -1;
    };
    drop_p = drop();
    drop_t = drop();
    drop_o = drop();
  }

  float Field(int mode, int drop, double range, double ramp) {
    Src& s = c.src;
    if (mode == 0 || i == drop) {
      if (o.nan_stylus && s.chance(1, 3)) return std::numeric_limits<float>::quiet_NaN();
      return i == drop && s.chance(1, 3) ? -0.25f : -1.f;
    }
    double v;
    if (mode == 1) {
      v = 0.5 * range;
    } else if (mode == 2) {
      v = std::fmod(0.25 * range + ramp * i, range);
    } else if (mode == 4) {
      static const double kEnd[] = {0, 1, 1e-30, 0.5, 1e-3, 0.999, -0.};
      v = range * s.pick(kEnd);
    } else if (mode == 5) {
      v = range * s.below(1024) / 128;
    } else {
      v = range * s.below(1024) / 1024;
    }
    return static_cast<float>(v);
  }

  void Advance() {
    Src& s = c.src;
    double step = u.length;
    switch (shape) {
      case 0:  // line, with varying speed
        x += dirx * step * (1 + s.below(4)) / 2;
        y += diry * step * (1 + s.below(4)) / 2;
        break;
      case 1: {  // walk on a grid
        x += (static_cast<int>(s.below(9)) - 4) * step / 4;
        y += (static_cast<int>(s.below(9)) - 4) * step / 4;
        break;
      }
      case 2: {  // loops
        double a = (i + 1) * (0.2 + 0.1 * s.below(4));
        double nx = radius * u.length * std::cos(a), ny = radius * u.length * std::sin(a);
        if (o.dyadic) {
          nx = std::round(nx / u.length * 64) / 64 * u.length;
          ny = std::round(ny / u.length * 64) / 64 * u.length;
        }
        x += nx * 0.25 + dirx * 0.25 * u.length;
        y += ny * 0.25 + diry * 0.25 * u.length;
        break;
      }
      case 3: {  // zigzag with sharp corners
        int k = s.below(3);
        if (k == 1) {
          double tx = dirx;
          dirx = -diry;
          diry = tx;
        } else if (k == 2) {
          dirx = -dirx;
          diry = -diry;
        }
        x += dirx * step;
        y += diry * step;
        break;
      }
      case 4:  // stationary, sometimes a nudge
        if (s.chance(1, 4)) x += step / 8;
        break;
      case 5: {  // fast and slow, jumps
        static const double kMul[] = {1, 0, 0.0625, 16, -4};
        double m = s.pick(kMul);
        x += dirx * step * m;
        y += diry * step * m + (s.chance(1, 3) ? step * 0.5 : 0);
        break;
      }
      default:  // noisy line
        x += dirx * step + (static_cast<int>(s.below(65)) - 32) * step / 256;
        y += diry * step + (static_cast<int>(s.below(65)) - 32) * step / 256;
        break;
    }
    switch (timing) {
      case 0:
        t += u.period;
        break;
      case 1: {  // jitter
        t += u.period * (1 + s.below(16)) / 8;
        break;
      }
      case 2: {  // fast
        t += u.period * (1 + s.below(4)) / 16;
        break;
      }
      default: {
        int k = s.weighted({6, 2, 2, 2});
        if (k == 1 && o.zero_dt) {
          // simultaneous
        } else if (k == 2 && o.pauses) {
          t += u.period * (1 + s.below(static_cast<uint64_t>(o.max_pause)));
        } else if (k == 3 && o.tiny_dt) {
          static const double kTiny[] = {1e-3, 1e-6, 1e-9};
          t += u.period * s.pick(kTiny);
        } else {
          t += u.period;
        }
      }
    }
  }

  Input Next(Input::EventType e) {
    Input in;
    in.event_type = e;
    if (e != Input::EventType::kDown) {
      ++i;
      Advance();
    }
    in.position = {static_cast<float>(x), static_cast<float>(y)};
    in.time = Time(t);
    in.pressure = Field(pm, drop_p, 1, 0.06);
    in.tilt = Field(tm, drop_t, kTwoPi / 4, 0.1);
    in.orientation = Field(om, drop_o, kTwoPi * 0.9999, 0.7);
    return in;
  }
};

inline double GenStartTime(Case& c, const Units& u, const StrokeOpts& o) {
  if (!o.offsets) return 0;
  static const double kStart[] = {0, 64, -32, 4096, 65536};
  return kStart[c.src.weighted({5, 1, 1, 1, 1})] * u.time_scale;
}

// Field by field, not with the library's operator.
inline bool SameInput(const Input& a, const Input& b) {
  return a.event_type == b.event_type && a.position.x == b.position.x && a.position.y == b.position.y &&
         a.time.Value() == b.time.Value() && a.pressure == b.pressure && a.tilt == b.tilt &&
         a.orientation == b.orientation;
}

// A down, some moves, and possibly an up; no two consecutive equal inputs.
inline std::vector<Input> GenStroke(Case& c, const Units& u, StrokeOpts o = {},
                                    double start_time = NAN) {
  Src& s = c.src;
  if (std::isnan(start_time)) start_time = GenStartTime(c, u, o);
  StrokeGen g(c, u, o, start_time);
  std::vector<Input> v;
  v.push_back(g.Next(Input::EventType::kDown));
  // Continue with probability 31/32 or so: long strokes are worth having.
  int cap = o.max_moves;
  uint64_t stop = 24;
  switch (u.big ? 3 + s.weighted({2, 1}) : s.weighted({216, 144, 72, 11, 1})) {
    case 0: cap = o.max_moves; break;
    case 1: cap = o.max_moves / 4 + 1; break;
    case 2: cap = 2; break;
    case 3:
      cap = o.long_moves;
      stop = 400;
      break;
    default:
      cap = o.long_moves * 8;
      stop = 4000;
      break;
  }
  for (int k = 0; k < cap; ++k) {
    if (s.below(stop) == 0) break;  // 0 = stop: the simple alternative
    Input in = g.Next(Input::EventType::kMove);
    if (SameInput(in, v.back())) in.time = Time(in.time.Value() + u.period), g.t += u.period;
    v.push_back(in);
  }
  if (Tri2Bool(c, o.up, 3, 4)) {
    Input in = g.Next(Input::EventType::kUp);
    v.push_back(in);
  }
  return v;
}

// Rarely, a pause of hundreds to tens of thousands of results, still within the
// default limit.
inline void GenHugeGap(Case& c, const Units& u, const StrokeModelParams& p, std::vector<Input>& in) {
  Src& s = c.src;
  if (in.size() < 2 || !s.chance(1, 800)) return;
  double gap = s.logreal(300, 90000) / p.sampling_params.min_output_rate;
  gap = std::max(1., std::floor(gap / u.period)) * u.period;
  for (size_t i = s.range(1, in.size() - 1); i < in.size(); ++i) in[i].time = Time(in[i].time.Value() + gap);
  c.label("huge gap");
}

// ---------------------------------------------------------------- text

inline std::string Str(const Input& i) {
  char b[256];
  const char* e = i.event_type == Input::EventType::kDown   ? "down"
                  : i.event_type == Input::EventType::kMove ? "move"
                  : i.event_type == Input::EventType::kUp   ? "up"
                                                            : "?";
  snprintf(b, sizeof b, "%s (%.9g, %.9g) t=%.17g p=%.9g tilt=%.9g o=%.9g", e,
           i.position.x, i.position.y, i.time.Value(), i.pressure, i.tilt,
           i.orientation);
  return b;
}

inline std::string Str(const Result& r) {
  char b[320];
  snprintf(b, sizeof b,
           "pos (%.9g, %.9g) v (%.9g, %.9g) a (%.9g, %.9g) t=%.17g p=%.9g "
           "tilt=%.9g o=%.9g",
           r.position.x, r.position.y, r.velocity.x, r.velocity.y,
           r.acceleration.x, r.acceleration.y, r.time.Value(), r.pressure,
           r.tilt, r.orientation);
  return b;
}

inline std::string Str(const StrokeModelParams& p) {
  char b[2048];
  const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  int n = snprintf(
      b, sizeof b,
      "wobble{on=%d timeout=%g floor=%g ceil=%g} spring=%g drag=%g "
      "mitigation{on=%d lo=%g hi=%g slo=%g shi=%g win=%g n=%d} "
      "rate=%g stop=%g iter=%d maxout=%d angle=%g "
      "stylus{normal=%d max=%d min=%d dur=%g} ",
      p.wobble_smoother_params.is_enabled,
      p.wobble_smoother_params.timeout.Value(),
      p.wobble_smoother_params.speed_floor,
      p.wobble_smoother_params.speed_ceiling,
      p.position_modeler_params.spring_mass_constant,
      p.position_modeler_params.drag_constant, l.is_enabled,
      l.speed_lower_bound, l.speed_upper_bound,
      l.interpolation_strength_at_speed_lower_bound,
      l.interpolation_strength_at_speed_upper_bound,
      l.min_speed_sampling_window.Value(), l.min_discrete_speed_samples,
      p.sampling_params.min_output_rate,
      p.sampling_params.end_of_stroke_stopping_distance,
      p.sampling_params.end_of_stroke_max_iterations,
      p.sampling_params.max_outputs_per_call,
      p.sampling_params.max_estimated_angle_to_traverse_per_input,
      p.stylus_state_modeler_params.use_stroke_normal_projection,
      p.stylus_state_modeler_params.max_input_samples,
      p.stylus_state_modeler_params.min_input_samples,
      p.stylus_state_modeler_params.min_sample_duration.Value());
  if (auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params)) {
    const auto& q = k->confidence_params;
    snprintf(b + n, sizeof b - n,
             "kalman{pn=%g mn=%g stable=%d times=%d catchup=%g aw=%g jw=%g "
             "interval=%g des=%d dist=%g minv=%g maxv=%g dev=%g base=%g}",
             k->process_noise, k->measurement_noise, k->min_stable_iteration,
             k->max_time_samples, k->min_catchup_velocity,
             k->acceleration_weight, k->jerk_weight,
             k->prediction_interval.Value(), q.desired_number_of_samples,
             q.max_estimation_distance, q.min_travel_speed, q.max_travel_speed,
             q.max_linear_deviation, q.baseline_linearity_confidence);
  } else {
    snprintf(b + n, sizeof b - n, "%s",
             std::holds_alternative<StrokeEndPredictorParams>(p.prediction_params)
                 ? "stroke-end"
                 : "no prediction");
  }
  return b;
}

// ---------------------------------------------------------------- comparison

// Bit-identical, except that any two NaNs are the same.
inline bool SameBits(double a, double b) {
  return (std::isnan(a) && std::isnan(b)) ||
         (a == b && std::signbit(a) == std::signbit(b)) || (a == 0 && b == 0);
}
// Not the library's own operators, which may be what is broken.
inline bool Eq(Vec2 a, Vec2 b) { return a.x == b.x && a.y == b.y; }
inline bool Eq(Time a, Time b) { return a.Value() == b.Value(); }

inline bool Same(const Result& a, const Result& b) {
  return SameBits(a.position.x, b.position.x) &&
         SameBits(a.position.y, b.position.y) &&
         SameBits(a.velocity.x, b.velocity.x) &&
         SameBits(a.velocity.y, b.velocity.y) &&
         SameBits(a.acceleration.x, b.acceleration.x) &&
         SameBits(a.acceleration.y, b.acceleration.y) &&
         SameBits(a.time.Value(), b.time.Value()) &&
         SameBits(a.pressure, b.pressure) && SameBits(a.tilt, b.tilt) &&
         SameBits(a.orientation, b.orientation);
}
inline bool Same(const std::vector<Result>& a, const std::vector<Result>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (!Same(a[i], b[i])) return false;
  }
  return true;
}
inline void RequireSame(Case& c, const std::vector<Result>& a,
                        const std::vector<Result>& b, const char* what) {
  if (a.size() != b.size()) {
    c.fail("%s: %zu results instead of %zu", what, b.size(), a.size());
  }
  for (size_t i = 0; i < a.size(); ++i) {
    if (!Same(a[i], b[i])) {
      c.fail("%s: result %zu differs:\n  expected %s\n  actual   %s", what, i,
             Str(a[i]).c_str(), Str(b[i]).c_str());
    }
  }
}

inline bool IsKalman(const StrokeModelParams& p) {
  return std::holds_alternative<KalmanPredictorParams>(p.prediction_params);
}
inline bool IsPredDisabled(const StrokeModelParams& p) {
  return std::holds_alternative<DisabledPredictorParams>(p.prediction_params);
}

inline void NoteCase(Case& c, const StrokeModelParams& p,
                     const std::vector<Input>& in) {
  if (!c.verbose) return;
  c.note("params: %s", Str(p).c_str());
  for (auto& i : in) c.note("  %s", Str(i).c_str());
}

// On the heap and not zeroed, so that uninitialized members are noticed.
inline std::unique_ptr<StrokeModeler> NewModeler() {
  return std::unique_ptr<StrokeModeler>(new StrokeModeler);
}
#define FRESH_MODELER(m)             \
  auto m##_owner = gen::NewModeler(); \
  gen::StrokeModeler& m = *m##_owner

inline void MustReset(Case& c, StrokeModeler& m, const StrokeModelParams& p) {
  absl::Status s = m.Reset(p);
  if (!s.ok()) c.fail("Reset refused valid parameters: %s", std::string(s.message()).c_str());
}

}  // namespace gen

#endif
