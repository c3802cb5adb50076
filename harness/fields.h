// All numeric parameter fields by index, and unusual values for them.
#ifndef INK_VERIF_FIELDS_H_
#define INK_VERIF_FIELDS_H_

#include <cfloat>
#include <climits>
#include <cstring>

#include "gen.h"

namespace gen {

enum FieldId {
  kWTimeout, kWFloor, kWCeil,
  kSpring, kDrag,
  kLLo, kLHi, kLSLo, kLSHi, kLWin, kLNum,
  kRate, kStop, kIter, kMaxOut, kAngle,
  kSMax, kSMin, kSDur,
  kKProc, kKMeas, kKStable, kKTimes, kKCatch, kKAcc, kKJerk, kKInterval,
  kKDes, kKDist, kKMinV, kKMaxV, kKDev, kKBase,
  kNumFields
};

// Calls f(reference) for the field; the Kalman fields only exist if that
// predictor is selected.
template <typename F>
bool WithField(StrokeModelParams& p, int id, F&& f) {
  auto& w = p.wobble_smoother_params;
  auto& m = p.position_modeler_params;
  auto& l = m.loop_contraction_mitigation_params;
  auto& q = p.sampling_params;
  auto& t = p.stylus_state_modeler_params;
  switch (id) {
    case kWTimeout: f(w.timeout); return true;
    case kWFloor: f(w.speed_floor); return true;
    case kWCeil: f(w.speed_ceiling); return true;
    case kSpring: f(m.spring_mass_constant); return true;
    case kDrag: f(m.drag_constant); return true;
    case kLLo: f(l.speed_lower_bound); return true;
    case kLHi: f(l.speed_upper_bound); return true;
    case kLSLo: f(l.interpolation_strength_at_speed_lower_bound); return true;
    case kLSHi: f(l.interpolation_strength_at_speed_upper_bound); return true;
    case kLWin: f(l.min_speed_sampling_window); return true;
    case kLNum: f(l.min_discrete_speed_samples); return true;
    case kRate: f(q.min_output_rate); return true;
    case kStop: f(q.end_of_stroke_stopping_distance); return true;
    case kIter: f(q.end_of_stroke_max_iterations); return true;
    case kMaxOut: f(q.max_outputs_per_call); return true;
    case kAngle: f(q.max_estimated_angle_to_traverse_per_input); return true;
    case kSMax: f(t.max_input_samples); return true;
    case kSMin: f(t.min_input_samples); return true;
    case kSDur: f(t.min_sample_duration); return true;
    default: break;
  }
  auto* k = std::get_if<KalmanPredictorParams>(&p.prediction_params);
  if (k == nullptr) return false;
  auto& c = k->confidence_params;
  switch (id) {
    case kKProc: f(k->process_noise); return true;
    case kKMeas: f(k->measurement_noise); return true;
    case kKStable: f(k->min_stable_iteration); return true;
    case kKTimes: f(k->max_time_samples); return true;
    case kKCatch: f(k->min_catchup_velocity); return true;
    case kKAcc: f(k->acceleration_weight); return true;
    case kKJerk: f(k->jerk_weight); return true;
    case kKInterval: f(k->prediction_interval); return true;
    case kKDes: f(c.desired_number_of_samples); return true;
    case kKDist: f(c.max_estimation_distance); return true;
    case kKMinV: f(c.min_travel_speed); return true;
    case kKMaxV: f(c.max_travel_speed); return true;
    case kKDev: f(c.max_linear_deviation); return true;
    case kKBase: f(c.baseline_linearity_confidence); return true;
    default: return false;
  }
}

inline float OddFloat(Src& s) {
  static const float kV[] = {0,
                             -0.f,
                             FLT_TRUE_MIN,
                             -FLT_TRUE_MIN,
                             FLT_MIN,
                             FLT_MAX,
                             -FLT_MAX,
                             std::numeric_limits<float>::infinity(),
                             -std::numeric_limits<float>::infinity(),
                             std::numeric_limits<float>::quiet_NaN(),
                             1,
                             -1,
                             0.5f,
                             2,
                             1e-30f,
                             1e30f,
                             1e10f,
                             1e19f,
                             -1e19f,
                             1e-10f,
                             16777217.f};
  int k = s.weighted({6, 1, 2});
  if (k == 0) return s.pick(kV);
  if (k == 1) {
    uint32_t b = static_cast<uint32_t>(s.bits());
    float f;
    memcpy(&f, &b, sizeof f);
    return f;
  }
  float f = static_cast<float>(s.logreal(1e-38, 1e38));
  return s.chance(1, 3) ? -f : f;
}

inline double OddDouble(Src& s) {
  static const double kV[] = {DBL_TRUE_MIN, -DBL_TRUE_MIN, DBL_MIN, DBL_MAX, -DBL_MAX, 1e300, -1e300, 1e-300, 1e39, -1e39, 4294967296., 2147483647., 2147483648., 1e19, 9007199254740993.};
  int k = s.weighted({5, 3, 1, 2});
  if (k == 0) return OddFloat(s);
  if (k == 1) return s.pick(kV);
  if (k == 2) {
    uint64_t b = s.bits();
    double f;
    memcpy(&f, &b, sizeof f);
    return f;
  }
  double f = s.logreal(1e-300, 1e300);
  return s.chance(1, 3) ? -f : f;
}

inline int OddInt(Src& s) {
  static const int kV[] = {0, 1, 2, -1, INT_MAX, INT_MIN, 1000, 1001, 999, 10000, 10001, 100000, 3, INT_MAX - 1};
  return s.chance(1, 8) ? static_cast<int>(s.bits()) : s.pick(kV);
}

inline void MakeOdd(Src& s, float& f) { f = OddFloat(s); }
inline void MakeOdd(Src& s, double& f) { f = OddDouble(s); }
inline void MakeOdd(Src& s, Duration& f) { f = Duration(OddDouble(s)); }
inline void MakeOdd(Src& s, int& f) { f = OddInt(s); }

}  // namespace gen

#endif
