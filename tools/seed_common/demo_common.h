// Shared by the demonstrations: small helpers over the public interface.
#include <cmath>
#include <cstdio>
#include <limits>
#include <vector>

#include "ink_stroke_modeler/params.h"
#include "ink_stroke_modeler/stroke_modeler.h"
#include "ink_stroke_modeler/types.h"
using namespace ink::stroke_model;  // NOLINT

static int g_failed = 0;
#define EXPECT(c)                                        \
  do {                                                   \
    if (!(c)) {                                          \
      std::printf("FAILED line %d: %s\n", __LINE__, #c); \
      g_failed = 1;                                      \
    }                                                    \
  } while (0)

using Type = Input::EventType;
using Results = std::vector<Result>;

inline StrokeModelParams Base() {
  StrokeModelParams p;
  p.wobble_smoother_params.is_enabled = false;
  p.sampling_params = {.min_output_rate = 180, .end_of_stroke_stopping_distance = .001, .end_of_stroke_max_iterations = 20};
  p.stylus_state_modeler_params.max_input_samples = 10;
  p.prediction_params = StrokeEndPredictorParams{};
  return p;
}
inline StrokeModelParams Normal(int samples = 10, double duration = .05) {
  StrokeModelParams p = Base();
  p.stylus_state_modeler_params.use_stroke_normal_projection = true;
  p.stylus_state_modeler_params.min_input_samples = samples;
  p.stylus_state_modeler_params.min_sample_duration = Duration(duration);
  return p;
}
inline StrokeModelParams Mitigated(float lo, float hi, float s_lo, float s_hi) {
  StrokeModelParams p = Normal();
  p.position_modeler_params.loop_contraction_mitigation_params = {
      .is_enabled = true, .speed_lower_bound = lo, .speed_upper_bound = hi,
      .interpolation_strength_at_speed_lower_bound = s_lo, .interpolation_strength_at_speed_upper_bound = s_hi,
      .min_speed_sampling_window = Duration(.04), .min_discrete_speed_samples = 3};
  return p;
}
inline StrokeModelParams Kalman() {
  StrokeModelParams p = Base();
  KalmanPredictorParams k;
  k.process_noise = .01;
  k.measurement_noise = .1;
  k.min_stable_iteration = 4;
  k.max_time_samples = 20;
  k.min_catchup_velocity = .02;
  k.prediction_interval = Duration(.02);
  k.confidence_params = {.desired_number_of_samples = 20, .max_estimation_distance = 1.5, .min_travel_speed = 6,
                         .max_travel_speed = 25, .max_linear_deviation = 10, .baseline_linearity_confidence = .4};
  p.prediction_params = k;
  return p;
}
inline Input In(Type type, float x, float y, double t, float pressure = -1, float tilt = -1, float orientation = -1) {
  return {.event_type = type, .position = {x, y}, .time = Time(t), .pressure = pressure, .tilt = tilt, .orientation = orientation};
}
inline Results Do(StrokeModeler& m, const Input& in) {
  Results r;
  EXPECT(m.Update(in, r).ok());
  return r;
}
inline Results Predict(StrokeModeler& m) {
  Results r;
  EXPECT(m.Predict(r).ok());
  return r;
}
inline bool Near(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
inline bool Near(Vec2 a, Vec2 b, double tol) { return Near(a.x, b.x, tol) && Near(a.y, b.y, tol); }
inline bool Near(const Results& a, const Results& b, double tol) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) {
    if (!Near(a[i].position, b[i].position, tol) || !Near(a[i].time.Value(), b[i].time.Value(), tol) || !Near(a[i].pressure, b[i].pressure, tol)) return false;
  }
  return true;
}
// The point the spring pulled toward in a step, from the model's equation.
inline Vec2 Anchor(const PositionModelerParams& p, const Result& before, const Result& after) {
  return before.position + p.spring_mass_constant * (after.acceleration + p.drag_constant * before.velocity);
}
