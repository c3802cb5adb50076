// Parameters are accepted exactly when documented; ignored fields are ignored.
#include "../fields.h"

using namespace gen;  // NOLINT

namespace {

bool Positive(double v) { return std::isfinite(v) && v > 0; }
bool NonNegative(double v) { return std::isfinite(v) && v >= 0; }

bool WobbleOk(const WobbleSmootherParams& w) {
  if (!w.is_enabled) return true;
  return NonNegative(w.timeout.Value()) && NonNegative(w.speed_floor) && std::isfinite(w.speed_ceiling) && w.speed_floor <= w.speed_ceiling;
}

bool PositionOk(const PositionModelerParams& m) {
  if (!Positive(m.spring_mass_constant) || !Positive(m.drag_constant)) return false;
  const auto& l = m.loop_contraction_mitigation_params;
  if (!l.is_enabled) return true;
  double a = l.interpolation_strength_at_speed_lower_bound, b = l.interpolation_strength_at_speed_upper_bound;
  return NonNegative(l.speed_lower_bound) && NonNegative(l.speed_upper_bound) && l.speed_lower_bound <= l.speed_upper_bound && a <= 1 && b <= a && b >= 0 &&
         Positive(l.min_speed_sampling_window.Value()) && l.min_speed_sampling_window.Value() <= 10000 && l.min_discrete_speed_samples >= 1 &&
         l.min_discrete_speed_samples <= 10000;
}

bool SamplingOk(const SamplingParams& q) {
  double a = q.max_estimated_angle_to_traverse_per_input;
  return Positive(q.min_output_rate) && Positive(q.end_of_stroke_stopping_distance) && q.end_of_stroke_max_iterations > 0 && q.end_of_stroke_max_iterations <= 1000 &&
         q.max_outputs_per_call > 0 && (a == -1 || (a > 0 && a < M_PI));
}

bool StylusOk(const StylusStateModelerParams& t) {
  return t.use_stroke_normal_projection ? t.min_input_samples > 0 && Positive(t.min_sample_duration.Value()) : t.max_input_samples > 0;
}

bool PredictionOk(const PredictionParams& pp) {
  auto* k = std::get_if<KalmanPredictorParams>(&pp);
  if (k == nullptr) return true;
  const auto& c = k->confidence_params;
  return Positive(k->process_noise) && Positive(k->measurement_noise) && k->min_stable_iteration > 0 && k->max_time_samples > 0 && Positive(k->min_catchup_velocity) &&
         std::isfinite(k->acceleration_weight) && std::isfinite(k->jerk_weight) && Positive(k->prediction_interval.Value()) && c.desired_number_of_samples > 0 &&
         Positive(c.max_estimation_distance) && NonNegative(c.min_travel_speed) && std::isfinite(c.max_travel_speed) && c.min_travel_speed <= c.max_travel_speed &&
         Positive(c.max_linear_deviation) && c.baseline_linearity_confidence >= 0 && c.baseline_linearity_confidence <= 1;
}

bool Ok(const StrokeModelParams& p) {
  if (p.position_modeler_params.loop_contraction_mitigation_params.is_enabled && !p.stylus_state_modeler_params.use_stroke_normal_projection) return false;
  return WobbleOk(p.wobble_smoother_params) && PositionOk(p.position_modeler_params) && SamplingOk(p.sampling_params) && StylusOk(p.stylus_state_modeler_params) &&
         PredictionOk(p.prediction_params);
}

double Get(StrokeModelParams& p, int id) {
  double v = 0;
  WithField(p, id, [&](auto& r) {
    if constexpr (std::is_same_v<std::decay_t<decltype(r)>, Duration>) {
      v = r.Value();
    } else {
      v = r;
    }
  });
  return v;
}

// Near the bounds of the field, or next to its partner's value.
template <typename T>
T Boundary(Case& c, StrokeModelParams& p, int id) {
  Src& s = c.src;
  static const int kPartner[][2] = {{kWFloor, kWCeil}, {kLLo, kLHi}, {kLSLo, kLSHi}, {kKMinV, kKMaxV}};
  static const double kB[] = {0, 1, -1, 1000, 10000, M_PI, 10001, 1001, M_PI / 2};
  double b = kB[s.weighted({6, 3, 2, 2, 2, 2, 1, 1, 1})];
  if (s.chance(1, 3)) {
    for (auto& q : kPartner) {
      if (q[0] == id) b = Get(p, q[1]);
      if (q[1] == id) b = Get(p, q[0]);
    }
  }
  if constexpr (std::is_same_v<T, int>) {
    if (!(b > -2e9 && b < 2e9)) b = 0;
    return static_cast<int>(b) + static_cast<int>(s.below(3)) - 1;
  } else {
    T v = static_cast<T>(b);
    switch (s.below(3)) {
      case 0: return v;
      case 1: return std::nextafter(v, std::numeric_limits<T>::infinity());
      default: return std::nextafter(v, -std::numeric_limits<T>::infinity());
    }
  }
}

void Touch(Case& c, StrokeModelParams& p, int id) {
  bool odd = c.src.chance(1, 2);
  WithField(p, id, [&](auto& r) {
    using T = std::decay_t<decltype(r)>;
    if (odd) {
      MakeOdd(c.src, r);
    } else if constexpr (std::is_same_v<T, Duration>) {
      r = Duration(Boundary<double>(c, p, id));
    } else {
      r = Boundary<T>(c, p, id);
    }
  });
}

void RequireStatus(Case& c, const absl::Status& st, bool ok, const char* what) {
  if (ok) {
    CHECK_THAT(c, st.ok(), "%s refuses valid parameters: %s", what, std::string(st.message()).c_str());
  } else {
    CHECK_THAT(c, st.code() == absl::StatusCode::kInvalidArgument, "%s returns status code %d for invalid parameters", what, static_cast<int>(st.code()));
  }
}

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  po.unstable_ok = true;
  StrokeModelParams p = GenParams(c, u, po);
  if (s.chance(1, 4)) {
    // Default-constructed parts: mostly invalid as they are.
    switch (s.below(4)) {
      case 0: p.sampling_params = SamplingParams{}; break;
      case 1: p.wobble_smoother_params = WobbleSmootherParams{}; break;
      case 2: p.prediction_params = KalmanPredictorParams{}; break;
      default: p.stylus_state_modeler_params = StylusStateModelerParams{}; break;
    }
    c.label("default-constructed part");
  }
  if (s.chance(1, 10)) p.stylus_state_modeler_params.use_stroke_normal_projection ^= true;
  if (s.chance(1, 10)) p.position_modeler_params.loop_contraction_mitigation_params.is_enabled ^= true;
  if (s.chance(1, 10)) p.wobble_smoother_params.is_enabled ^= true;
  int n = s.weighted({2, 6, 3, 2});
  int touched[3];
  for (int i = 0; i < n; ++i) {
    touched[i] = s.below(kNumFields);
    Touch(c, p, touched[i]);
  }
  c.note("params: %s", Str(p).c_str());
  const bool ok = Ok(p);
  RequireStatus(c, ValidateStrokeModelParams(p), ok, "ValidateStrokeModelParams");
  RequireStatus(c, ValidateWobbleSmootherParams(p.wobble_smoother_params), WobbleOk(p.wobble_smoother_params), "ValidateWobbleSmootherParams");
  RequireStatus(c, ValidatePositionModelerParams(p.position_modeler_params), PositionOk(p.position_modeler_params), "ValidatePositionModelerParams");
  RequireStatus(c, ValidateSamplingParams(p.sampling_params), SamplingOk(p.sampling_params), "ValidateSamplingParams");
  RequireStatus(c, ValidateStylusStateModelerParams(p.stylus_state_modeler_params), StylusOk(p.stylus_state_modeler_params), "ValidateStylusStateModelerParams");
  RequireStatus(c, ValidatePredictionParams(p.prediction_params), PredictionOk(p.prediction_params), "ValidatePredictionParams");
  FRESH_MODELER(m);
  RequireStatus(c, m.Reset(p), ok, "Reset");
  {
    // Whether it may be used follows from whether it was accepted.
    std::vector<Result> out;
    Input down{.event_type = Input::EventType::kDown, .position = {1, 2}, .time = Time(3)};
    absl::Status st = m.Update(down, out);
    CHECK_THAT(c, st.ok() == ok, "Reset was %s, the down event %s", ok ? "accepted" : "refused", st.ok() ? "accepted" : "refused");
    CHECK_THAT(c, m.Reset().ok() == ok, "Reset() after Reset(params)");
  }
  c.label(ok ? "valid" : "invalid");
  if (n > 0) c.nontrivial();
  // Fields which are ignored.
  if (!ok || !s.chance(1, 2)) return;
  StrokeModelParams q = p;
  std::vector<int> ignored;
  if (!p.wobble_smoother_params.is_enabled) ignored.insert(ignored.end(), {kWTimeout, kWFloor, kWCeil});
  if (!p.position_modeler_params.loop_contraction_mitigation_params.is_enabled) ignored.insert(ignored.end(), {kLLo, kLHi, kLSLo, kLSHi, kLWin, kLNum});
  if (p.stylus_state_modeler_params.use_stroke_normal_projection) {
    ignored.insert(ignored.end(), {kSMax});
  } else {
    ignored.insert(ignored.end(), {kSMin, kSDur});
  }
  if (ignored.empty()) return;
  int changed = s.range(1, 6);
  for (int i = 0; i < changed; ++i) Touch(c, q, s.pick(ignored));
  c.note("ignored fields changed: %s", Str(q).c_str());
  FRESH_MODELER(a);
  FRESH_MODELER(b);
  MustReset(c, a, p);
  absl::Status st = b.Reset(q);
  CHECK_THAT(c, st.ok(), "refused because of an ignored field: %s", std::string(st.message()).c_str());
  StrokeOpts so;
  so.max_moves = 8;
  so.long_moves = 30;
  std::vector<Input> in = GenStroke(c, u, so);
  // A limit on the work, for parameters at their extremes.
  double gap = 0;
  for (size_t i = 1; i < in.size(); ++i) gap = std::max(gap, in[i].time.Value() - in[i - 1].time.Value());
  double angle = p.sampling_params.max_estimated_angle_to_traverse_per_input;
  if (gap * p.sampling_params.min_output_rate > 1e3 || (angle > 0 && angle < 0.003)) return;
  bool predict = !IsKalman(p) || p.sampling_params.max_outputs_per_call <= 2000;
  if (!predict) {
    auto& k = std::get<KalmanPredictorParams>(p.prediction_params);
    predict = k.prediction_interval.Value() * p.sampling_params.min_output_rate < 1e3 &&
              k.min_catchup_velocity > 1e-4 * u.speed() && p.sampling_params.min_output_rate * u.period < 100;
  }
  NoteCase(c, q, in);
  for (auto& x : in) {
    std::vector<Result> ra, rb;
    absl::Status sa = a.Update(x, ra), sb = b.Update(x, rb);
    CHECK_THAT(c, sa.code() == sb.code(), "status depends on an ignored field");
    RequireSame(c, ra, rb, "results depend on an ignored field");
    if (predict && s.chance(1, 3)) {
      sa = a.Predict(ra);
      sb = b.Predict(rb);
      CHECK_THAT(c, sa.code() == sb.code(), "status of the prediction depends on an ignored field");
      RequireSame(c, ra, rb, "prediction depends on an ignored field");
    }
  }
  c.label("stroke with ignored fields changed");
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C18",
    "Generated valid parameters, with up to three fields replaced by boundary values (the "
    "bounds, their float neighbours, the partner of an ordered pair), zeros, extremes, "
    "infinities, NaN or arbitrary bit patterns, and flags flipped; acceptance by every "
    "validation function and by Reset compared with an independent table of the documented "
    "ranges; then a stroke with and without changed ignored fields. Non-trivial: at least one "
    "field replaced.",
    "The upper limits 1000 (iterations) and 10000 (mitigation samples and window), which "
    "params.h does not mention, are taken from the validation's own messages",
    6000000, 60000000, Run};
