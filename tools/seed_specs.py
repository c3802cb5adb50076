SPECS = []
def seed(id, property, needs, breaks, edits, demo, top=""):
    SPECS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, top=top))

SM = "stroke_modeler.cc"
PM = "internal/position_modeler.cc"
PMH = "internal/position_modeler.h"
WS = "internal/wobble_smoother.cc"
SS = "internal/stylus_state_modeler.cc"
LC = "internal/loop_contraction_mitigation_modeler.cc"
KP = "internal/prediction/kalman_predictor.cc"
KF = "internal/prediction/kalman_filter/kalman_filter.cc"
UT = "internal/utils.cc"
UTH = "internal/utils.h"

seed("s01-backwards-jitter", "C01", "an input earlier than the previous one by less than a microsecond",
 "an input which travels backwards in time is accepted",
 [(SM, "    if (input.time < last_input_->input.time) {", "    if (last_input_->input.time - input.time > Duration(1e-6)) {")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Base()).ok());
  Do(m, In(Type::kDown, 0, 0, 1));
  Do(m, In(Type::kMove, 1, 0, 1.25));
  Results r;
  EXPECT(m.Update(In(Type::kMove, 2, 0, 1.25 - 1e-7), r).code() == absl::StatusCode::kInvalidArgument);
  EXPECT(m.Update(In(Type::kUp, 2, 0, 1.25 - 1e-12), r).code() == absl::StatusCode::kInvalidArgument);
""")

seed("s02-up-rejected-late", "C02", "an up that is rejected as too far apart, followed by the rest of the stroke",
 "the rejected up has already entered the window of stylus values",
 [(SM, """  stylus_state_modeler_.Update(input.position, input.time,
                               {.pressure = input.pressure,
                                .tilt = input.tilt,
                                .orientation = input.orientation});

  ModelStylus(tip_state_buffer_, stylus_state_modeler_,
              loop_contraction_mitigation_modeler_, results,
              last_input_->input.time);
  // This indicates""", """  ModelStylus(tip_state_buffer_, stylus_state_modeler_,
              loop_contraction_mitigation_modeler_, results,
              last_input_->input.time);
  // This indicates"""),
  (SM, """        "Received up event while no stroke is in-progress");
  }
""", """        "Received up event while no stroke is in-progress");
  }

  stylus_state_modeler_.Update(input.position, input.time,
                               {.pressure = input.pressure,
                                .tilt = input.tilt,
                                .orientation = input.orientation});
""")],
 r"""
  StrokeModelParams p = Base();
  p.sampling_params.max_outputs_per_call = 50;
  StrokeModeler a, b;
  EXPECT(a.Reset(p).ok() && b.Reset(p).ok());
  for (StrokeModeler* m : {&a, &b}) {
    Do(*m, In(Type::kDown, 0, 0, 0, .5, .5, .5));
    for (int i = 1; i < 6; ++i) Do(*m, In(Type::kMove, i, 0, i * .01, .5, .5, .5));
  }
  Results r;
  EXPECT(!a.Update(In(Type::kUp, 5, 0, 1000, -1, .5, .5), r).ok());
  EXPECT(r.empty());
  Results ra = Do(a, In(Type::kUp, 6, 0, .06, .5, .5, .5)), rb = Do(b, In(Type::kUp, 6, 0, .06, .5, .5, .5));
  EXPECT(Near(ra, rb, 0));
""")

seed("s03-reciprocal-steps", "C03", "an interval that is divided into a number of steps whose float reciprocal is rounded down (41, 47, 55, ...)",
 "the last result of such a move is earlier than the move",
 [(PMH, """    for (int i = 1; i <= n_samples; ++i) {
      float interp_value = static_cast<float>(i) / n_samples;""", """    const float step = 1.f / n_samples;
    for (int i = 1; i <= n_samples; ++i) {
      float interp_value = i * step;""")],
 r"""
  for (int n = 1; n < 200; ++n) {
    StrokeModeler m;
    StrokeModelParams p = Base();
    p.sampling_params.min_output_rate = 64;
    EXPECT(m.Reset(p).ok());
    Do(m, In(Type::kDown, 0, 0, 0));
    Results r = Do(m, In(Type::kMove, n, 0, n / 64.));
    EXPECT(r.size() == static_cast<size_t>(n));
    EXPECT(r.back().time == Time(n / 64.));
  }
""")

seed("s04-step-guard", "C04", "an output rate below 50 per second, so that steps are longer than 20 ms",
 "long steps are integrated with a shorter time than passed",
 [(PM, "  state_.velocity += delta_time.Value() * state_.acceleration;\n  state_.position += delta_time.Value() * state_.velocity;",
       "  // Keep the integration stable for widely spaced samples.\n  const double step = std::min(delta_time.Value(), .02);\n  state_.velocity += step * state_.acceleration;\n  state_.position += step * state_.velocity;")],
 r"""
  StrokeModelParams p = Base();
  p.sampling_params.min_output_rate = 32;
  p.position_modeler_params = {.spring_mass_constant = .01, .drag_constant = 10};
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Result prev = Do(m, In(Type::kDown, 0, 0, 0))[0];
  for (int i = 1; i < 20; ++i) {
    for (const Result& r : Do(m, In(Type::kMove, i, i % 3, i / 32.))) {
      double dt = r.time.Value() - prev.time.Value();
      EXPECT(Near(r.velocity, prev.velocity + float(dt) * r.acceleration, 1e-3));
      EXPECT(Near(r.position, prev.position + float(dt) * r.velocity, 1e-3));
      prev = r;
    }
  }
""")

seed("s05-overshoot-time", "C05", "a catch-up with at least one overshoot followed by an accepted shorter step",
 "after a discarded step the time is not put back, so the next step is longer than the halved one",
 [(PMH, "        state_ = previous_state;", "        state_.position = previous_state.position;\n        state_.velocity = previous_state.velocity;\n        state_.acceleration = previous_state.acceleration;")],
 r"""
  StrokeModelParams p = Base();
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  Result prev;
  for (int i = 1; i < 8; ++i) prev = Do(m, In(Type::kMove, i, 0, i * .02)).back();
  Results r = Do(m, In(Type::kUp, 8, 0, .16));
  EXPECT(r.size() > 5);
  for (const Result& x : r) {
    double dt = x.time.Value() - prev.time.Value();
    EXPECT(dt < 1 / 180. + 1e-9);
    EXPECT(Near(x.position, prev.position + float(dt) * x.velocity, 1e-3));
    prev = x;
  }
""")

seed("s06-window-edge", "C06", "an input exactly one timeout older than the current one",
 "an input at the edge of the smoothing window is left out of the average",
 [(WS, "  while (state_.samples.front().time < time - params_.timeout) {", "  while (state_.samples.size() > 1 &&\n         state_.samples.front().time <= time - params_.timeout) {")],
 r"""
  StrokeModelParams p = Base();
  p.sampling_params.min_output_rate = 4;
  p.position_modeler_params = {.spring_mass_constant = 1, .drag_constant = 1};
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(.5), .speed_floor = 1000, .speed_ceiling = 2000};
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Results r = Do(m, In(Type::kDown, 0, 0, 0));
  float x[] = {0, 4, 0, 8, 4, 16, 4};
  for (int i = 1; i < 7; ++i) {
    Result prev = r.back();
    r = Do(m, In(Type::kMove, x[i], 0, i * .25));
    EXPECT(r.size() == 1);
    float want = i == 1 ? x[1] : i == 2 ? (x[1] + x[2]) / 2 : (x[i] + x[i - 1] + x[i - 2]) / 3;
    EXPECT(Near(Anchor(p.position_modeler_params, prev, r[0]).x, want, 1e-3));
  }
""")

seed("s07-angle-truncated", "C07", "a sharp turn that needs more results than max_outputs_per_call",
 "the input is accepted with fewer results than the angle requires, not rejected",
 [(PM, """                  sampling_params.max_estimated_angle_to_traverse_per_input),
        static_cast<double>(std::numeric_limits<int>::max()));""", """                  sampling_params.max_estimated_angle_to_traverse_per_input),
        static_cast<double>(sampling_params.max_outputs_per_call));""")],
 r"""
  StrokeModelParams p = Base();
  p.sampling_params.max_outputs_per_call = 20;
  p.sampling_params.max_estimated_angle_to_traverse_per_input = .02;
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  for (int i = 1; i < 20; ++i) Do(m, In(Type::kMove, i, 0, i * .005));
  Results r;
  EXPECT(m.Update(In(Type::kMove, -50, 3, .1), r).code() == absl::StatusCode::kInvalidArgument);
  EXPECT(r.empty());
""")

seed("s08-local-search", "C08", "a path that comes back near its own earlier part, within the window",
 "the search for the nearest point stops at the first segment that is farther than the best",
 [(SS, """                             .ratio_along_segment = segment_ratio};
      min_distance = distance;
    }
  }
  return best_projection;""", """                             .ratio_along_segment = segment_ratio};
      min_distance = distance;
    } else {
      // The distance is increasing, so we've passed the closest point.
      break;
    }
  }
  return best_projection;""")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Base()).ok());
  Do(m, In(Type::kDown, 0, 0, 0, 0, .5, .5));
  Do(m, In(Type::kMove, 10, 0, .2, 0, .5, .5));
  Do(m, In(Type::kMove, 10, 1, .3, .9, .5, .5));
  Do(m, In(Type::kMove, 0, 1, .6, .9, .5, .5));
  Results r = Do(m, In(Type::kUp, 0, 1.01, .9, .9, .5, .5));
  EXPECT(Near(r.back().position, {0, 1}, .1));
  EXPECT(Near(r.back().pressure, .9, .01));
""")

seed("s09-pressure-recovers", "C09", "an unknown pressure followed by as many known ones as the window holds",
 "pressure comes back within the stroke after having been unknown",
 [(SS, """    state_.raw_input_and_stylus_states.pop_front();
  }
}""", """    state_.raw_input_and_stylus_states.pop_front();
  }
  if (state_.received_unknown_pressure) {
    // Once all the inputs in the window have a pressure, we can use it again.
    bool all_known = true;
    for (const Result &raw : state_.raw_input_and_stylus_states) {
      if (!(raw.pressure >= 0)) all_known = false;
    }
    state_.received_unknown_pressure = !all_known;
  }
}""")],
 r"""
  StrokeModelParams p = Base();
  p.stylus_state_modeler_params.max_input_samples = 5;
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Do(m, In(Type::kDown, 0, 0, 0, .5, .5, .5));
  for (int i = 1; i < 20; ++i) {
    for (const Result& r : Do(m, In(Type::kMove, i, 0, i * .01, i == 2 ? -1 : .5, .5, .5))) EXPECT(i < 2 || r.pressure == -1);
    for (const Result& r : Predict(m)) EXPECT(i < 2 || r.pressure == -1);
  }
""")

seed("s10-no-crossing-newest", "C10", "a short window and a tip that lags behind all of it, so that the normal crosses nothing",
 "the newest input's values are used although the oldest one of the window is nearer",
 [(SS, """        Distance(state_.raw_input_and_stylus_states.front().position,
                 tip.position) <
                Distance(state_.raw_input_and_stylus_states.back().position,
                         tip.position)
            ? state_.raw_input_and_stylus_states.front()
            : state_.raw_input_and_stylus_states.back();""", """        Distance(state_.raw_input_and_stylus_states.front().position,
                 tip.position) <
                Distance(state_.raw_input_and_stylus_states.front().position,
                         state_.raw_input_and_stylus_states.back().position)
            ? state_.raw_input_and_stylus_states.front()
            : state_.raw_input_and_stylus_states.back();""")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Normal(1, .001)).ok());
  Do(m, In(Type::kDown, 0, 0, 0, 0, .5, .5));
  for (int i = 1; i < 20; ++i) {
    Results r = Do(m, In(Type::kMove, i, 0, i * .005, i * .04f, .5, .5));
    EXPECT(r.size() == 1);
    if (i > 2) {
      EXPECT(r[0].position.x < i - 2);
      EXPECT(Near(r[0].pressure, (i - 1) * .04, 1e-5));
    }
  }
""")

seed("s11-unmitigated-speed", "C11", "loop mitigation with a strength below 1, and a tip whose speed differs from the result's",
 "the blend is controlled by the spring model's speed, not by that of the results",
 [(SM, "    interp_value = loop_contraction_mitigation_modeler.Update(\n        result.back().velocity, tip_state.time);", "    interp_value = loop_contraction_mitigation_modeler.Update(\n        tip_state.velocity, tip_state.time);")],
 r"""
  StrokeModelParams p = Mitigated(0, 400, 1, 0), off = Normal(), zero = Mitigated(0, 400, 0, 0);
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  l.min_discrete_speed_samples = 1;
  l.min_speed_sampling_window = Duration(1e-4);
  StrokeModeler a, b, c;
  EXPECT(a.Reset(p).ok() && b.Reset(off).ok() && c.Reset(zero).ok());
  float speed = 0;
  for (int i = 0; i < 40; ++i) {
    Input in = In(i ? Type::kMove : Type::kDown, 20 * std::cos(i * .3f), 20 * std::sin(i * .3f), i * .02);
    Results ra = Do(a, in), rb = Do(b, in), rc = Do(c, in);
    for (size_t j = 0; j < ra.size(); ++j) {
      // The window holds one result, or two.
      if (i > 2) {
        float w = 1 - std::fmin(speed / 400, 1.f);
        Vec2 want = rc[j].position + (rb[j].position - rc[j].position) * w;
        EXPECT(Near(ra[j].position, want, .02));
      }
      if (i) speed = ra[j].velocity.Magnitude();
    }
  }
""")

seed("s12-predict-saves", "C12", "Save, at least one more update, Predict, Restore, with loop mitigation enabled",
 "Predict overwrites the saved speed samples of the loop mitigation",
 [(SM, """  // Take a copy because ModelStylus() will modify the modeler passed in.
  LoopContractionMitigationModeler prediction_loop_modeler =
      loop_contraction_mitigation_modeler_;
  ModelStylus(tip_state_buffer_, stylus_state_modeler_, prediction_loop_modeler,
              results, last_input_->input.time);
""", """  // ModelStylus() will modify the modeler passed in, so roll that back.
  loop_contraction_mitigation_modeler_.Save();
  ModelStylus(tip_state_buffer_, stylus_state_modeler_,
              loop_contraction_mitigation_modeler_, results,
              last_input_->input.time);
  loop_contraction_mitigation_modeler_.Restore();
"""),
  ("stroke_modeler.h", "  LoopContractionMitigationModeler loop_contraction_mitigation_modeler_;", "  mutable LoopContractionMitigationModeler loop_contraction_mitigation_modeler_;")],
 r"""
  StrokeModeler a, b;
  EXPECT(a.Reset(Mitigated(0, 400, 1, 0)).ok() && b.Reset(Mitigated(0, 400, 1, 0)).ok());
  auto in = [](int i) { return In(i ? Type::kMove : Type::kDown, 20 * std::cos(i * .3f * i / 10), 20 * std::sin(i * .3f), i * .02); };
  for (int i = 0; i < 10; ++i) Do(a, in(i)), Do(b, in(i));
  a.Save(), b.Save();
  for (int i = 10; i < 15; ++i) Do(a, in(i)), Do(b, in(i));
  Predict(a);
  a.Restore(), b.Restore();
  for (int i = 10; i < 20; ++i) EXPECT(Near(Do(a, in(i)), Do(b, in(i)), 1e-4));
""")

seed("s13-predict-raw", "C13", "wobble smoothing on and a prediction while the smoothed position differs from the raw one",
 "the prediction heads for the raw position although the model follows the smoothed one",
 [(SM, "    predictor_->Update(corrected_position, input.time);", "    predictor_->Update(input.position, input.time);")],
 r"""
  StrokeModelParams p = Base();
  p.sampling_params.min_output_rate = 64;
  p.position_modeler_params = {.spring_mass_constant = .001, .drag_constant = 40};
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(.1), .speed_floor = 1000, .speed_ceiling = 2000};
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Results r = Do(m, In(Type::kDown, 0, 0, 0));
  for (int i = 1; i < 12; ++i) {
    Result prev = r.back();
    r = Do(m, In(Type::kMove, i, i % 2, i / 64.));
    Vec2 smoothed = Anchor(p.position_modeler_params, prev, r[0]);
    Results q = Predict(m);
    Vec2 target = Anchor(p.position_modeler_params, r[0], q[0]);
    EXPECT(Near(target, smoothed, .01));
  }
""")

seed("s14-confidence-window", "C14", "max_time_samples below desired_number_of_samples, with more inputs than the former",
 "confidence never reaches its full value, so predictions stay too short",
 [(KP, "      std::min(1.f, static_cast<float>(x_predictor_.NumIterations()) /", "      std::min(1.f, static_cast<float>(sample_times_.size()) /")],
 r"""
  StrokeModelParams p = Kalman();
  std::get<KalmanPredictorParams>(p.prediction_params).max_time_samples = 5;
  std::get<KalmanPredictorParams>(p.prediction_params).prediction_interval = Duration(.1);
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  for (int i = 1; i < 60; ++i) Do(m, In(Type::kMove, i * .5f, 0, i * .01));
  // 0.1 s at 180 per second, in full.
  EXPECT(Predict(m).size() >= 18);
""")

seed("s15-restore-once", "C15", "two restores of the same save, with the Kalman predictor",
 "the second restore leaves the predictor as it is",
 [(SM, "    predictor_ = saved_predictor_->MakeCopy();", "    predictor_ = std::move(saved_predictor_);"),
  (SM, "#include <optional>\n#include <variant>", "#include <optional>\n#include <utility>\n#include <variant>")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Kalman()).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  for (int i = 1; i < 10; ++i) Do(m, In(Type::kMove, i, 0, i * .01));
  m.Save();
  Results want = Predict(m);
  for (int k = 0; k < 3; ++k) {
    for (int i = 10; i < 15; ++i) Do(m, In(Type::kMove, i, 3 * i, i * .01));
    m.Restore();
    EXPECT(Near(Predict(m), want, 1e-4));
  }
""")

seed("s16-stale-times", "C16", "a second stroke on the same modeler with the Kalman predictor",
 "the input times of the previous stroke take part in the average interval",
 [(KP, "  sample_times_.clear();\n", "")],
 r"""
  StrokeModeler a, b;
  EXPECT(a.Reset(Kalman()).ok() && b.Reset(Kalman()).ok());
  Do(a, In(Type::kDown, 0, 0, 0));
  for (int i = 1; i < 10; ++i) Do(a, In(Type::kMove, i, i % 3, i * .005));
  Do(a, In(Type::kUp, 10, 0, .05));
  for (StrokeModeler* m : {&a, &b}) {
    Do(*m, In(Type::kDown, 0, 0, 2));
    for (int i = 1; i < 10; ++i) Do(*m, In(Type::kMove, i, 0, 2 + i * .01));
  }
  EXPECT(Near(Predict(a), Predict(b), 1e-4));
""")

seed("s17-step-overflow", "C17", "two inputs so far apart that the number of steps does not fit an int",
 "the conversion overflows (undefined behaviour; here a negative count, then an exception)",
 [(PM, """  int n_steps =
      std::min(std::ceil(float_delta * sampling_params.min_output_rate),
               static_cast<double>(std::numeric_limits<int>::max()));""", """  int n_steps =
      static_cast<int>(std::ceil(float_delta * sampling_params.min_output_rate));""")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Base()).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  Results r;
  EXPECT(m.Update(In(Type::kMove, 0, 0, 1e20), r).code() == absl::StatusCode::kInvalidArgument);
  EXPECT(m.Update(In(Type::kUp, 0, 0, 1e20), r).code() == absl::StatusCode::kInvalidArgument);
""")

seed("s18-mitigation-noop", "C18", "loop mitigation enabled without stroke normal projection, with an upper strength of 1",
 "a combination that the documentation forbids is accepted",
 [("params.cc", """          .is_enabled &&
      !params.stylus_state_modeler_params.use_stroke_normal_projection) {""", """          .is_enabled &&
      params.position_modeler_params.loop_contraction_mitigation_params
              .interpolation_strength_at_speed_upper_bound < 1 &&
      !params.stylus_state_modeler_params.use_stroke_normal_projection) {""")],
 r"""
  StrokeModelParams p = Mitigated(1, 2, 1, 1);
  EXPECT(ValidateStrokeModelParams(p).ok());
  p.stylus_state_modeler_params = {.max_input_samples = 10};
  EXPECT(!ValidateStrokeModelParams(p).ok());
  StrokeModeler m;
  EXPECT(!m.Reset(p).ok());
""")

seed("s19-slow-is-still", "C19", "stroke normal projection, a turn, and a unit of length in which speeds are numerically small",
 "the normal of a slow tip is taken from its acceleration, so results depend on the unit of length",
 [(UT, "  if (v_magnitude == 0) {\n    return orthogonal(tip_state.acceleration);", "  if (v_magnitude < 1e-3f) {\n    return orthogonal(tip_state.acceleration);")],
 r"""
  StrokeModelParams p = Normal();
  float scale = std::ldexp(1.f, -20);
  StrokeModelParams q = p;
  q.sampling_params.end_of_stroke_stopping_distance *= scale;
  StrokeModeler a, b;
  EXPECT(a.Reset(p).ok() && b.Reset(q).ok());
  for (int i = 0; i < 30; ++i) {
    float x = 10 * std::cos(i * .5f), y = 10 * std::sin(i * .5f);
    Results ra = Do(a, In(i ? Type::kMove : Type::kDown, x, y, i * .02, i * .03f, .5, .5));
    Results rb = Do(b, In(i ? Type::kMove : Type::kDown, x * scale, y * scale, i * .02, i * .03f, .5, .5));
    for (size_t j = 0; j < ra.size(); ++j) EXPECT(Near(ra[j].pressure, rb[j].pressure, 1e-3));
  }
""")

seed("s20-limit-before-angle", "C20", "upsampling by angle, and a turn that needs more results than max_outputs_per_call",
 "the limit is applied before the angle's demand, which may exceed it",
 [(PM, """  if (sampling_params.max_estimated_angle_to_traverse_per_input > 0) {""", """  if (n_steps > sampling_params.max_outputs_per_call) {
    return absl::InvalidArgumentError(absl::Substitute(
        "Input events are too far apart; requested $0 > $1 samples.", n_steps,
        sampling_params.max_outputs_per_call));
  }
  if (sampling_params.max_estimated_angle_to_traverse_per_input > 0) {"""),
  (PM, """      n_steps = steps_for_angle;
    }
  }
  if (n_steps > sampling_params.max_outputs_per_call) {
    return absl::InvalidArgumentError(absl::Substitute(
        "Input events are too far apart; requested $0 > $1 samples.", n_steps,
        sampling_params.max_outputs_per_call));
  }
""", """      n_steps = steps_for_angle;
    }
  }
""")],
 r"""
  StrokeModelParams p = Base();
  p.sampling_params.max_outputs_per_call = 20;
  p.sampling_params.max_estimated_angle_to_traverse_per_input = .02;
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  for (int i = 1; i < 20; ++i) Do(m, In(Type::kMove, i, 0, i * .005));
  Results r;
  (void)m.Update(In(Type::kMove, -50, 3, .1), r);
  EXPECT(r.size() <= 20);
""")

seed("s21-same-time", "C21", "two inputs with the same time stamp, loop mitigation enabled",
 "the raw path's velocity is infinite or NaN there, and so are results blended with it",
 [(SS, """  if (!state_.raw_input_and_stylus_states.empty() &&
      time != state_.raw_input_and_stylus_states.back().time) {""", """  if (!state_.raw_input_and_stylus_states.empty()) {""")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Mitigated(0, 100, .5, 0)).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  for (int i = 1; i < 20; ++i) {
    for (const Result& r : Do(m, In(Type::kMove, i, i % 3, (i == 5 ? 4 : i) * .01))) {
      EXPECT(r.position.IsFinite() && r.velocity.IsFinite() && r.acceleration.IsFinite());
    }
  }
""")

seed("s22-no-surprise", "C22", "an observation that is exactly what the filter predicted, such as a resting pen",
 "the covariance is not updated by such an observation, so the filter does not become more certain",
 [(KF, "  // S = H * P * H' + R\n", "  if (y == 0) return;\n  // S = H * P * H' + R\n")],
 r"""
  // The estimate depends continuously on the observations.
  AxisPredictor a(.01, .1, 4), b(.01, .1, 4);
  for (int i = 0; i < 6; ++i) {
    a.Update(5);
    b.Update(5 + (i % 2 ? 1e-7 : -1e-7));
  }
  for (int i = 0; i < 5; ++i) {
    a.Update(5 + i * i);
    b.Update(5 + i * i);
    EXPECT(Near(a.GetPosition(), b.GetPosition(), 1e-4));
    EXPECT(Near(a.GetVelocity(), b.GetVelocity(), 1e-4));
    EXPECT(Near(a.GetJerk(), b.GetJerk(), 1e-4));
  }
""", '#include "ink_stroke_modeler/internal/prediction/kalman_filter/axis_predictor.h"')

seed("s23-plain-sqrt", "C23", "vectors longer than about 1e19 or shorter than about 1e-19",
 "the length overflows or underflows, and the angle with it",
 [("types.h", "  float Magnitude() const { return std::hypot(x, y); }", "  float Magnitude() const { return std::sqrt(x * x + y * y); }")],
 r"""
  for (float s : {1.f, 1e20f, 1e30f, 1e-20f, 1e-25f}) {
    Vec2 v{s, s}, w{0, s};
    EXPECT(Near(v.Magnitude() / s, 1.41421356, 1e-5));
    EXPECT(v.AbsoluteAngleTo(w).ok() && Near(*v.AbsoluteAngleTo(w), .785398, 1e-4));
  }
""")

seed("s24-loop-restore-move", "C15", "two restores of the same save, with loop mitigation enabled",
 "the second restore starts from an empty speed history",
 [(LC, "  if (save_active_) speed_samples_ = saved_speed_samples_;", "  if (save_active_) speed_samples_.swap(saved_speed_samples_);")],
 r"""
  StrokeModeler a, b;
  EXPECT(a.Reset(Mitigated(0, 400, 1, 0)).ok() && b.Reset(Mitigated(0, 400, 1, 0)).ok());
  auto in = [](int i) { return In(i ? Type::kMove : Type::kDown, i * i * .1f, 20 * std::sin(i * .3f), i * .02); };
  for (int i = 0; i < 10; ++i) Do(a, in(i)), Do(b, in(i));
  a.Save();
  for (int k = 0; k < 2; ++k) {
    for (int i = 10; i < 20; ++i) Do(a, in(i));
    a.Restore();
  }
  for (int i = 10; i < 15; ++i) EXPECT(Near(Do(a, in(i)), Do(b, in(i)), 1e-4));
""")

seed("s25-tilt-not-compared", "C01", "an input that differs from the previous one in tilt only",
 "an input which is not identical to the previous one is rejected as a duplicate",
 [("types.h", "         lhs.tilt == rhs.tilt && lhs.orientation == rhs.orientation;\n}\ninline bool operator!=(const Input &lhs, const Input &rhs)", "         lhs.orientation == rhs.orientation;\n}\ninline bool operator!=(const Input &lhs, const Input &rhs)")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Base()).ok());
  Do(m, In(Type::kDown, 0, 0, 0, .5, .5, .5));
  Do(m, In(Type::kMove, 1, 0, .25, .5, .5, .5));
  Do(m, In(Type::kMove, 1, 0, .25, .5, .75, .5));
""")

seed("s26-orientation-wrap", "C08", "a pair of inputs whose orientations are on the two sides of zero, the newer one larger",
 "orientation is interpolated along the longer arc",
 [(UTH, "  } else if (delta > kPi) {\n    end -= 2 * kPi;", "  } else if (delta > 2 * kPi) {\n    end -= 2 * kPi;")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Base()).ok());
  Do(m, In(Type::kDown, 0, 0, 0, .5, .5, .1));
  for (const Result& r : Do(m, In(Type::kMove, 10, 0, .3, .5, .5, 6.2))) EXPECT(r.orientation <= .11 || r.orientation >= 6.19);
""")

seed("s27-loop-window-cap", "C11", "loop mitigation whose window holds more than 100 results",
 "speed samples still within the window are dropped",
 [(LC, """    speed_samples_.pop_front();
  }
""", """    speed_samples_.pop_front();
  }
  if (speed_samples_.size() > 100) speed_samples_.pop_front();
""")],
 r"""
  // At least 1000 results count, however long they take: after speeding up, the
  // average is still low.
  StrokeModelParams p = Mitigated(0, 400, 1, 0);
  p.position_modeler_params.loop_contraction_mitigation_params.min_discrete_speed_samples = 1000;
  StrokeModeler a, b, c;
  EXPECT(a.Reset(p).ok() && b.Reset(Normal()).ok() && c.Reset(Mitigated(0, 400, 0, 0)).ok());
  std::vector<float> speeds;
  for (int i = 0; i < 120; ++i) {
    Input in = In(i ? Type::kMove : Type::kDown, i < 60 ? 0 : 20 * std::cos(i * .3f), i < 60 ? 0.01 * i : 20 * std::sin(i * .3f), i * .01);
    Results ra = Do(a, in), rb = Do(b, in), rc = Do(c, in);
    if (i == 0) continue;
    for (size_t j = 0; j < ra.size(); ++j) {
      float sum = 0;
      for (float s : speeds) sum += s;
      if (!speeds.empty() && speeds.size() < 1000) {
        float w = 1 - std::fmin(sum / speeds.size() / 400, 1.f);
        EXPECT(Near(ra[j].position, rc[j].position + (rb[j].position - rc[j].position) * w, .01));
      }
      speeds.push_back(ra[j].velocity.Magnitude());
    }
  }
""")

seed("s28-unknown-fields-stop-tracking", "C24", "loop mitigation, and an input after which pressure, tilt and orientation have all been unknown once",
 "the window of positions is dropped, so that unknown stylus values change the motion of the results",
 [(SS, "  if (!params_.use_stroke_normal_projection &&\n      state_.received_unknown_pressure", "  if (state_.received_unknown_pressure")],
 r"""
  StrokeModelParams p = Mitigated(0, 1000, 1, .5);
  StrokeModeler a, b;
  EXPECT(a.Reset(p).ok() && b.Reset(p).ok());
  for (int i = 0; i < 30; ++i) {
    Input in = In(i ? Type::kMove : Type::kDown, 3 * std::cos(i * .4f), 3 * std::sin(i * .4f), i * .01, .5, .5, .5);
    Results ra = Do(a, in);
    if (i == 4) in.pressure = -1;
    if (i == 8) in.tilt = -1;
    if (i == 12) in.orientation = -1;
    Results rb = Do(b, in);
    EXPECT(ra.size() == rb.size());
    for (size_t j = 0; j < ra.size() && j < rb.size(); ++j) EXPECT(Near(ra[j].position, rb[j].position, 1e-4));
  }
""")

seed("s29-text-of-unknown-event", "C25", "the text form of an input with a tilt and an orientation",
 "tilt and orientation change places in the text form of an input",
 [("types.cc", "      input.event_type, input.position, input.time, input.pressure, input.tilt,\n      input.orientation);",
   "      input.event_type, input.position, input.time, input.pressure,\n      input.orientation, input.tilt);")],
 r"""
  std::string a = ToFormattedString(In(Type::kDown, 1, 2, 3, .5, .25, .75));
  EXPECT(a.find("tilt: 0.25") != std::string::npos);
  EXPECT(a.find("orientation:0.75") != std::string::npos || a.find("orientation: 0.75") != std::string::npos);
""", top="#include <string>")


seed("s30-window-cap", "C08", "max_input_samples above 128, and a result nearest to a part of the path more than 128 inputs old",
 "inputs still within the window are forgotten",
 [(SS, "    return raw_input_and_stylus_states.size() > params.max_input_samples;", "    return raw_input_and_stylus_states.size() >\n           std::min<decltype(params.max_input_samples)>(params.max_input_samples, 128);")],
 r"""
  StrokeModelParams p = Base();
  p.stylus_state_modeler_params.max_input_samples = 400;
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  // A diagonal with high pressure, and much later a corner around it that the tip cuts.
  Do(m, In(Type::kDown, 40, 5, 0, .9, .5, .5));
  Do(m, In(Type::kMove, 5, 40, .5, .9, .5, .5));
  for (int i = 1; i <= 100; ++i) Do(m, In(Type::kMove, 5 + i * .75f, 40 + i * .4f, .5 + i * .02, .1, .5, .5));
  for (int i = 1; i <= 100; ++i) Do(m, In(Type::kMove, 80 - i * .3f, 80 - i * .8f, 2.5 + i * .02, .1, .5, .5));
  for (int i = 1; i <= 10; ++i) Do(m, In(Type::kMove, 50 + i * .01f, 0, 4.5 + i * .02, .1, .5, .5));
  float highest = 0;
  for (Input in : {In(Type::kMove, 0, 0, 4.702, .1, .5, .5), In(Type::kMove, 0, 50, 4.704, .1, .5, .5), In(Type::kMove, 0, 51, 5, .1, .5, .5)}) {
    for (const Result& x : Do(m, in)) highest = std::fmax(highest, x.pressure);
  }
  EXPECT(highest > .8);
""")

seed("s31-projection-window-cap", "C10", "min_input_samples above 100, and a tip whose normal crosses only inputs more than 100 inputs old",
 "inputs still within the window are forgotten",
 [(SS, "    return raw_input_and_stylus_states.size() > params.min_input_samples &&", "    return raw_input_and_stylus_states.size() >\n               std::min<decltype(params.min_input_samples)>(\n                   params.min_input_samples, 100) &&")],
 r"""
  // 150 inputs of high frequency: the tip is still where the first of them were.
  StrokeModelParams p = Normal(1000, .001);
  p.position_modeler_params.drag_constant = 72;
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Results r;
  for (int i = 0; i <= 150; ++i) r = Do(m, In(i ? Type::kMove : Type::kDown, i, .01f * (i % 2), i * .0002, i / 200., .5, .5));
  // The tip moves along the line, so the pressure belongs to the inputs beside it.
  EXPECT(!r.empty() && Near(r.back().pressure, r.back().position.x / 200, .02));
""")

seed("s32-wobble-window-cap", "C06", "more than 200 inputs within the timeout of the wobble smoother",
 "inputs still within the window are dropped from the average",
 [(WS, "  while (state_.samples.front().time < time - params_.timeout) {", "  if (state_.samples.size() > 200) state_.samples.pop_front();\n  while (state_.samples.front().time < time - params_.timeout) {")],
 r"""
  StrokeModelParams p = Base();
  p.wobble_smoother_params = {.is_enabled = true, .timeout = Duration(10), .speed_floor = 1000, .speed_ceiling = 2000};
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  // 2 seconds at 0, then 1 second at 1: the average is 1/3.
  Do(m, In(Type::kDown, 0, 0, 0));
  Results before, r;
  for (int i = 1; i <= 300; ++i) {
    before = r;
    r = Do(m, In(Type::kMove, i <= 200 ? 0 : 1, 0, i * .01));
  }
  EXPECT(r.size() >= 2);
  Vec2 anchor = Anchor(p.position_modeler_params, r[r.size() - 2], r[r.size() - 1]);
  EXPECT(Near(anchor.x, 1 / 3., .02));
""")

seed("s33-dense-steps", "C03", "two consecutive inputs more than a thousand output periods apart",
 "one of the results between them is missing",
 [(PMH, "      *output++ = Update(position, time);", "      const TipState state = Update(position, time);\n      if (i % 1000 != 999 || i + 1 == n_samples) *output++ = state;")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Base()).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  Results r = Do(m, In(Type::kMove, 5, 0, 10));
  EXPECT(r.size() == 1800);
  for (size_t i = 1; i < r.size(); ++i) EXPECT((r[i].time - r[i - 1].time).Value() <= 1.001 / 180);
""")

seed("s34-sample-times-trim", "C14", "max_time_samples above 64, with more inputs than that",
 "the average input interval is taken over fewer inputs than configured",
 [(KP, "    sample_times_.pop_front();", "    sample_times_.pop_front();\n    if (sample_times_.size() > 64) sample_times_.pop_front();")],
 r"""
  StrokeModelParams p = Kalman(), q = p;
  std::get<KalmanPredictorParams>(p.prediction_params).max_time_samples = 100;
  std::get<KalmanPredictorParams>(q.prediction_params).max_time_samples = 1000;
  StrokeModeler a, b;
  EXPECT(a.Reset(p).ok() && b.Reset(q).ok());
  double t = 0;
  for (int i = 0; i <= 100; ++i) {
    Input in = In(i ? Type::kMove : Type::kDown, i * .1, .02 * i * i, t);
    // Uneven in time, so that the number of inputs averaged matters.
    t += i < 40 ? .03 : .005;
    Do(a, in);
    Do(b, in);
    // 100 inputs have been seen at most.
    if (i > 5 && i < 100) EXPECT(Near(Predict(a), Predict(b), 1e-4));
  }
  // With 101 inputs, the first of which no longer counts, the average over 99
  // intervals hardly differs from that over 100.
  Results ra = Predict(a), rb = Predict(b);
  EXPECT(!rb.empty() && !ra.empty());
  if (!ra.empty() && !rb.empty()) EXPECT(Near(ra.back().velocity, rb.back().velocity, .02 * rb.back().velocity.Magnitude()));
""")

seed("s35-before-the-epoch", "C01", "times far before zero, as from a clock with another epoch",
 "valid inputs with large negative times are rejected",
 [("types.cc", "  RETURN_IF_ERROR(ValidateIsFiniteNumber(input.time.Value(), \"Input.time\"));", "  RETURN_IF_ERROR(ValidateIsFiniteNumber(\n      input.time.Value() < 0 ? static_cast<float>(input.time.Value() * 1e32) : input.time.Value(), \"Input.time\"));")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Base()).ok());
  for (double t : {-1., -1e5, -1e8, -1e10}) {
    Do(m, In(Type::kDown, 0, 0, t));
    Do(m, In(Type::kMove, 1, 0, t + .125));
    Do(m, In(Type::kUp, 2, 0, t + .25));
  }
""")

seed("s36-up-near-the-tip", "C05", "an up event at the same time as the previous input, close to a tip that still moves",
 "no step toward the up position is tried",
 [(PMH, "    for (int i = 0; i < max_iterations; ++i) {", "    for (int i = 0;\n         i < max_iterations &&\n         Distance(state_.position, anchor_position) >= stop_distance;\n         ++i) {")],
 r"""
  StrokeModelParams p = Base();
  p.sampling_params.end_of_stroke_stopping_distance = .5;
  StrokeModeler m;
  EXPECT(m.Reset(p).ok());
  Do(m, In(Type::kDown, 0, 0, 0));
  Results r = Do(m, In(Type::kMove, .25, 0, .03));
  Result last = r.back();
  Results up = Do(m, In(Type::kUp, .375, 0, .03));
  // The step is too short to be kept, but its result is the only one there is.
  EXPECT(up.size() == 1 && up[0].time > last.time && up[0].position.x > last.position.x);
""")

seed("s37-speeds-kept", "C26", "loop mitigation with both speed bounds zero, and a long stroke",
 "speed samples are never dropped, so that memory grows with the length of the stroke",
 [(LC, "         speed_samples_.back().time - speed_samples_.front().time >\n", "         params_.speed_upper_bound > 0 &&\n         speed_samples_.back().time - speed_samples_.front().time >\n")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Mitigated(0, 0, 1, .5)).ok());
  size_t held = 0;
  for (int i = 0; i < 30000; ++i) {
    Do(m, In(i ? Type::kMove : Type::kDown, std::cos(i * .1f), std::sin(i * .1f), i * .01, .5, .5, .5));
    if (i == 1000) held = mallinfo2().uordblks;
  }
  EXPECT(mallinfo2().uordblks < held + 65536);
""", top="#include <malloc.h>")

seed("s38-count-the-samples", "C27", "predictions late in a very long stroke",
 "each prediction counts through all inputs of the stroke, so that it costs the more the longer the stroke is",
 [(KP, """  float sample_ratio =
      std::min(1.f, static_cast<float>(x_predictor_.NumIterations()) /
                        confidence_params.desired_number_of_samples);
""", """  float sample_ratio = 0;
  for (int i = 1; i <= x_predictor_.NumIterations(); ++i) {
    sample_ratio =
        std::min(1.f, static_cast<float>(i) /
                          confidence_params.desired_number_of_samples);
  }
""")],
 r"""
  StrokeModeler m;
  EXPECT(m.Reset(Kalman()).ok());
  double early = 0, late = 0;
  Results r;
  const int n = 400000;
  for (int i = 0; i < n; ++i) {
    Do(m, In(i ? Type::kMove : Type::kDown, std::cos(i * .1f), std::sin(i * .1f), i * .01, .5, .5, .5));
    if (i != 1000 && i != n - 1) continue;
    std::clock_t t = std::clock();
    for (int k = 0; k < 2000; ++k) EXPECT(m.Predict(r).ok());
    (i == 1000 ? early : late) = static_cast<double>(std::clock() - t) / CLOCKS_PER_SEC;
  }
  EXPECT(late < 10 * early + .1);
""", top="#include <ctime>")
