From 5840fa37710aaf6936d95251adf76ba629194525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 01/10] fix: do not modify the model when a move event is
 rejected

ProcessMoveEvent updated the wobble smoother and the stylus state modeler
before NumberOfStepsBetweenInputs could reject the input (e.g. because the
inputs are too far apart), so a rejected input still affected the stroke.
---
 ink_stroke_modeler/stroke_modeler.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index e7d6e23..1f3d432 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -285,6 +285,15 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
         "Received move event while no stroke is in-progress");
   }
 
+  // This may reject the input, so it must happen before any state is modified.
+  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
+      position_modeler_.CurrentState(), last_input_->input, input,
+      stroke_model_params_->sampling_params,
+      stroke_model_params_->position_modeler_params);
+  if (!n_steps.ok()) {
+    return n_steps.status();
+  }
+
   Vec2 corrected_position = wobble_smoother_.Update(input.position, input.time);
   stylus_state_modeler_.Update(corrected_position, input.time,
                                {
@@ -293,13 +302,6 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
                                    .orientation = input.orientation,
                                });
 
-  absl::StatusOr<int> n_steps = NumberOfStepsBetweenInputs(
-      position_modeler_.CurrentState(), last_input_->input, input,
-      stroke_model_params_->sampling_params,
-      stroke_model_params_->position_modeler_params);
-  if (!n_steps.ok()) {
-    return n_steps.status();
-  }
   tip_state_buffer_.clear();
   tip_state_buffer_.reserve(*n_steps);
   position_modeler_.UpdateAlongLinearPath(
-- 
2.43.0


From 8350c9773e4dc356c1a8ccb9f8ebfadb7bf40fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 02/10] fix: do not restore a predictor from an earlier
 configuration

Save() kept the previously saved predictor if prediction was disabled, so a
following Restore() re-enabled prediction with a stale predictor.
---
 ink_stroke_modeler/stroke_modeler.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 1f3d432..7dd10bf 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -325,9 +325,7 @@ void StrokeModeler::Save() {
   stylus_state_modeler_.Save();
   loop_contraction_mitigation_modeler_.Save();
   saved_last_input_ = last_input_;
-  if (predictor_ != nullptr) {
-    saved_predictor_ = predictor_->MakeCopy();
-  }
+  saved_predictor_ = predictor_ != nullptr ? predictor_->MakeCopy() : nullptr;
   save_active_ = true;
 }
 
-- 
2.43.0


From 623f4c83641b3f9a4a68dc2fba3ef8e4ba017a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 03/10] fix: discard the saved state when a new stroke starts

The sub-modelers drop their saved state on the down event, but the
StrokeModeler kept its own, so Restore() after Save(), up, down mixed the
last input and predictor of the old stroke with the rest of the new one.
---
 ink_stroke_modeler/stroke_modeler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 7dd10bf..6e9f535 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -192,6 +192,10 @@ absl::Status StrokeModeler::ProcessDownEvent(const Input &input,
         "Received down event while stroke is in-progress");
   }
 
+  // Any saved state belongs to the previous stroke; resetting the sub-modelers
+  // below discards their part of it.
+  save_active_ = false;
+
   // Note that many of the sub-modelers require some knowledge about the stroke
   // (e.g. start position, input type) when resetting, and as such are reset
   // here instead of in Reset().
-- 
2.43.0


From cf0605dd04e68ebdf19d145468e8ca3b3cfa4fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 04/10] fix: generate a result for a move event with no time
 delta

Update() promises at least one result if it does not return an error, but
appended none for a move with the same timestamp as the previous input. Do
the same as for the up event, and output the current state.
---
 ink_stroke_modeler/stroke_modeler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 6e9f535..6e227b4 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -313,6 +313,12 @@ absl::Status StrokeModeler::ProcessMoveEvent(const Input &input,
       corrected_position, input.time, *n_steps,
       std::back_inserter(tip_state_buffer_));
 
+  if (tip_state_buffer_.empty()) {
+    // If we haven't generated any new states, add the current state. This can
+    // happen if the move has the same timestamp as the previous input.
+    tip_state_buffer_.push_back(position_modeler_.CurrentState());
+  }
+
   if (predictor_ != nullptr) {
     predictor_->Update(corrected_position, input.time);
   }
-- 
2.43.0


From 8efa9f1ed70f3f39475a11909f7f6b7a077a44d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:08 +0000
Subject: [PATCH 05/10] fix: do not loop forever on orientations that are far
 out of range

InterpAngle normalized angles by repeatedly subtracting 2 * pi, which does
not terminate if the angle is infinite or so large that it has no effect.
---
 ink_stroke_modeler/internal/utils.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index c636e09..af2eb6f 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -18,6 +18,7 @@
 #define INK_STROKE_MODELER_INTERNAL_UTILS_H_
 
 #include <algorithm>
+#include <cmath>
 #include <optional>
 
 #include "ink_stroke_modeler/internal/internal_types.h"
@@ -66,6 +67,7 @@ inline float InverseLerp(float a, float b, float value) {
 // interval [0, 2π). All angles are measured in radians.
 inline float InterpAngle(float start, float end, float interp_amount) {
   auto normalize_angle = [](float angle) {
+    if (angle < 0 || angle > 2 * kPi) angle = std::fmod(angle, 2 * kPi);
     while (angle < 0) angle += 2 * kPi;
     while (angle > 2 * kPi) angle -= 2 * kPi;
     return angle;
-- 
2.43.0


From 97c93baef46186397e8f48d9f4ee0618f94fa201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 06/10] fix: respect max_outputs_per_call in predictions and at
 the end of a stroke

The limit is documented as the maximum number of outputs per call to Update or
Predict, but it was only applied to upsampling; a slow catch-up velocity made
the Kalman connector unbounded (and overflow the conversion to int).
---
 .../internal/prediction/kalman_predictor.cc   | 28 ++++++++++++-------
 .../internal/prediction/kalman_predictor.h    |  2 +-
 .../prediction/stroke_end_predictor.cc        |  8 ++++--
 ink_stroke_modeler/stroke_modeler.cc          | 13 ++++++---
 4 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 6bad195..79e79dd 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -117,12 +117,16 @@ void KalmanPredictor::ConstructPrediction(
 
   Duration sample_dt{1. / sampling_params_.min_output_rate};
   ConstructCubicConnector(last_state, *estimated_state, predictor_params_,
-                          sample_dt, &prediction);
+                          sample_dt, sampling_params_.max_outputs_per_call,
+                          &prediction);
   auto start_time =
       prediction.empty() ? last_state.time : prediction.back().time;
-  ConstructCubicPrediction(*estimated_state, predictor_params_, start_time,
-                           sample_dt, NumberOfPointsToPredict(*estimated_state),
-                           &prediction);
+  ConstructCubicPrediction(
+      *estimated_state, predictor_params_, start_time, sample_dt,
+      std::min(NumberOfPointsToPredict(*estimated_state),
+               sampling_params_.max_outputs_per_call -
+                   static_cast<int>(prediction.size())),
+      &prediction);
 }
 
 void KalmanPredictor::ConstructCubicPrediction(
@@ -146,7 +150,7 @@ void KalmanPredictor::ConstructCubicPrediction(
 
 void KalmanPredictor::ConstructCubicConnector(
     const TipState &last_tip_state, const State &estimated_state,
-    const KalmanPredictorParams &params, Duration sample_dt,
+    const KalmanPredictorParams &params, Duration sample_dt, int max_samples,
     std::vector<TipState> *output) {
   // Estimate how long it will take for the tip to travel from its last position
   // to the estimated position, based on the start and end velocities. We define
@@ -161,10 +165,13 @@ void KalmanPredictor::ConstructCubicConnector(
       std::max(max_velocity_at_ends, params.min_catchup_velocity)};
 
   // Determine how many samples this will give us, ensuring that there's always
-  // at least one. Then, pick a duration that's a multiple of the sample dt.
-  int n_points = std::fmax(std::ceil(static_cast<float>(
-                               target_duration.Value() / sample_dt.Value())),
-                           1.f);
+  // at least one, and no more than `max_samples`. Then, pick a duration that's a
+  // multiple of the sample dt.
+  int n_points = std::fmin(
+      std::fmax(std::ceil(static_cast<float>(target_duration.Value() /
+                                             sample_dt.Value())),
+                1.f),
+      static_cast<double>(max_samples));
   Duration duration = n_points * sample_dt;
 
   // We want to construct a cubic curve connecting the last tip state and the
@@ -279,7 +286,8 @@ int KalmanPredictor::NumberOfPointsToPredict(
 
   auto confidence =
       sample_ratio * normalized_error * normalized_distance * linearity;
-  return std::fmax(0.f, std::ceil(target_number * confidence));
+  return std::fmin(std::fmax(0.f, std::ceil(target_number * confidence)),
+                   static_cast<double>(std::numeric_limits<int>::max()));
 }
 
 }  // namespace stroke_model
diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.h b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
index 76048ef..cbd5df9 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.h
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.h
@@ -81,7 +81,7 @@ class KalmanPredictor : public InputPredictor {
   static void ConstructCubicConnector(const TipState &last_tip_state,
                                       const State &estimated_state,
                                       const KalmanPredictorParams &params,
-                                      Duration sample_dt,
+                                      Duration sample_dt, int max_samples,
                                       std::vector<TipState> *output);
 
   static void ConstructCubicPrediction(const State &estimated_state,
diff --git a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
index aedde93..fc384e1 100644
--- a/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/stroke_end_predictor.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/internal/prediction/stroke_end_predictor.h"
 
+#include <algorithm>
 #include <iterator>
 #include <optional>
 #include <vector>
@@ -37,12 +38,15 @@ void StrokeEndPredictor::ConstructPrediction(
     return;
   }
 
-  prediction.reserve(sampling_params_.end_of_stroke_max_iterations);
+  const int max_iterations =
+      std::min(sampling_params_.end_of_stroke_max_iterations,
+               sampling_params_.max_outputs_per_call);
+  prediction.reserve(max_iterations);
   PositionModeler modeler;
   modeler.Reset(last_state, position_modeler_params_);
   modeler.ModelEndOfStroke(*last_position_,
                            Duration(1. / sampling_params_.min_output_rate),
-                           sampling_params_.end_of_stroke_max_iterations,
+                           max_iterations,
                            sampling_params_.end_of_stroke_stopping_distance,
                            std::back_inserter(prediction));
 }
diff --git a/ink_stroke_modeler/stroke_modeler.cc b/ink_stroke_modeler/stroke_modeler.cc
index 6e227b4..6f69a38 100644
--- a/ink_stroke_modeler/stroke_modeler.cc
+++ b/ink_stroke_modeler/stroke_modeler.cc
@@ -14,6 +14,7 @@
 
 #include "ink_stroke_modeler/stroke_modeler.h"
 
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <iterator>
@@ -247,10 +248,14 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   if (!n_steps.ok()) {
     return n_steps.status();
   }
+  // The outputs for the end of the stroke also count against the limit on the
+  // number of outputs per call.
+  const int end_of_stroke_max_iterations = std::min(
+      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      stroke_model_params_->sampling_params.max_outputs_per_call - *n_steps);
   tip_state_buffer_.clear();
-  tip_state_buffer_.reserve(
-      static_cast<size_t>(*n_steps) +
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations);
+  tip_state_buffer_.reserve(static_cast<size_t>(*n_steps) +
+                            end_of_stroke_max_iterations);
   position_modeler_.UpdateAlongLinearPath(
       last_input_->corrected_position, last_input_->input.time, input.position,
       input.time, *n_steps, std::back_inserter(tip_state_buffer_));
@@ -258,7 +263,7 @@ absl::Status StrokeModeler::ProcessUpEvent(const Input &input,
   position_modeler_.ModelEndOfStroke(
       input.position,
       Duration(1. / stroke_model_params_->sampling_params.min_output_rate),
-      stroke_model_params_->sampling_params.end_of_stroke_max_iterations,
+      end_of_stroke_max_iterations,
       stroke_model_params_->sampling_params.end_of_stroke_stopping_distance,
       std::back_inserter(tip_state_buffer_));
 
-- 
2.43.0


From 3209855656e9711409f1f9b9232430eb4ec66d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 07/10] fix: do not predict from a non-finite Kalman estimate

When the stored timestamps are all equal (or only one is kept), the average
time delta is zero, and the prediction consisted of NaN positions.
---
 .../internal/prediction/kalman_predictor.cc              | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
index 79e79dd..08f098a 100644
--- a/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
+++ b/ink_stroke_modeler/internal/prediction/kalman_predictor.cc
@@ -103,6 +103,15 @@ std::optional<KalmanPredictor::State> KalmanPredictor::GetEstimatedState()
   estimated_state.acceleration *= predictor_params_.acceleration_weight;
   estimated_state.jerk *= predictor_params_.jerk_weight;
 
+  // If the observed time deltas are zero, or too small to divide by, then we
+  // can't make a reasonable estimate.
+  if (!estimated_state.position.IsFinite() ||
+      !estimated_state.velocity.IsFinite() ||
+      !estimated_state.acceleration.IsFinite() ||
+      !estimated_state.jerk.IsFinite()) {
+    return std::nullopt;
+  }
+
   return estimated_state;
 }
 
-- 
2.43.0


From 4b905f7e788235e2db49d2e9bb4223e4bcf796df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 08/10] fix: use the spring model's result unaltered when loop
 mitigation is off

The modeled state is produced by interpolating all of the way from the
projected raw input state, whose velocity and acceleration are enormous or
infinite when two inputs are almost simultaneous; the rounding error (or NaN)
ended up in the Result.
---
 ink_stroke_modeler/internal/utils.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ink_stroke_modeler/internal/utils.h b/ink_stroke_modeler/internal/utils.h
index af2eb6f..2248c0c 100644
--- a/ink_stroke_modeler/internal/utils.h
+++ b/ink_stroke_modeler/internal/utils.h
@@ -44,10 +44,13 @@ inline float Normalize01(float start, float end, float value) {
 }
 
 // Linearly interpolates between `start` and `end`, clamping the interpolation
-// value to the range [0, 1].
+// value to the range [0, 1]. At an interpolation value of 1, this returns exactly
+// `end`, regardless of the magnitude of `start`.
 template <typename ValueType>
 inline ValueType Interp(ValueType start, ValueType end, float interp_amount) {
-  return start + (end - start) * Clamp01(interp_amount);
+  interp_amount = Clamp01(interp_amount);
+  if (interp_amount == 1) return end;
+  return start + (end - start) * interp_amount;
 }
 
 // Linearly rescales `value` relative to `a` and `b`, such that `a` maps to 0
-- 
2.43.0


From a26689b0efc293f74e89bd317c6fb7dd74b68911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 09/10] fix: reject NaN in the loop mitigation and linearity
 confidence params

Comparisons against NaN are false, so the range checks accepted it.
---
 ink_stroke_modeler/params.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/ink_stroke_modeler/params.cc b/ink_stroke_modeler/params.cc
index d1ca809..c0dc796 100644
--- a/ink_stroke_modeler/params.cc
+++ b/ink_stroke_modeler/params.cc
@@ -48,6 +48,23 @@ const Duration kMaxSamplingWindow = Duration(10000);
 absl::Status ValidateLoopContractionMitigationParameters(
     const PositionModelerParams::LoopContractionMitigationParameters& params) {
   if (!params.is_enabled) return absl::OkStatus();
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_lower_bound,
+      "LoopContractionMitigationParameters::speed_lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.speed_upper_bound,
+      "LoopContractionMitigationParameters::speed_upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_lower_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "lower_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.interpolation_strength_at_speed_upper_bound,
+      "LoopContractionMitigationParameters::interpolation_strength_at_speed_"
+      "upper_bound"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      params.min_speed_sampling_window.Value(),
+      "LoopContractionMitigationParameters::min_speed_sampling_window"));
   if (params.speed_lower_bound > params.speed_upper_bound ||
       params.speed_lower_bound < 0) {
     return absl::InvalidArgumentError(absl::Substitute(
@@ -223,6 +240,10 @@ absl::Status ValidateKalmanPredictorParams(
   RETURN_IF_ERROR(ValidateGreaterThanZero(
       confidence_params.max_linear_deviation,
       "KalmanPredictorParams::ConfidenceParams::max_linear_deviation"));
+  RETURN_IF_ERROR(ValidateIsFiniteNumber(
+      confidence_params.baseline_linearity_confidence,
+      "KalmanPredictorParams::ConfidenceParams::baseline_linearity_"
+      "confidence"));
   if (confidence_params.baseline_linearity_confidence < 0 ||
       confidence_params.baseline_linearity_confidence > 1) {
     return absl::InvalidArgumentError(absl::Substitute(
-- 
2.43.0


From 9b80290d73776ba8f4049fec4a075379026e48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:34 +0000
Subject: [PATCH 10/10] fix: do not accumulate rounding error in the wobble
 smoother

The running float sums kept the rounding error of every sample that had left
the window; after a pause, the moving average stayed off for the remainder of
the stroke.
---
 .../internal/wobble_smoother.cc               | 27 ++++++++++---------
 ink_stroke_modeler/internal/wobble_smoother.h |  3 ---
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ink_stroke_modeler/internal/wobble_smoother.cc b/ink_stroke_modeler/internal/wobble_smoother.cc
index 53fcc2d..6e860ed 100644
--- a/ink_stroke_modeler/internal/wobble_smoother.cc
+++ b/ink_stroke_modeler/internal/wobble_smoother.cc
@@ -24,9 +24,6 @@ namespace stroke_model {
 void WobbleSmoother::Reset(const WobbleSmootherParams& params, Vec2 position,
                            Time time) {
   state_.samples.clear();
-  state_.weighted_position_sum = Vec2{0, 0};
-  state_.distance_sum = 0;
-  state_.duration_sum = 0;
   state_.samples.push_back({.position = position, .time = time});
 
   save_active_ = false;
@@ -49,17 +46,23 @@ Vec2 WobbleSmoother::Update(Vec2 position, Time time) {
        .distance = Distance(position, state_.samples.back().position),
        .duration = delta_time,
        .time = time});
-  state_.weighted_position_sum += state_.samples.back().weighted_position;
-  state_.distance_sum += state_.samples.back().distance;
-  state_.duration_sum += state_.samples.back().duration.Value();
   while (state_.samples.front().time < time - params_.timeout) {
-    state_.weighted_position_sum -= state_.samples.front().weighted_position;
-    state_.distance_sum -= state_.samples.front().distance;
-    state_.duration_sum -= state_.samples.front().duration.Value();
     state_.samples.pop_front();
   }
 
-  if (state_.duration_sum == 0) {
+  // Sum over the samples in the window, instead of keeping running totals: with
+  // the latter, the rounding error from a sample with a long duration (i.e. a
+  // pause) would remain after that sample has left the window.
+  Vec2 weighted_position_sum{0, 0};
+  float distance_sum = 0;
+  float duration_sum = 0;
+  for (const Sample& sample : state_.samples) {
+    weighted_position_sum += sample.weighted_position;
+    distance_sum += sample.distance;
+    duration_sum += sample.duration.Value();
+  }
+
+  if (duration_sum == 0) {
     return position;
   }
   // Average of sample positions, weighted by the duration of the preceeding
@@ -68,9 +71,9 @@ Vec2 WobbleSmoother::Update(Vec2 position, Time time) {
   // params. Also, this is only looking at the first of a set of postions with
   // identical timestamps instead of doing someting more complicated in that
   // edge-case.)
-  Vec2 avg_position = state_.weighted_position_sum / state_.duration_sum;
+  Vec2 avg_position = weighted_position_sum / duration_sum;
   // Estimate of physical average speed.
-  float avg_speed = state_.distance_sum / state_.duration_sum;
+  float avg_speed = distance_sum / duration_sum;
   return Interp(
       avg_position, position,
       Normalize01(params_.speed_floor, params_.speed_ceiling, avg_speed));
diff --git a/ink_stroke_modeler/internal/wobble_smoother.h b/ink_stroke_modeler/internal/wobble_smoother.h
index 982922c..12f7887 100644
--- a/ink_stroke_modeler/internal/wobble_smoother.h
+++ b/ink_stroke_modeler/internal/wobble_smoother.h
@@ -57,9 +57,6 @@ class WobbleSmoother {
 
   struct State {
     std::deque<Sample> samples;
-    Vec2 weighted_position_sum{0, 0};
-    float distance_sum = 0;
-    float duration_sum = 0;
   };
 
   State state_;
-- 
2.43.0

