#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to diff)."""
import json, os
M='ink_stroke_modeler/'
I=M+'internal/'
K=I+'prediction/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Exactly the well-formed calls are accepted, in every call history",
"Update succeeds exactly when parameters have been accepted, the event type is valid, position and time are finite, the input is neither identical to nor earlier than the previous accepted input of the stroke in progress, the event fits the phase (down only when no stroke is in progress, move and up only during one), and the samples it calls for do not exceed the per-call output limit. Predict succeeds exactly when parameters have been accepted, prediction is enabled and a stroke is in progress; Reset() succeeds exactly when parameters were accepted before, and Reset(params) exactly when the params are valid; both end the stroke in progress. Calls that do not fit the phase or initialization report FailedPrecondition, malformed or too distant inputs and invalid parameters report InvalidArgument.",
["histories","inputs","configurations"],"every sequence of Reset/Update/Predict/Save/Restore calls, with valid and invalid arguments interleaved in any order",
"The tests try about a dozen fixed call orders, each with one kind of error; the guarantee is about every history (for example an error after a restore, or a down after a failed reset).",
[M+"stroke_modeler.cc",M+"types.cc",I+"position_modeler.cc"],
[("checks at the top of Update/Predict/Reset",M+"stroke_modeler.cc: Update, Predict, Reset"),("input validation",M+"types.cc: ValidateInput"),("limit on samples",I+"position_modeler.cc: NumberOfStepsBetweenInputs")],
["absl::Status returned by Reset, Update, Predict"],
[("last_input_","the last accepted input; absent when no stroke is in progress",M+"stroke_modeler.h"),("stroke_model_params_","absent until the first accepted Reset(params)",M+"stroke_modeler.h")])

prop("C02","A rejected call leaves no trace",
"When Update returns an error the results vector is unmodified, and when Predict returns an error the vector is empty. Any call that returns an error (Update, Predict, Reset with or without parameters) leaves the modeler as if the call had never been made: every later call returns the same status and the same results.",
["histories","inputs"],"every history, every kind of rejected call, inserted at every point and in every number",
"The tests check the returned status of single rejected calls, not that the remainder of the stroke (smoothing window, stylus window, prediction, saved state) is unaffected.",
[M+"stroke_modeler.cc"],
[("all checks precede the first change of state",M+"stroke_modeler.cc: Update, ProcessDownEvent, ProcessMoveEvent, ProcessUpEvent, Reset")],
["results vector and status of later Update and Predict calls"])

prop("C03","Timing and number of results per update",
"A successful down yields exactly one result, at the input's own position and time with zero velocity and acceleration; every later successful update appends at least one result after the existing contents of the vector, which stay untouched. Over a stroke the result times never decrease, the last result of a move is at the move's time, results are evenly spaced in time between consecutive inputs and at most one period of the minimum output rate apart. When inputs arrive faster than the minimum output rate and no upsampling by angle applies, each move yields exactly one result.",
["inputs","histories","configurations"],"every valid input stream (uniform, jittered, simultaneous, paused) and every sampling configuration",
"The tests compare a few fixed strokes with golden values at one or two output rates; rounding of the step count and repeated time stamps are hardly sampled.",
[M+"stroke_modeler.cc",I+"position_modeler.cc",I+"position_modeler.h"],
[("step count",I+"position_modeler.cc: NumberOfStepsBetweenInputs"),("interpolation of anchor and time",I+"position_modeler.h: UpdateAlongLinearPath")],
["Result.time and the number of results of each Update"])

prop("C04","The tip follows the spring-mass-drag model along the input path",
"With loop contraction mitigation off, every result up to the input's time is one step of the documented model from the result before it: acceleration = (anchor - position) / spring_mass_constant - drag_constant * velocity, then velocity += dt * acceleration and position += dt * velocity, where the anchor moves linearly from the previous (smoothed) input position to the current one. This holds across updates, so no state is lost or added between calls, and in the stable range of the parameters the tip stays within the reach of the input path.",
["inputs","histories","configurations"],"every stroke, step length and spring/drag setting",
"The tests pin single steps and a few golden strokes; the recurrence must hold at every step of every stroke, in particular across pauses, repeated time stamps, predictions, restores and long strokes.",
[I+"position_modeler.cc",I+"position_modeler.h",M+"stroke_modeler.cc"],
[("Euler step",I+"position_modeler.cc: PositionModeler::Update"),("anchor interpolation",I+"position_modeler.h: UpdateAlongLinearPath")],
["position, velocity, acceleration and time of consecutive Results"],
[("state_","position, velocity, acceleration and time of the tip",I+"position_modeler.h")])

prop("C05","The end of the stroke catches up with the final input, without overshoot",
"After reaching the time of the up event, results continue toward the up position by model steps whose length starts at one output period and is halved each time a step would pass the closest point to the up position; every such result is closer to the up position than the one before. The catch-up stops when a result is within end_of_stroke_stopping_distance of the up position, when a step would move less than that distance, or when end_of_stroke_max_iterations steps, including the discarded ones, have been tried, and it does not stop earlier except for the limit on outputs per call. When an up event has neither time to cover nor a step worth keeping, its one result is the last step tried.",
["inputs","configurations"],"every stroke and up position, every stopping distance, iteration limit, output rate and spring/drag setting, over- and underdamped",
"The tests have three fixed end-of-stroke situations; which of the three stop conditions applies and how often steps are halved depends on the whole stroke.",
[I+"position_modeler.h",M+"stroke_modeler.cc"],
[("halving and stop conditions",I+"position_modeler.h: ModelEndOfStroke"),("anchor and limits",M+"stroke_modeler.cc: ProcessUpEvent")],
["the Results of the Update call with the up event"])

prop("C06","Wobble smoothing is a speed-weighted moving average",
"With smoothing enabled, a move's position is replaced by a blend of itself and the average, weighted by the time each took, of the positions received within the timeout before it; the blend is all average at or below speed_floor, all raw position at or above speed_ceiling, linear in between, where speed is path length over duration in that same window. The blend never leaves the bounding box of the positions in the window, and repeated identical positions are returned unchanged no matter what came earlier in the stroke. The down and up positions are never smoothed, and with smoothing disabled no position is.",
["inputs","configurations"],"every sequence of positions and times in a stroke, every window length and speed range including degenerate ones",
"Two tests with one parameter set and about ten inputs each; drift of the window over long strokes, pauses, simultaneous inputs and an empty speed range are not sampled.",
[I+"wobble_smoother.cc",I+"wobble_smoother.h",M+"stroke_modeler.cc"],
[("windowed sums",I+"wobble_smoother.cc: Update")],
["the anchor implied by the acceleration of the Results"],
[("samples","positions, durations and distances inside the timeout window",I+"wobble_smoother.h")])

prop("C07","Turning by more than the set angle is upsampled",
"With max_estimated_angle_to_traverse_per_input set, the number of results between two inputs is the larger of what the output rate requires and the estimated turn of the velocity (its angle to the velocity after one unsubdivided step toward the new raw position) divided by the set angle, rounded up. With the option off (-1) only the output rate counts, and an input that would need more results than the per-call limit is rejected.",
["inputs","configurations"],"every stroke, every angle in (0, pi), every output rate and limit",
"One test of the step count with fixed numbers and two golden strokes; right angles, reversals, and the interplay with rate and limit are not varied.",
[I+"position_modeler.cc",M+"types.cc"],
[("steps for angle",I+"position_modeler.cc: NumberOfStepsBetweenInputs"),("angle between velocities",M+"types.cc: AbsoluteAngleTo")],
["the number of Results of each Update"])

prop("C08","Stylus values are interpolated at the nearest point of the recent raw path",
"Without stroke normal projection, each result's pressure, tilt and orientation are the values interpolated at the point nearest to the (unmitigated) result position on the polyline through the positions (as smoothed, if smoothing is on) of the last max_input_samples inputs, the current one included. Pressure and tilt are interpolated linearly and orientation along the shorter arc and normalized to one turn, so every value lies between those of neighbouring inputs; the result of a down carries that input's own values.",
["inputs","configurations"],"every stroke, every stylus value sequence (including orientation wrapping around), every window size, for moves, ups and predictions",
"The tests query a handful of positions on one or two hand-made polylines; sliding of the window, ties, wraparound inside a stroke and single-sample windows are hardly covered.",
[I+"stylus_state_modeler.cc",I+"utils.h",I+"utils.cc"],
[("sliding window",I+"stylus_state_modeler.cc: Update, ShouldDropOldestInput"),("closest point",I+"stylus_state_modeler.cc: ProjectToClosestPoint"),("interpolation",I+"utils.cc: InterpResult; "+I+"utils.h: InterpAngle")],
["pressure, tilt, orientation of Results"])

prop("C09","Unknown stylus values stay unknown, field by field, for the stroke only",
"Once an input of a stroke has a negative or NaN pressure, every later result of that stroke, including predictions and the update that carried it, has pressure -1 (the single result of a down carries the input's own values), and likewise tilt and orientation, each independently of the others. Fields that have been known throughout the stroke never come out unknown, and a new stroke starts with all fields known again.",
["inputs","histories"],"every pattern of known and unknown fields over the inputs of a history of strokes, with both projection methods",
"The tests set one field to -1 at one position of one stroke; combinations, the moment all become unknown, save/restore and the next stroke are not covered.",
[I+"stylus_state_modeler.cc",I+"utils.cc"],
[("received_unknown flags",I+"stylus_state_modeler.cc: Update, Query, Reset")],
["pressure, tilt, orientation of Results"],
[("received_unknown_*","sticky per-field flags",I+"stylus_state_modeler.h")])

prop("C10","Stroke normal projection takes values where the normal meets the raw path",
"With stroke normal projection, the stylus values of a result are interpolated at a point where the line through the tip along the stroke normal (perpendicular to the direction of travel) crosses the polyline of recent inputs: the nearest crossing on either side, and if both sides have one, the one on the outside of the turn; if there is no crossing, at the nearer end of the polyline, and if the tip has neither velocity nor acceleration, at the nearest point. The polyline holds at least min_input_samples inputs spanning more than min_sample_duration, or all of them if there are not yet that many, and no more than needed for that.",
["inputs","configurations"],"every stroke (curved, reversing, self-crossing, stationary), every window configuration",
"The tests query hand-made polylines with hand-made normals; the tip states and windows that real strokes lead to are not enumerated.",
[I+"stylus_state_modeler.cc",I+"utils.cc",M+"stroke_modeler.cc"],
[("projection along the normal",I+"stylus_state_modeler.cc: ProjectAlongStrokeNormal, Query"),("normal",I+"utils.cc: GetStrokeNormal, ProjectToSegmentAlongNormal"),("window",I+"stylus_state_modeler.cc: ShouldDropOldestInput")],
["pressure, tilt, orientation of Results; position with mitigation strength 0"])

prop("C11","Loop mitigation blends tip and raw path by recent speed, and nothing else",
"With mitigation enabled, each result's position, velocity and acceleration lie on the straight blend between the spring model's result (weight w) and the projection on the raw path (weight 1 - w), where w goes linearly from the strength at the lower speed bound to the strength at the upper one with the average speed of the recent results, and is 1 before there are any. Mitigation never feeds back into the spring model: times, number of results and the underlying tip motion are those of the same stroke with mitigation disabled, and with both strengths 1 or mitigation disabled the result is exactly the spring model's.",
["inputs","configurations"],"every stroke and every mitigation configuration, for moves, ups and predictions",
"Unit tests cover the speed window with a few samples, and one golden stroke the combination; the blend must hold for every result of every stroke.",
[M+"stroke_modeler.cc",I+"loop_contraction_mitigation_modeler.cc",I+"utils.h"],
[("blend",M+"stroke_modeler.cc: ModelStylus"),("speed window",I+"loop_contraction_mitigation_modeler.cc: Update, GetInterpolationValue")],
["Results of the same stroke with mitigation enabled and disabled"],
[("speed_samples_","recent result speeds",I+"loop_contraction_mitigation_modeler.h")])

prop("C12","Predict has no effect on the model",
"Calling Predict any number of times at any point of a history never changes the status or results of any other call, and calling it again without an update in between gives the same prediction. The results vector is replaced: its previous contents and capacity have no influence on the prediction.",
["histories","inputs"],"every history and every placement of Predict calls, for all three prediction settings, with mitigation and smoothing on or off",
"One test compares one stroke with and without predictions for one parameter set.",
[M+"stroke_modeler.cc",K+"kalman_predictor.cc",K+"stroke_end_predictor.cc"],
[("const predictor, copied loop modeler",M+"stroke_modeler.cc: Predict")],
["Results of Update and Predict with and without extra Predict calls"])

prop("C13","Stroke-end prediction is what lifting the pen now would add",
"With the stroke-end predictor, a prediction made after an input consists of exactly the catch-up results that an up event at the same position and time would produce: the same positions, velocities, accelerations and times. (With smoothing, which an up event does not undergo, the prediction heads for the smoothed position of the last input.) It starts from the last tip state, follows the same stop rules as the end of a stroke, and is empty when there is nothing left to catch up.",
["inputs","histories","configurations"],"every stroke prefix and every setting of sampling and position parameters",
"Three unit tests with fixed states; the agreement between prediction and the actual end of the stroke is not tested.",
[K+"stroke_end_predictor.cc",I+"position_modeler.h",M+"stroke_modeler.cc"],
[("shared end-of-stroke model",K+"stroke_end_predictor.cc: ConstructPrediction; "+I+"position_modeler.h: ModelEndOfStroke")],
["Results of Predict and of Update with an up event"])

prop("C14","Kalman prediction: connector to the estimate, then confident extension",
"With the Kalman predictor, a prediction is empty until min_stable_iteration inputs were received; afterwards its results are one output period apart, starting one period after the last result, and first follow a cubic that leaves the tip with its position and velocity and arrives at the filter's estimate with the estimate's position and velocity, at a pace no slower than min_catchup_velocity allows. It then continues the estimate with its velocity, weighted acceleration and weighted jerk, for prediction_interval times the confidence (rounded up to a whole result): the product of the four documented heuristics, which is never above 1. The estimate is that of a Kalman filter over the smoothed input positions of this stroke, scaled by the observed input interval.",
["inputs","histories","configurations"],"every stroke prefix and every setting of the predictor and its confidence parameters",
"A few golden predictions for one parameter set.",
[K+"kalman_predictor.cc",K+"kalman_predictor.h",M+"stroke_modeler.cc"],
[("connector",K+"kalman_predictor.cc: ConstructCubicConnector"),("extension",K+"kalman_predictor.cc: ConstructCubicPrediction, NumberOfPointsToPredict"),("estimate",K+"kalman_predictor.cc: GetEstimatedState")],
["Results of Predict"])

prop("C15","Restore undoes every update since Save, exactly",
"After Restore, the modeler behaves in every respect (status and results of all later updates and predictions) as it did at the last Save of the current stroke, whatever updates, predictions, rejected calls, ups and other restores happened in between, and however often Restore is called. A later Save replaces the saved state; without a Save in this stroke, or after Reset, Restore does nothing.",
["histories"],"every history of saves, restores, updates, predictions, resets and strokes",
"One scripted test with one stroke and one parameter set.",
[M+"stroke_modeler.cc",I+"wobble_smoother.cc",I+"stylus_state_modeler.cc",I+"loop_contraction_mitigation_modeler.cc",I+"position_modeler.h"],
[("Save/Restore of every stateful part",M+"stroke_modeler.cc: Save, Restore and the components' Save/Restore")],
["Results and status of calls after Restore"],
[("save_active_, saved_*","saved state of each part",M+"stroke_modeler.h")])

prop("C16","A stroke's results depend only on its parameters and inputs",
"The results and predictions of a stroke are a function of the accepted parameters and the stroke's own inputs: earlier strokes, aborted strokes, earlier parameters, predictions, saves and errors on the same modeler make no difference, nor do the contents or capacity of the vectors passed in, moving the modeler to another object in the middle of a stroke, or other modelers used at the same time. Repeating the calls gives identical results.",
["histories","schedules","inputs"],"every earlier history on the same object, every interleaving of calls to several modelers",
"Two tests run one short stroke twice; carry-over from arbitrary histories and parameter changes is not tested.",
[M+"stroke_modeler.cc",I+"wobble_smoother.cc",I+"stylus_state_modeler.cc",I+"loop_contraction_mitigation_modeler.cc",K+"kalman_predictor.cc"],
[("re-initialization on down",M+"stroke_modeler.cc: ProcessDownEvent, Reset")],
["Results of a stroke after a history and on a fresh modeler"])

prop("C17","No input sequence crashes, hangs or triggers undefined behaviour",
"Whatever values are passed, in parameters, positions, times and stylus fields (extreme, infinite, NaN, denormal, out of the documented range) and in whatever order the calls are made, every call returns in bounded time with a status, without undefined behaviour, memory errors, or memory use beyond what the configured max_outputs_per_call allows.",
["inputs","histories","configurations"],"every bit pattern of every argument in every call order",
"The repository's fuzz test states part of this but is not run by its test suite, does not include Save and Restore, and detects no undefined behaviour without sanitizers.",
[M+"stroke_modeler.cc",I+"position_modeler.cc",I+"utils.h",I+"utils.cc",I+"stylus_state_modeler.cc",K+"kalman_predictor.cc",M+"params.cc",M+"types.cc"],
[("validation of parameters and inputs, limits on iterations and outputs","all of the above")],
["process exit, sanitizer reports, CPU time and memory of each case"])

prop("C18","Parameters are accepted exactly when the documentation allows them",
"Reset(params) and the validation functions accept a parameter set exactly when every field in use satisfies its documented range (finite, positive or non-negative as stated, ordered pairs in order, the stated upper limits, loop mitigation only together with stroke normal projection), and report InvalidArgument otherwise. Fields documented as ignored (of disabled smoothing, of disabled mitigation, of the projection method or predictor not selected) have no influence on acceptance or on any result.",
["configurations"],"every combination of field values, including boundary values, NaN, infinities, denormals and extremes",
"The tests change one field at a time to one or two bad values.",
[M+"params.cc",M+"params.h",I+"validation.h"],
[("validation functions",M+"params.cc")],
["status of Reset(params), ValidateStrokeModelParams and the other Validate* functions; Results under ignored fields"])

prop("C19","The modeler is agnostic to units and coordinate systems",
"Expressing a stroke and its parameters in other units of length or time scales the results accordingly and changes nothing else; turning the coordinate system by a right angle, mirroring it by swapping axes (without stroke normal projection, whose ties are broken by side), or shifting the origin of time changes the results exactly as it changes the inputs. (With the Kalman predictor this is claimed for time and for the coordinate system's orientation, since its initial uncertainty is one squared unit of length.)",
["inputs","configurations"],"every stroke and configuration, and every power-of-two rescaling, quarter turn, axis swap and time shift",
"Stated in the documentation; no test compares two unit systems.",
[M+"stroke_modeler.h",M+"stroke_modeler.cc",I+"position_modeler.cc",I+"wobble_smoother.cc",I+"stylus_state_modeler.cc",K+"kalman_predictor.cc"],
[("no absolute constants; both axes treated alike","all numerical code")],
["Results of a stroke and of its transformed version"])

prop("C20","Output and state per call stay within the configured limits",
"No call to Update or Predict produces more than max_outputs_per_call results, a prediction with the stroke-end predictor has at most end_of_stroke_max_iterations results, and an up event has at most that many beyond those required to reach its time. An input that is too far in the future to respect the limit is rejected, not truncated.",
["inputs","configurations"],"every stroke and every combination of output rate, limits, gaps and catch-up velocity",
"One test each for a far-apart move and up with one limit; predictions are not tested against the limit at all.",
[I+"position_modeler.cc",M+"stroke_modeler.cc",K+"kalman_predictor.cc",K+"stroke_end_predictor.cc"],
[("limit on steps",I+"position_modeler.cc: NumberOfStepsBetweenInputs"),("limits on the end of stroke and prediction",M+"stroke_modeler.cc: ProcessUpEvent; "+K+"kalman_predictor.cc: ConstructPrediction; "+K+"stroke_end_predictor.cc: ConstructPrediction")],
["number of Results of each Update and Predict"])

prop("C21","Ordinary finite strokes give finite, sane results",
"For valid parameters in the stable range and strokes of ordinary magnitude, every field of every result and prediction is finite; pressure and tilt are -1 or within the range of the stroke's inputs, and orientation is -1 or within one turn. Repeated time stamps, pauses, repeated positions and inputs separated by a tiny fraction of the output period (though not by a mere rounding error of the clock) are ordinary.",
["inputs","configurations"],"every ordinary stroke with degenerate timing or geometry",
"Golden tests use well spaced inputs; degenerate timing appears in two or three fixed cases without predictions.",
[M+"stroke_modeler.cc",I+"stylus_state_modeler.cc",I+"utils.cc",K+"kalman_predictor.cc",I+"wobble_smoother.cc"],
[("guards against division by zero","the files listed")],
["all fields of all Results"])

prop("C22","The axis predictor is the documented Kalman filter",
"Fed any sequence of observations, the per-axis predictor's position, velocity, acceleration and jerk are those of the Kalman filter with the constant-jerk transition, the given process and measurement noise and identity initial covariance; they are linear in the observations, shift with them, and a reset or copied predictor is indistinguishable from a fresh or the original one. It is stable exactly from min_stable_iteration observations on, and counts its observations.",
["inputs","histories","configurations"],"every observation sequence, noise setting and placement of resets and copies",
"Three tests with short fixed sequences.",
[K+"kalman_filter/kalman_filter.cc",K+"kalman_filter/axis_predictor.cc",K+"kalman_filter/matrix.h"],
[("predict/update equations",K+"kalman_filter/kalman_filter.cc"),("model matrices",K+"kalman_filter/axis_predictor.cc"),("linear algebra",K+"kalman_filter/matrix.h")],
["getters of the axis predictor; matrix operators"])

prop("C23","Vector, time and result arithmetic obeys its algebra",
"The vector, duration and time operators agree with component-wise arithmetic, each compound assignment with its binary form, and comparisons with those of the underlying values; inputs and results are equal exactly when all their fields are. The absolute angle between two vectors is symmetric, independent of their lengths and signs of turn, within [0, pi], zero if either vector is zero, has a cosine accurate to float precision (for vectors whose length is a normal float), and is an error exactly when a component is not finite.",
["inputs"],"all component values, including zeros, extremes and non-finite ones",
"The tests use a few small literals per operator.",
[M+"types.h",M+"types.cc"],
[("operators",M+"types.h"),("angle",M+"types.cc: AbsoluteAngleTo")],
["return values of the public operators and functions"])

prop("C24","Stylus values never influence motion, nor each other",
"The pressure, tilt and orientation of the inputs (known or not, of whatever value) make no difference to the status of any call, nor to the number, positions, velocities, accelerations and times of results and predictions, whatever smoothing, mitigation, projection or predictor is used, as long as consecutive inputs still differ in something else. Each of the three fields of the results depends on that field of the inputs only: changing the others, or making them unknown, leaves it as it was.",
["inputs","configurations"],"every stroke and every replacement of its stylus values, from any point of the stroke on",
"Tests vary the stylus values only in the stylus modeler's own tests; none compares the motion of two strokes which differ in them.",
[I+"stylus_state_modeler.cc",M+"stroke_modeler.cc"],
[("tracking of raw inputs and unknown fields",I+"stylus_state_modeler.cc: Update, Query"),("assembly of results",M+"stroke_modeler.cc: ModelStylus")],
["statuses and Results of two strokes which differ in their stylus values only"])

prop("C25","The text form of a value shows every field",
"Vectors, durations, times, inputs and results are written, by stream output, ToFormattedString and abseil formatting alike, with all of their fields in the documented order, each number to six significant digits with its sign, infinities and NaN included; the three event types are told apart and any other value of the enumeration is shown with its number.",
["inputs"],"all field values",
"One literal per type.",
[M+"types.cc",M+"types.h"],
[("formatting",M+"types.cc: ToFormattedString"),("stream output",M+"types.h: operator<<, AbslStringify")],
["text of public types"])

prop("C26","Memory does not grow with the length of a session",
"The memory a modeler holds is bounded by its parameters and by the inputs that lie within the windows they set: it does not grow with the length of a stroke, nor with the number of strokes, predictions, saves, restores, resets and rejected calls, whether smoothing, mitigation, prediction and stylus tracking are enabled or not. (Buffers may keep the capacity that the largest call needed, and inputs without any advance in time never leave a window.) Destroying the modeler releases all of it.",
["histories","configurations"],"every configuration and every stroke or series of strokes, repeated any number of times",
"No test looks at memory or feeds more than a few dozen inputs.",
[I+"wobble_smoother.cc",I+"stylus_state_modeler.cc",I+"loop_contraction_mitigation_modeler.cc",K+"kalman_predictor.cc",M+"stroke_modeler.cc"],
[("trimming of the windows","the files listed: Update"),("ownership of saved state and predictors",M+"stroke_modeler.cc: Save, Restore, Reset")],
["bytes obtained by operator new and not returned, between calls"])

prop("C27","The work of a call does not grow with the length of a session",
"The library is meant to run on every input event, so an Update, Predict, Save, Restore or Reset does an amount of work bounded by its parameters, by the number of results it gives and by the inputs and results that lie within the windows set by the parameters. It does not become more work as a stroke gets longer, nor as more strokes, predictions, saves, restores, resets and rejected calls are made, for all settings of smoothing, mitigation, prediction and stylus modeling.",
["histories","configurations"],"every configuration and every stroke or series of strokes, repeated any number of times",
"Tests make a few dozen calls and do not look at cost.",
[I+"wobble_smoother.cc",I+"stylus_state_modeler.cc",I+"loop_contraction_mitigation_modeler.cc",K+"kalman_predictor.cc",M+"stroke_modeler.cc"],
[("windows trimmed on every update","the files listed: Update"),("copies of state",M+"stroke_modeler.cc: Save, Restore, Predict")],
["branches executed in the library, counted by instrumentation"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
