// No crash, hang, undefined behaviour or unbounded memory, whatever is passed.
// Runs under AddressSanitizer and UndefinedBehaviorSanitizer.
#include <sstream>

#include "../fields.h"
#include "../hist.h"

using namespace gen;  // NOLINT

namespace {

struct Limits {
  bool unlimited = false;  // the parameters allow 2^31 results per call
  bool max_int = false;    // or as many as an int can count
  double rate = 1;
};

StrokeModelParams OddParams(Case& c, const Units& u, Limits* lim, bool* odd) {
  Src& s = c.src;
  ParamOpts po;
  po.unstable_ok = true;
  po.small_limits = true;
  StrokeModelParams p = GenParams(c, u, po);
  int n = s.weighted({4, 4, 3, 2, 1});
  if (n == 4) n = 20;
  for (int i = 0; i < n; ++i) {
    int f = s.below(kNumFields);
    WithField(p, f, [&](auto& r) { MakeOdd(s, r); });
    *odd = true;
  }
  // Accepted values may be odd in pairs: order them half of the time.
  if (s.chance(1, 2)) {
    auto& w = p.wobble_smoother_params;
    if (w.speed_floor > w.speed_ceiling) std::swap(w.speed_floor, w.speed_ceiling);
    auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
    if (l.speed_lower_bound > l.speed_upper_bound) std::swap(l.speed_lower_bound, l.speed_upper_bound);
  }
  int& max = p.sampling_params.max_outputs_per_call;
  lim->unlimited = lim->max_int = false;
  if (max > 300) {
    int k = s.weighted({12, 1, 2});
    if (k == 0) {
      max = 300;
    } else if (k == 1) {
      // The mitigation averages up to 1e4 speeds anew for each result.
      max = p.position_modeler_params.loop_contraction_mitigation_params.is_enabled ? 300 : 100000;
    } else if (IsKalman(p)) {
      max = 300;
    } else {
      max = INT_MAX - static_cast<int>(s.below(2));
      lim->unlimited = true;
      lim->max_int = max == INT_MAX;
    }
  }
  double& rate = p.sampling_params.min_output_rate;
  if (lim->unlimited) {
    // Angles are a further reason for upsampling; this one asks for as many
    // results as it likes.
    double& a = p.sampling_params.max_estimated_angle_to_traverse_per_input;
    if (a > 0 && a < 0.01) a = 0.01;
  }
  lim->rate = rate;
  return p;
}

Input OddInput(Case& c, const Input& base, bool* odd) {
  Src& s = c.src;
  Input in = base;
  int n = s.weighted({6, 3, 1});
  for (int i = 0; i < n; ++i) {
    *odd = true;
    switch (s.below(6)) {
      case 0: in.position.x = OddFloat(s); break;
      case 1: in.position.y = OddFloat(s); break;
      case 2: in.time = Time(OddDouble(s)); break;
      case 3: in.pressure = OddFloat(s); break;
      case 4: in.tilt = OddFloat(s); break;
      default: in.orientation = OddFloat(s); break;
    }
  }
  if (s.chance(1, 12)) {
    static const int kE[] = {0, 1, 2, 3, -1};
    in.event_type = static_cast<Input::EventType>(s.pick(kE));
  }
  return in;
}

void Run(Case& c) {
  Src& s = c.src;
  HistOpts o;
  o.max_ops = 30;
  o.initial_reset = false;
  o.params.unstable_ok = true;
  o.params.small_limits = true;
  o.stroke.tiny_dt = true;
  o.stroke.nan_stylus = true;
  HistoryGen g(c, o);
  FRESH_MODELER(m);
  std::unique_ptr<StrokeModeler> copy;
  Limits lim, active;
  int n = g.Length(1);
  bool odd_accepted = false;
  int accepted = 0;
  std::vector<Result> out;
  std::optional<Input> last;
  bool extreme_state = false;
  // In some histories all lengths are huge or tiny, and predictions are frequent.
  static const double kScale[] = {1, 1e37, 1e30, 1e20, 1e15, 1e-20, 1e-38, 1e-44};
  double scale = s.chance(1, 3) ? s.pick(kScale) : 1;
  bool predict_next = false, hold = false;
  for (int i = 0; i < n; ++i) {
    Op op = (i == 0 && s.chance(9, 10)) ? g.MakeReset(false) : predict_next ? Op{.kind = kPredict} : g.Next();
    predict_next = scale != 1 && op.kind == kUpdate && s.chance(1, 3);
    bool odd = false;
    if (op.kind == kResetParams && s.chance(3, 4)) {
      op.params = OddParams(c, g.units(), &lim, &odd);
      op.why = "odd";
    } else if (op.kind == kResetParams) {
      lim = Limits{};
      lim.rate = op.params.sampling_params.min_output_rate;
      if (op.params.sampling_params.max_outputs_per_call > 300) op.params.sampling_params.max_outputs_per_call = 300;
    }
    if (op.kind == kResetParams && scale != 1 && s.chance(2, 3)) {
      KalmanPredictorParams k = GenKalman(c, g.units());
      k.min_stable_iteration = s.range(1, 3);
      if (s.chance(1, 4)) {
        // A tip that hardly moves, and a prediction that may take its time.
        op.params.position_modeler_params.spring_mass_constant = 1e30f;
        k.min_catchup_velocity = 1e-30f;
      }
      op.params.prediction_params = k;
      if (op.params.sampling_params.max_outputs_per_call > 300) {
        op.params.sampling_params.max_outputs_per_call = 300;
        lim.unlimited = lim.max_int = false;
      }
    }
    if (op.kind == kUpdate) {
      if (scale != 1) {
        op.input.position.x *= scale / g.units().length;
        op.input.position.y *= scale / g.units().length;
        if (hold && last) op.input.position = last->position;
        hold = s.chance(hold ? 9 : 1, 10);
        odd = true;
      }
      if (s.chance(1, 2)) op.input = OddInput(c, op.input, &odd);
      if (odd) op.why = "odd";
      // Nobody is interested in the minutes it takes to produce 2^30 results.
      if (active.unlimited && last && g.in_stroke() && op.input.time.Value() > last->time.Value()) {
        double steps = (op.input.time.Value() - last->time.Value()) * active.rate;
        double most = active.max_int ? INFINITY : 2.2e9;
        if (steps > 1000 && steps <= most) op.input.time = Time(last->time.Value() + 900 / active.rate);
        if (!((op.input.time.Value() - last->time.Value()) * active.rate < 1001) && steps <= most) op.input.time = last->time;
      }
    }
    out.clear();
    absl::Status st;
    if (c.verbose) c.note("%s", Str(op).c_str());
    switch (op.kind) {
      case kUpdate: st = m.Update(op.input, out); break;
      case kPredict: st = m.Predict(out); break;
      case kSave: m.Save(); break;
      case kRestore: m.Restore(); break;
      case kReset: st = m.Reset(); break;
      default: st = m.Reset(op.params); break;
    }
    if (c.verbose) c.note("  -> %d, %zu results", static_cast<int>(st.code()), out.size());
    // "Bounded": even after a huge reservation.
    CHECK_THAT(c, out.capacity() <= 4u * 100000 + 64, "call %d: capacity for %zu results reserved for %zu", i, out.capacity(), out.size());
    CHECK_THAT(c, st.ok() || !st.message().empty(), "call %d: no message with code %d", i, static_cast<int>(st.code()));
    OpResult r;
    r.code = st.code();
    g.Observe(op, r);
    if (st.ok()) {
      ++accepted;
      odd_accepted |= odd;
      if (op.kind == kUpdate) last = op.input;
      if (op.kind == kResetParams) {
        active = lim;
        c.label_if(odd, "odd parameters accepted");
      }
      c.label_if(op.kind == kUpdate && odd, "odd input accepted");
    }
    for (auto& x : out) {
      if (!x.position.IsFinite()) extreme_state = true;
    }
    // The text forms of everything must work too.
    if (s.chance(1, 8)) {
      std::ostringstream ss;
      ss << op.input << op.input.event_type << op.input.time << Duration(op.input.time.Value()) << op.input.position;
      if (!out.empty()) ss << out.back();
      CHECK_THAT(c, !ss.str().empty(), "empty text");
      auto a = op.input.position.AbsoluteAngleTo(out.empty() ? Vec2{OddFloat(s), OddFloat(s)} : out.back().velocity);
      CHECK_THAT(c, !a.ok() || (*a >= 0 && *a <= 3.1415928f), "angle %g", *a);
    }
    // Copies and moves of a modeler are modelers.
    if (s.chance(1, 40)) {
      c.label("moved");
      StrokeModeler t = std::move(m);
      m = std::move(t);
    }
  }
  c.label_if(extreme_state, "results overflowed");
  if (odd_accepted && accepted >= 3) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C17",
    "Generated histories of 1-30 calls in any order, in which parameters, positions, times "
    "and stylus fields are replaced by zeros, denormals, extremes, infinities, NaN and "
    "arbitrary bit patterns; built with AddressSanitizer and UndefinedBehaviorSanitizer "
    "(with float-cast-overflow) and libstdc++ assertions, with limits on CPU time and "
    "memory. Non-trivial: a call with such a value was accepted, and at least three calls were.",
    "Configurations which ask for more than 1e5 results in one call are not driven to produce "
    "them|float division by zero and overflow to infinity are not undefined behaviour here",
    400000, 6000000, Run};
