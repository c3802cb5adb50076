// Call histories: generation (stateful, following the documented protocol) and
// execution on any number of modelers.
#ifndef INK_VERIF_HIST_H_
#define INK_VERIF_HIST_H_

#include <memory>
#include <optional>

#include "gen.h"

namespace gen {

enum OpKind { kUpdate, kPredict, kSave, kRestore, kReset, kResetParams };

struct Op {
  OpKind kind;
  Input input{};
  StrokeModelParams params{};
  const char* why = "";  // what the generator intended
};

struct OpResult {
  absl::StatusCode code = absl::StatusCode::kOk;
  std::vector<Result> results;
  bool ok() const { return code == absl::StatusCode::kOk; }
};

inline std::string Str(const Op& o) {
  switch (o.kind) {
    case kUpdate: return std::string("update[") + o.why + "] " + Str(o.input);
    case kPredict: return "predict";
    case kSave: return "save";
    case kRestore: return "restore";
    case kReset: return "reset()";
    default: return std::string("reset[") + o.why + "](" + Str(o.params) + ")";
  }
}

inline OpResult Exec(StrokeModeler& m, const Op& o) {
  OpResult r;
  switch (o.kind) {
    case kUpdate: r.code = m.Update(o.input, r.results).code(); break;
    case kPredict: r.code = m.Predict(r.results).code(); break;
    case kSave: m.Save(); break;
    case kRestore: m.Restore(); break;
    case kReset: r.code = m.Reset().code(); break;
    case kResetParams: r.code = m.Reset(o.params).code(); break;
  }
  return r;
}

inline void RequireSame(Case& c, const OpResult& a, const OpResult& b,
                        const std::string& what) {
  if (a.code != b.code) {
    c.fail("%s: status %d instead of %d", what.c_str(), static_cast<int>(b.code),
           static_cast<int>(a.code));
  }
  RequireSame(c, a.results, b.results, what.c_str());
}

// Makes valid parameters invalid in one respect.
inline StrokeModelParams Spoil(Case& c, StrokeModelParams p) {
  constexpr double nan = std::numeric_limits<double>::quiet_NaN();
  constexpr double inf = std::numeric_limits<double>::infinity();
  switch (c.src.below(9)) {
    case 0: p.sampling_params.min_output_rate = -1; break;
    case 1: p.position_modeler_params.spring_mass_constant = nan; break;
    case 2: p.position_modeler_params.drag_constant = 0; break;
    case 3: p.sampling_params.max_outputs_per_call = 0; break;
    case 4: p.sampling_params.end_of_stroke_stopping_distance = inf; break;
    case 5:
      p.wobble_smoother_params.is_enabled = true;
      p.wobble_smoother_params.timeout = Duration(-1);
      break;
    case 6: {
      KalmanPredictorParams k;
      p.prediction_params = k;  // nothing set
      break;
    }
    case 7:
      p.position_modeler_params.loop_contraction_mitigation_params.is_enabled = true;
      p.stylus_state_modeler_params.use_stroke_normal_projection = false;
      break;
    default: p.sampling_params.end_of_stroke_max_iterations = 1001; break;
  }
  return p;
}

struct HistOpts {
  int max_ops = 40;
  bool saves = true;
  bool predicts = true;
  bool resets = true;
  bool bad = true;          // calls that must be rejected
  bool extremes = false;    // sometimes enormous (but finite) times and positions
  bool initial_reset = true;  // start with accepted parameters
  ParamOpts params;
  StrokeOpts stroke;
};

// Produces operations one at a time. The caller reports whether each one was
// accepted, so that the generator knows the phase.
class HistoryGen {
 public:
  HistoryGen(Case& c, const HistOpts& o) : c_(c), o_(o) {
    UnitOpts uo;
    uo.dyadic = o.stroke.dyadic;
    u_ = GenUnits(c, uo);
    o_.stroke.up = kNo;
    // Some histories have long strokes, with few resets.
    calm_ = c.src.weighted({6, 2, 1});
    o_.extremes = o_.extremes && c.src.chance(1, 8);
  }

  // A number of operations for this history.
  int Length(int lo) {
    int n = c_.src.range(lo, o_.max_ops);
    if (calm_ > 0) n = c_.src.range(n, o_.max_ops * 2);
    if (c_.src.below(60) == 59) n *= 8;
    return n;
  }

  const Units& units() const { return u_; }
  bool in_stroke() const { return in_stroke_; }
  bool initialized() const { return init_; }
  const StrokeModelParams& params() const { return params_; }
  bool has_last() const { return in_stroke_; }
  const Input& last() const { return last_; }
  bool save_active() const { return save_active_; }

  Op Next() {
    Src& s = c_.src;
    if (!init_ && o_.initial_reset) return MakeReset(false);
    if (!init_ && s.chance(1, 2)) return MakeReset(o_.bad && s.chance(1, 3));
    int k = s.weighted({60, o_.predicts ? 14 : 0, o_.saves ? 8 : 0,
                        o_.saves ? 8 : 0, o_.bad ? 16 : 0, o_.resets && calm_ == 0 ? 2 : 0,
                        o_.resets && calm_ < 2 ? 3 - 2 * calm_ : 0, o_.bad && o_.resets ? 3 : 0});
    switch (k) {
      case 0: return MakeUpdate();
      case 1: return {.kind = kPredict};
      case 2: return {.kind = kSave};
      case 3: return {.kind = kRestore};
      case 4: return MakeBad();
      case 5: return {.kind = kReset};
      case 6: return MakeReset(false);
      default: return MakeReset(true);
    }
  }

  Op MakeReset(bool bad) {
    Op op{.kind = kResetParams};
    op.params = GenParams(c_, u_, o_.params);
    op.why = bad ? "bad" : "ok";
    if (bad) op.params = Spoil(c_, op.params);
    return op;
  }

  // A call expected to be accepted.
  Op MakeUpdate() {
    Src& s = c_.src;
    Op op{.kind = kUpdate, .why = "next"};
    if (!in_stroke_) {
      double start = clock_;
      // A new stroke may start at any time, even before the previous one.
      if (s.chance(1, 4)) start = s.range(-4, 4) * 16 * u_.time_scale;
      if (o_.extremes && s.chance(1, 2)) {
        start = std::ldexp(s.chance(1, 2) ? 1 : -1, s.range(10, 30)) * u_.time_scale;
        if (s.chance(1, 8)) start = std::ldexp(s.chance(1, 2) ? 1 : -1, s.range(31, 1023));
      }
      gen_.emplace(c_, u_, o_.stroke, start);
      op.input = gen_->Next(Input::EventType::kDown);
      Enlarge(op.input);
      return op;
    }
    if (!gen_) gen_.emplace(c_, u_, o_.stroke, last_.time.Value());
    if (gen_->t < last_.time.Value()) gen_->t = last_.time.Value();
    if (s.below(16) == 15) return MakeAlmostDuplicate();
    static constexpr int kUpOdds[] = {12, 40, 300};
    bool up = s.below(kUpOdds[calm_]) == 11;
    op.input = gen_->Next(up ? Input::EventType::kUp : Input::EventType::kMove);
    if (SameInput(op.input, last_)) {
      gen_->t += u_.period;
      op.input.time = Time(gen_->t);
    }
    clock_ = gen_->t;
    Enlarge(op.input);
    return op;
  }

  void Enlarge(Input& in) {
    Src& s = c_.src;
    if (!o_.extremes || !s.chance(1, 32)) return;
    float v = std::ldexp(s.chance(1, 2) ? 1.f : -1.f, s.chance(1, 2) ? s.range(12, 38) : s.range(39, 127));
    if (s.chance(1, 16)) v = std::copysign(std::numeric_limits<float>::max(), v);
    (s.chance(1, 2) ? in.position.x : in.position.y) = v;
  }

  // The last input again, but for one field: not a duplicate.
  Op MakeAlmostDuplicate() {
    Src& s = c_.src;
    Op op{.kind = kUpdate, .input = last_, .why = "almost a duplicate"};
    if (op.input.event_type == Input::EventType::kDown) {
      op.input.event_type = Input::EventType::kMove;
      if (s.chance(1, 2)) return op;
    }
    auto other = [](float v) { return v < 0 ? 0.5f : v == 0.75f ? 0.25f : 0.75f; };
    switch (s.below(6)) {
      case 0: op.input.pressure = other(op.input.pressure); break;
      case 1: op.input.tilt = other(op.input.tilt); break;
      case 2: op.input.orientation = other(op.input.orientation); break;
      case 3: op.input.position.x += static_cast<float>(u_.length); break;
      case 4: op.input.position.y += static_cast<float>(u_.length); break;
      default: op.input.time = Time(op.input.time.Value() + u_.period / 64); break;
    }
    gen_->t = op.input.time.Value();
    clock_ = gen_->t;
    return op;
  }

  // A call expected to be rejected.
  Op MakeBad() {
    Src& s = c_.src;
    constexpr float nan = std::numeric_limits<float>::quiet_NaN();
    constexpr float inf = std::numeric_limits<float>::infinity();
    Op op{.kind = kUpdate};
    using E = Input::EventType;
    // Something plausible to spoil, without advancing the generator's path.
    op.input.event_type = in_stroke_ ? (s.chance(1, 3) ? E::kUp : E::kMove) : E::kDown;
    op.input.position = {static_cast<float>(s.range(-8, 8) * u_.length),
                         static_cast<float>(s.range(-8, 8) * u_.length)};
    double now = in_stroke_ ? last_.time.Value() : clock_;
    op.input.time = Time(now + u_.period);
    if (s.chance(1, 2)) {
      op.input.pressure = s.chance(1, 2) ? 0.5f : -1;
      op.input.tilt = s.chance(1, 2) ? 0.25f : -1;
      op.input.orientation = s.chance(1, 2) ? 1.f : -1;
    }
    switch (s.below(9)) {
      case 0:
        op.why = "wrong phase";
        op.input.event_type = in_stroke_ ? E::kDown : s.chance(1, 2) ? E::kUp : E::kMove;
        break;
      case 1:
        op.why = "duplicate";
        if (in_stroke_) op.input = last_;
        else op.input.event_type = E::kUp;
        break;
      case 2:
        op.why = "backwards";
        op.input.time = Time(now - u_.period * (1 + s.below(8)) / 4);
        if (in_stroke_ && s.chance(1, 4)) {
          op.input.time = Time(s.chance(1, 2) ? std::nextafter(now, -1e300) : now - u_.period * std::ldexp(1., -static_cast<int>(s.below(20))));
          if (op.input.time.Value() >= now) op.input.time = Time(now - u_.period);
        }
        if (!in_stroke_) op.input.event_type = E::kMove;
        break;
      case 3:
        op.why = "x not finite";
        op.input.position.x = s.chance(1, 2) ? nan : s.chance(1, 2) ? inf : -inf;
        break;
      case 4:
        op.why = "y not finite";
        op.input.position.y = s.chance(1, 2) ? nan : s.chance(1, 2) ? inf : -inf;
        break;
      case 5:
        op.why = "time not finite";
        op.input.time = Time(s.chance(1, 2) ? nan : s.chance(1, 2) ? inf : -inf);
        break;
      case 6:
      case 7:
        op.why = "too far";
        if (in_stroke_) {
          double n = params_.sampling_params.max_outputs_per_call;
          double dt = (n + 1 + s.below(3)) / params_.sampling_params.min_output_rate;
          op.input.time = Time(now + dt * 1.001);
        } else {
          op.input.event_type = E::kMove;
        }
        break;
      default: {
        op.why = "invalid event";
        // An enumerator which does not exist; the underlying type is int.
        static const int kBad[] = {3, -1, 100};
        op.input.event_type = static_cast<E>(s.pick(kBad));
        break;
      }
    }
    return op;
  }

  // To be called with the outcome of each operation.
  void Observe(const Op& op, const OpResult& r) {
    switch (op.kind) {
      case kUpdate:
        if (!r.ok()) break;
        if (op.input.event_type == Input::EventType::kDown) {
          in_stroke_ = true;
          save_active_ = false;
        } else if (op.input.event_type == Input::EventType::kUp) {
          in_stroke_ = false;
          clock_ = op.input.time.Value();
        }
        last_ = op.input;
        break;
      case kSave:
        save_active_ = true;
        saved_in_stroke_ = in_stroke_;
        saved_last_ = last_;
        break;
      case kRestore:
        if (save_active_) {
          in_stroke_ = saved_in_stroke_;
          last_ = saved_last_;
        }
        break;
      case kReset:
        if (r.ok()) {
          in_stroke_ = false;
          save_active_ = false;
        }
        break;
      case kResetParams:
        if (r.ok()) {
          init_ = true;
          in_stroke_ = false;
          save_active_ = false;
          params_ = op.params;
        }
        break;
      default:
        break;
    }
  }

 private:
  Case& c_;
  HistOpts o_;
  Units u_;
  bool init_ = false, in_stroke_ = false;
  bool save_active_ = false, saved_in_stroke_ = false;
  Input last_{}, saved_last_{};
  StrokeModelParams params_;
  double clock_ = 0;
  int calm_ = 0;
  std::optional<StrokeGen> gen_;
};

}  // namespace gen

#endif
