// Acceptance of calls: an independent model of the protocol, run side by side
// with the modeler over generated histories.
#include "../hist.h"
#include "../ref.h"

using namespace gen;  // NOLINT

namespace {

struct Model {
  bool init = false, stroke = false;
  bool save = false, save_stroke = false;
  StrokeModelParams params;
  Input last{}, save_last{};
  // Positions of the stroke whose squares or motion may exceed float's range.
  bool enormous = false;
};

// What may be returned: a set of codes.
struct Expect {
  bool ok = false, precondition = false, invalid = false;
  bool may(absl::StatusCode code) const {
    switch (code) {
      case absl::StatusCode::kOk: return ok;
      case absl::StatusCode::kFailedPrecondition: return precondition;
      case absl::StatusCode::kInvalidArgument: return invalid;
      default: return false;
    }
  }
};

bool Within(Vec2 v, float limit) { return std::fabs(v.x) < limit && std::fabs(v.y) < limit; }
bool Enormous(Vec2 position) { return !Within(position, 1e12f); }

Expect ExpectUpdate(Case& c, const Model& m, const Input& in) {
  Expect e;
  if (!m.init) e.precondition = true;
  bool known = in.event_type == Input::EventType::kDown ||
               in.event_type == Input::EventType::kMove ||
               in.event_type == Input::EventType::kUp;
  if (!known || !std::isfinite(in.position.x) || !std::isfinite(in.position.y) ||
      !std::isfinite(in.time.Value())) {
    e.invalid = true;
  }
  bool down = in.event_type == Input::EventType::kDown;
  if (known && m.init && down == m.stroke) e.precondition = true;
  if (m.stroke) {
    if (SameInput(in, m.last)) e.invalid = true;
    if (in.time.Value() < m.last.time.Value()) e.invalid = true;
    if (!e.invalid && !e.precondition) {
      const auto& s = m.params.sampling_params;
      ref::IntRange n =
          ref::RateSteps(in.time.Value() - m.last.time.Value(), s.min_output_rate);
      double max = s.max_outputs_per_call;
      if (n.lo > max) {
        e.invalid = true;
        c.label("too far apart");
      } else if (n.hi > max) {
        e.invalid = e.ok = true;
      } else if (m.enormous || Enormous(in.position)) {
        e.invalid = e.ok = true;  // the estimate of the turn may overflow
      } else if (s.max_estimated_angle_to_traverse_per_input > 0 &&
                 std::ceil(3.2 / s.max_estimated_angle_to_traverse_per_input) > max) {
        e.invalid = e.ok = true;  // decided in C07
      }
      if (n.lo == max && n.hi == max) c.label("exactly at the limit");
    }
  }
  if (!e.invalid && !e.precondition) e.ok = true;
  return e;
}

void Run(Case& c) {
  HistOpts o;
  o.max_ops = 60;
  o.initial_reset = c.src.chance(4, 5);
  o.params.small_limits = true;
  o.params.dyadic_rate = c.src.chance(1, 2);
  o.stroke.dyadic = o.params.dyadic_rate;
  o.stroke.nan_stylus = false;
  o.stroke.max_pause = 40;
  o.extremes = true;
  HistoryGen g(c, o);
  FRESH_MODELER(m);
  Model model;
  int rejected = 0, accepted = 0;
  int n = g.Length(1);
  std::vector<Result> sentinel(3);
  for (int i = 0; i < n; ++i) {
    Op op = g.Next();
    Expect e;
    switch (op.kind) {
      case kUpdate:
        e = ExpectUpdate(c, model, op.input);
        break;
      case kPredict:
        e.ok = model.init && model.stroke && !IsPredDisabled(model.params);
        e.precondition = !e.ok;
        break;
      case kReset:
        e.ok = model.init;
        e.precondition = !e.ok;
        break;
      case kResetParams:
        e.ok = op.why[0] == 'o';
        e.invalid = !e.ok;
        break;
      default:
        e.ok = true;
    }
    if (op.kind == kUpdate && Enormous(op.input.position) && Within(op.input.position, INFINITY)) {
      c.label(op.input.event_type == Input::EventType::kDown ? "enormous position (down)" : "enormous position");
    }
    OpResult r = Exec(m, op);
    if (c.verbose) c.note("%s -> %d", Str(op).c_str(), static_cast<int>(r.code));
    if (!e.may(r.code)) {
      c.fail("call %d: %s returned status code %d; allowed:%s%s%s", i,
             Str(op).c_str(), static_cast<int>(r.code), e.ok ? " OK" : "",
             e.precondition ? " FailedPrecondition" : "",
             e.invalid ? " InvalidArgument" : "");
    }
    g.Observe(op, r);
    if (op.kind == kUpdate) c.label(r.ok() ? "update accepted" : std::string("rejected: ") + op.why);
    if (op.kind == kPredict) c.label(r.ok() ? "predict accepted" : "predict rejected");
    if (!r.ok()) {
      ++rejected;
      continue;
    }
    ++accepted;
    switch (op.kind) {
      case kUpdate:
        if (op.input.event_type == Input::EventType::kDown) {
          model.stroke = true;
          model.save = false;
          model.enormous = false;
        } else if (op.input.event_type == Input::EventType::kUp) {
          model.stroke = false;
        }
        model.last = op.input;
        if (Enormous(op.input.position)) model.enormous = true;
        for (const Result& x : r.results) {
          if (!(Within(x.position, 1e20f) && Within(x.velocity, 1e20f))) model.enormous = true;
        }
        break;
      case kSave:
        model.save = true;
        model.save_stroke = model.stroke;
        model.save_last = model.last;
        break;
      case kRestore:
        if (model.save) {
          c.label(model.stroke != model.save_stroke ? "restore across up/down" : "restore");
          model.stroke = model.save_stroke;
          model.last = model.save_last;
        }
        break;
      case kResetParams:
        model.params = op.params;
        model.init = true;
        [[fallthrough]];
      case kReset:
        c.label_if(model.stroke, "reset during a stroke");
        model.stroke = false;
        model.save = false;
        break;
      default:
        break;
    }
  }
  if (rejected > 0 && accepted >= 3) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C01",
    "Generated call histories (1-60 calls: updates that follow the protocol, nine "
    "kinds of malformed updates, predictions, saves, restores, resets with valid "
    "and invalid parameters), checked call by call against an independent protocol "
    "model. Non-trivial: at least one call rejected and at least three accepted.",
    "A call that violates several conditions at once may report the code of any of them|"
    "the number of samples needed is decided within float rounding of the time "
    "difference, and exactly for exactly representable times|in a stroke with positions "
    "beyond 1e12, moves and ups may also be refused as enormous (the state may overflow)",
    3000000, 40000000, Run};
