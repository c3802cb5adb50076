// Rejected calls leave no trace: one modeler gets the whole history, a twin only
// the calls which the first one accepted.
#include "../hist.h"

using namespace gen;  // NOLINT

namespace {

void Run(Case& c) {
  HistOpts o;
  o.max_ops = 48;
  o.initial_reset = c.src.chance(7, 8);
  o.params.small_limits = c.src.chance(1, 2);
  HistoryGen g(c, o);
  FRESH_MODELER(a);
  FRESH_MODELER(b);
  int rejected_in_stroke = 0, after = 0;
  int n = g.Length(2);
  std::vector<Result> va, vb, stroke;
  for (int i = 0; i < n; ++i) {
    Op op = g.Next();
    bool was_in_stroke = g.in_stroke();
    // The first modeler's vector has contents, which must survive an update.
    OpResult ra;
    std::vector<Result> before(c.src.below(4));
    for (size_t k = 0; k < before.size(); ++k) {
      before[k].position = {static_cast<float>(k) + 0.5f, -1.f};
      before[k].time = Time(1e9 + k);
      before[k].pressure = 0.125f;
    }
    // Possibly they are those of the stroke so far.
    if (c.src.chance(1, 4)) before.insert(before.end(), stroke.end() - std::min<size_t>(stroke.size(), 40), stroke.end());
    va = before;
    if (op.kind == kUpdate) {
      ra.code = a.Update(op.input, va).code();
    } else if (op.kind == kPredict) {
      ra.code = a.Predict(va).code();
    } else {
      ra = Exec(a, op);
    }
    if (c.verbose) c.note("%s -> %d", Str(op).c_str(), static_cast<int>(ra.code));
    if (op.kind == kUpdate) {
      CHECK_THAT(c, va.size() >= before.size(), "call %d: update removed results", i);
      for (size_t k = 0; k < before.size(); ++k) {
        CHECK_THAT(c, Same(va[k], before[k]), "call %d: update changed earlier results", i);
      }
      va.erase(va.begin(), va.begin() + before.size());
      if (op.input.event_type == Input::EventType::kDown) stroke.clear();
      stroke.insert(stroke.end(), va.begin(), va.end());
      if (!ra.ok()) CHECK_THAT(c, va.empty(), "call %d: rejected update added results: %s", i, Str(op).c_str());
    }
    if (op.kind == kPredict && !ra.ok()) {
      CHECK_THAT(c, va.empty(), "call %d: rejected prediction left results", i);
    }
    g.Observe(op, ra);
    if (!ra.ok()) {
      if (was_in_stroke) ++rejected_in_stroke;
      c.label(op.kind == kUpdate ? std::string("rejected update: ") + op.why
              : op.kind == kPredict ? "rejected predict"
                                    : "rejected reset");
      continue;
    }
    if (rejected_in_stroke && op.kind == kUpdate) ++after;
    OpResult rb = Exec(b, op);
    char what[64];
    snprintf(what, sizeof what, "call %d, with the rejected calls left out", i);
    CHECK_THAT(c, rb.ok(), "call %d (%s) is accepted only with the rejected calls in front of it", i, Str(op).c_str());
    if (op.kind == kUpdate || op.kind == kPredict) {
      RequireSame(c, rb.results, va, what);
    }
  }
  // Whatever state there is must agree at the end, too.
  absl::StatusCode ca = a.Predict(va).code(), cb = b.Predict(vb).code();
  CHECK_THAT(c, ca == cb, "final prediction: status %d and %d", static_cast<int>(ca), static_cast<int>(cb));
  RequireSame(c, vb, va, "final prediction");
  if (after >= 1) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C02",
    "Generated call histories (2-48 calls) on two modelers: one gets all calls, the "
    "other only those the first accepted; all results must be bit-identical, vectors "
    "unmodified by rejected updates and empty after rejected predictions. "
    "Non-trivial: an update is accepted after a call was rejected during a stroke.",
    "The twin runs the same code, so this decides independence from rejected calls only",
    3500000, 40000000, Run};
