// Predict is pure: a modeler on which Predict is called everywhere against one
// on which it is never called.
#include "../hist.h"

using namespace gen;  // NOLINT

namespace {

std::vector<Result> Junk(Case& c) {
  std::vector<Result> v(c.src.below(5));
  for (auto& r : v) r.position = {7, 7};
  if (c.src.chance(1, 4)) v.reserve(200);
  return v;
}

void Run(Case& c) {
  HistOpts o;
  o.max_ops = 40;
  o.predicts = false;
  o.params.pred = kPredEnabled;
  if (c.src.chance(1, 8)) o.params.pred = kPredDisabled;
  o.params.small_limits = c.src.chance(1, 8);
  o.saves = c.src.chance(1, 2);
  o.bad = c.src.chance(1, 4);
  o.resets = c.src.chance(1, 4);
  HistoryGen g(c, o);
  FRESH_MODELER(with);
  FRESH_MODELER(without);
  int n = g.Length(2);
  int nonempty = 0, updates_after = 0;
  for (int i = 0; i < n; ++i) {
    Op op = g.Next();
    OpResult r = Exec(without, op);
    if (c.verbose) c.note("%s -> %d", Str(op).c_str(), static_cast<int>(r.code));
    OpResult r2 = Exec(with, op);
    char what[64];
    snprintf(what, sizeof what, "call %d, with predictions made before it", i);
    RequireSame(c, r, r2, what);
    g.Observe(op, r);
    if (nonempty && op.kind == kUpdate && r.ok()) ++updates_after;
    int k = c.src.weighted({2, 4, 2, 1});
    if (k > 0) {
      std::vector<Result> first = Junk(c);
      absl::StatusCode s1 = with.Predict(first).code();
      if (c.verbose) c.note("predict x%d -> %d (%zu results)", k, static_cast<int>(s1), first.size());
      if (!first.empty()) ++nonempty;
      for (int j = 1; j < k; ++j) {
        std::vector<Result> again = Junk(c);
        absl::StatusCode s2 = with.Predict(again).code();
        CHECK_THAT(c, s1 == s2, "repeated prediction: status %d, then %d", static_cast<int>(s1), static_cast<int>(s2));
        RequireSame(c, first, again, "repeated prediction");
        c.label("repeated");
      }
      if (i == n - 1) {
        std::vector<Result> clean;
        absl::StatusCode s3 = without.Predict(clean).code();
        CHECK_THAT(c, s1 == s3, "first prediction on the twin: status %d and %d", static_cast<int>(s1), static_cast<int>(s3));
        RequireSame(c, clean, first, "first prediction on the twin");
      }
    }
  }
  c.label_if(nonempty > 0, "non-empty prediction");
  c.label_if(g.initialized() && IsKalman(g.params()), "kalman");
  if (nonempty > 0 && updates_after > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C12",
    "Generated histories (2-40 calls) on two modelers, one of which also predicts up "
    "to three times after each call, into vectors with arbitrary contents; all other "
    "results, and repeated predictions, must be bit-identical. Non-trivial: an update "
    "was accepted after a non-empty prediction.",
    "The twin runs the same code, so this decides independence from Predict only",
    2200000, 25000000, Run};
