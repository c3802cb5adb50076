// The work of a call does not grow with the length of a session.
#include "../session.h"

namespace {
// Edges of the control flow taken inside the library: deterministic, unlike time.
long g_work = 0;
}  // namespace

extern "C" void __sanitizer_cov_trace_pc() { ++g_work; }

using namespace session;  // NOLINT

namespace {

#if __has_feature(address_sanitizer)
constexpr long kMostWork = 20'000'000;
#else
constexpr long kMostWork = 200'000'000;  // a second or so
#endif

struct Block {
  double work = 0, results = 0;
};

void Run(Case& c) {
  Plan p = GenPlan(c);
  if (!p.strokes && p.params.position_modeler_params.loop_contraction_mitigation_params.is_enabled) {
    // The angle option would let the number of results in the window of speeds
    // depend on the state of the tip, which need not settle.
    p.params.sampling_params.max_estimated_angle_to_traverse_per_input = -1;
    c.note("(with the angle option off)");
  }
  const int n = 6;  // repetitions measured
  const double inputs = p.inputs * n;
  auto m = NewModeler();
  if (!m->Reset(p.params).ok()) c.fail("Reset refused valid parameters");
  double offset = 0;
  if (!p.strokes) {
    std::vector<Result> results;
    if (!m->Update(p.cycle[0], results).ok()) c.fail("down refused");
  }
  auto measure = [&] {
    Block b;
    long before = g_work;
    Repeat(*m, p, offset, n, [&](size_t results) { b.results += results; });
    b.work = g_work - before;
    return b;
  };
  auto too_much = [&](size_t) {
    if (g_work > kMostWork) throw pbt::Discard{};
  };
  g_work = 0;
  Repeat(*m, p, offset, p.warm, too_much);
  Block first = measure();
  if (first.work <= 0) c.fail("no work counted: the library was built without instrumentation");
  if (first.work / n * p.more > kMostWork) throw pbt::Discard{};
  int more = 0;
  g_work = 0;
  for (; more < p.more && g_work < 2 * kMostWork; more += 2) Repeat(*m, p, offset, 2, [](size_t) {});
  Block later = measure();
  // Each input costs a part of its own and a part for each of its results, which
  // depends on the number of results in a window: where the numbers of results
  // differ much, the work is not comparable.
  double ratio = std::max(1., (later.results + inputs) / (first.results + inputs));
  if (ratio > 1.5) throw pbt::Discard{};
  double limit = 3 * first.work * ratio * ratio + 2000;
  CHECK_THAT(c, later.work <= limit, "%.0f branches for %.0f inputs and %.0f results, %.0f branches for as many inputs and %.0f results after %d repetitions more (allowed: %.0f)",
             first.work, inputs, first.results, later.work, later.results, more, limit);
  Describe(c, p);
  if (p.inputs >= 3 && later.results > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C27",
    "A generated stroke (or series of strokes with resets between them) repeated until "
    "every window of the generated parameters is full; then the work of six repetitions is "
    "compared with the work of six repetitions at least 6000 inputs (and ten times as many "
    "repetitions) later. Work is the number of edges of the control flow graph taken in "
    "the library, counted by instrumentation, so that it does not depend on the machine. "
    "Non-trivial: the repeated part has at least three inputs and gives results.",
    "Three times the work is allowed, so that rounding may move inputs and results into or "
    "out of a window, and cases in which the stroke comes to give many more results are left out|the angle option "
    "is off in long strokes with mitigation|copies of memory, which have no branches "
    "in the library itself, are not counted",
    6000, 100000, Run};
