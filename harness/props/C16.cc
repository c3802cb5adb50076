// A stroke's results depend on its parameters and inputs only.
#include <atomic>
#include <thread>

#include "../hist.h"

using namespace gen;  // NOLINT

namespace {

void Run(Case& c) {
  HistOpts o;
  o.max_ops = 40;
  o.params.small_limits = c.src.chance(1, 4);
  HistoryGen g(c, o);
  auto used = NewModeler();
  int n = g.Length(1);
  int updates = 0;
  for (int i = 0; i < n; ++i) {
    Op op = g.Next();
    OpResult r = Exec(*used, op);
    if (c.verbose) c.note("%s -> %d", Str(op).c_str(), static_cast<int>(r.code));
    g.Observe(op, r);
    updates += op.kind == kUpdate && r.ok();
  }
  // Now the stroke that counts, possibly with other parameters.
  if (g.in_stroke() && c.src.chance(2, 3)) {
    Op op{.kind = kUpdate, .why = "end"};
    op.input = g.last();
    op.input.event_type = Input::EventType::kUp;
    op.input.time = Time(op.input.time.Value() + g.units().period);
    OpResult r = Exec(*used, op);
    if (c.verbose) c.note("%s -> %d", Str(op).c_str(), static_cast<int>(r.code));
    g.Observe(op, r);
  }
  StrokeModelParams p = g.params();
  Units u = g.units();
  bool reset_needed = g.in_stroke();
  int how = c.src.below(3);
  // What was moved from can be used again once it has parameters.
  std::unique_ptr<StrokeModeler> sink;
  if (c.src.chance(1, 12)) {
    sink = std::make_unique<StrokeModeler>(std::move(*used));
    how = 2;
    c.label("moved-from object reused");
  }
  if (how == 2) {
    u = GenUnits(c);
    p = GenParams(c, u, o.params);
    MustReset(c, *used, p);
    c.label("new parameters");
  } else if (how == 1 || reset_needed) {
    c.label(reset_needed ? "stroke aborted by reset" : "reset");
    absl::Status s = used->Reset();
    CHECK_THAT(c, s.ok(), "Reset() failed");
  } else {
    c.label("no reset");
  }
  StrokeOpts so;
  so.max_moves = 24;
  std::vector<Input> stroke = GenStroke(c, u, so);
  std::vector<Input> other_stroke = GenStroke(c, u, so);
  if (c.verbose) {
    c.note("then:");
    NoteCase(c, p, stroke);
  }
  FRESH_MODELER(fresh);
  FRESH_MODELER(other);
  MustReset(c, fresh, p);
  bool interleave = c.src.chance(1, 2);
  if (interleave) {
    // Another modeler, with other parameters, used at the same time.
    MustReset(c, other, GenParams(c, u, o.params));
  }
  size_t k = 0;
  int results = 0, predicted = 0;
  std::vector<Result> accumulated, ignored;
  if (c.src.chance(1, 48)) accumulated.resize(c.src.range(50, 5000), Result{.position = {1, 2}, .pressure = .5f});
  // The fresh modeler goes along, or is used when all is over.
  struct Step {
    absl::StatusCode status, predict_status;
    std::vector<Result> results, prediction;
    bool predict = false;
  };
  auto compare = [&](const Input& in, const Step& x) {
    std::vector<Result> b, pb;
    absl::StatusCode sb = fresh.Update(in, b).code();
    CHECK_THAT(c, x.status == sb, "%s: status %d, on a fresh modeler %d", Str(in).c_str(), static_cast<int>(x.status), static_cast<int>(sb));
    RequireSame(c, b, x.results, "update, compared with a fresh modeler");
    if (!x.predict) return;
    sb = fresh.Predict(pb).code();
    CHECK_THAT(c, x.predict_status == sb, "prediction: status %d, on a fresh modeler %d", static_cast<int>(x.predict_status), static_cast<int>(sb));
    RequireSame(c, pb, x.prediction, "prediction, compared with a fresh modeler");
  };
  bool along = c.src.chance(1, 2);
  std::vector<Step> steps;
  for (const Input& in : stroke) {
    if (interleave && k < other_stroke.size()) {
      (void)other.Update(other_stroke[k++], ignored);
      if (c.src.chance(1, 2)) (void)other.Predict(ignored);
    }
    if (c.src.chance(1, 16)) {
      if (sink != nullptr && c.src.chance(1, 2)) {
        // To an object with a past; what is left of this one is the next one's.
        *sink = std::move(*used);
        std::swap(sink, used);
        c.label("move-assigned");
      } else {
        auto moved = std::make_unique<StrokeModeler>(std::move(*used));
        sink = std::move(used);
        used = std::move(moved);
      }
      c.label("moved");
    }
    Step x;
    size_t before = accumulated.size();
    std::vector<Result> earlier(accumulated.end() - std::min<size_t>(before, 40), accumulated.end());
    x.status = used->Update(in, accumulated).code();
    CHECK_THAT(c, accumulated.size() >= before, "update removed earlier results");
    for (size_t i = 0; i < earlier.size(); ++i) {
      CHECK_THAT(c, Same(earlier[i], accumulated[before - earlier.size() + i]), "update changed an earlier result");
    }
    x.results.assign(accumulated.begin() + before, accumulated.end());
    if (c.src.chance(1, 6)) accumulated.clear();
    if (c.src.chance(1, 8)) accumulated.shrink_to_fit();
    x.predict = c.src.chance(1, 2);
    if (x.predict) {
      x.prediction.resize(c.src.chance(1, 64) ? c.src.range(3, 3000) : c.src.below(3));
      x.predict_status = used->Predict(x.prediction).code();
    }
    results += x.results.size();
    predicted += x.predict && !x.prediction.empty();
    if (along) compare(in, x);
    steps.push_back(std::move(x));
  }
  for (size_t i = 0; i < stroke.size() && !along; ++i) compare(stroke[i], steps[i]);
  c.label(along ? "fresh modeler along" : "fresh modeler afterwards");
  c.label_if(predicted > 0, "non-empty predictions");
  c.label_if(interleave, "interleaved with another modeler");
  if (updates >= 2 && results >= 3) c.nontrivial();
}

#ifdef INK_VERIF_THREADS
// Several modelers, each in a thread of its own: no data race (ThreadSanitizer
// ends the process on one), and the same results as one after the other.
void RunThreads(Case& c) {
  struct Script {
    std::vector<Op> ops;
    std::vector<OpResult> results;
    bool same = true;
  };
  int n = c.src.range(2, 4);
  std::vector<Script> scripts(n);
  for (Script& sc : scripts) {
    HistOpts o;
    o.max_ops = 30;
    HistoryGen g(c, o);
    auto m = NewModeler();
    int len = g.Length(4);
    for (int i = 0; i < len; ++i) {
      Op op = g.Next();
      OpResult r = Exec(*m, op);
      g.Observe(op, r);
      if (c.verbose) c.note("thread %d: %s -> %d", static_cast<int>(&sc - &scripts[0]), Str(op).c_str(), static_cast<int>(r.code));
      sc.ops.push_back(op);
      sc.results.push_back(r);
    }
  }
  std::atomic<int> waiting{n};
  std::vector<std::thread> threads;
  for (Script& sc : scripts) {
    threads.emplace_back([&sc, &waiting] {
      waiting.fetch_sub(1, std::memory_order_relaxed);
      while (waiting.load(std::memory_order_relaxed) > 0) std::this_thread::yield();
      for (int k = 0; k < 2; ++k) {
        auto m = NewModeler();
        for (size_t i = 0; i < sc.ops.size(); ++i) {
          OpResult r = Exec(*m, sc.ops[i]);
          if (r.code != sc.results[i].code || !Same(r.results, sc.results[i].results)) sc.same = false;
        }
      }
    });
  }
  for (std::thread& t : threads) t.join();
  for (Script& sc : scripts) CHECK_THAT(c, sc.same, "results differ when other modelers are used in other threads");
  c.label("threads");
  c.nontrivial();
}
#endif

}  // namespace

#ifdef INK_VERIF_THREADS
#define Run RunThreads
#endif
const pbt::PropertyInfo pbt::kProperty = {
    "C16",
    "A generated history (1-40 calls: strokes, aborted strokes, errors, parameter "
    "changes, saves, predictions) followed by a generated stroke, which is repeated on "
    "a fresh modeler; interleaved with another modeler, with moves of the object and "
    "arbitrary vector contents. All results bit-identical. A second stage runs 2-4 modelers "
    "in parallel threads under ThreadSanitizer. Non-trivial: at least two "
    "updates in the history and three results in the stroke.",
    "Single-threaded use of each modeler, as the library offers no synchronization; different modelers also in different threads, under ThreadSanitizer",
    2000000, 20000000, Run};
