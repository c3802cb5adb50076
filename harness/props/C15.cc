// Save/Restore against a modeler that is rebuilt, without Save and Restore, from
// the updates which count.
#include "../hist.h"

using namespace gen;  // NOLINT

namespace {

void Run(Case& c) {
  HistOpts o;
  o.max_ops = 56;
  o.bad = c.src.chance(1, 3);
  o.resets = c.src.chance(1, 3);
  o.params.small_limits = c.src.chance(1, 8);
  HistoryGen g(c, o);
  FRESH_MODELER(a);
  auto b = NewModeler();
  // Since the last accepted Reset: the updates which have not been undone.
  std::vector<Input> effective;
  StrokeModelParams params;
  bool init = false, save_active = false;
  size_t saved = 0;
  int restores = 0, undone = 0, updates_after_restore = 0;
  int n = g.Length(3);
  for (int i = 0; i < n; ++i) {
    Op op;
    // Saves and restores in quick succession matter, so add some.
    if (g.in_stroke() && c.src.chance(1, 10)) {
      op.kind = c.src.chance(2, 3) ? kRestore : kSave;
    } else {
      op = g.Next();
    }
    OpResult r = Exec(a, op);
    if (c.verbose) c.note("%s -> %d", Str(op).c_str(), static_cast<int>(r.code));
    char what[96];
    snprintf(what, sizeof what, "call %d, compared with a modeler that never saw what was undone", i);
    if (op.kind == kSave) {
      save_active = true;
      saved = effective.size();
    } else if (op.kind == kRestore) {
      if (save_active && init) {
        ++restores;
        if (effective.size() != saved) {
          undone += 1;
          c.label("undone updates");
          c.label_if(!g.in_stroke(), "undone up");
        } else {
          c.label("restore without updates in between");
        }
        effective.resize(saved);
        b = NewModeler();
        MustReset(c, *b, params);
        std::vector<Result> ignored;
        for (const Input& in : effective) {
          absl::Status s = b->Update(in, ignored);
          CHECK_THAT(c, s.ok(), "an update accepted earlier is rejected by a fresh modeler: %s", Str(in).c_str());
        }
      } else {
        c.label("restore without save");
      }
    } else {
      OpResult rb = Exec(*b, op);
      RequireSame(c, rb, r, what);
      if (r.ok()) {
        if (op.kind == kUpdate) {
          if (op.input.event_type == Input::EventType::kDown) save_active = false;
          effective.push_back(op.input);
          if (restores) ++updates_after_restore;
        } else if (op.kind == kReset || op.kind == kResetParams) {
          effective.clear();
          save_active = false;
          if (op.kind == kResetParams) {
            params = op.params;
            init = true;
          }
        }
      }
    }
    g.Observe(op, r);
    // Compare predictions, too (they show the predictor's state).
    if (c.src.chance(1, 3)) {
      std::vector<Result> pa, pb;
      absl::StatusCode sa = a.Predict(pa).code(), sb = b->Predict(pb).code();
      CHECK_THAT(c, sa == sb, "prediction after call %d: status %d instead of %d", i, static_cast<int>(sa), static_cast<int>(sb));
      RequireSame(c, pb, pa, "prediction");
    }
  }
  c.label_if(restores > 1, "several restores");
  c.label_if(init && g.params().wobble_smoother_params.is_enabled, "wobble");
  if (undone > 0 && updates_after_restore > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C15",
    "Generated histories (3-56 calls) with saves and restores; after each restore a "
    "fresh modeler is given only the updates that have not been undone, and from then "
    "on both must return bit-identical results, statuses and predictions. Non-trivial: "
    "a restore undid at least one update and an update was accepted afterwards.",
    "A saved state belongs to the stroke it was saved in: starting a new stroke or "
    "resetting discards it|the twin runs the same code without Save and Restore",
    1200000, 15000000, Run};
