// A modeler with a past. The functional properties make no difference between
// a fresh modeler and one which was used, saved, restored, moved or asked for
// predictions, nor do rejected calls count. In a part of the cases Dut makes
// such calls before the stroke and between its inputs; to the property it looks
// like a plain StrokeModeler.
#ifndef INK_VERIF_DUT_H_
#define INK_VERIF_DUT_H_

#include "hist.h"

namespace gen {

class Dut {
 public:
  explicit Dut(Case& c) : c_(c), m_(NewModeler()) {
    noisy_ = c.src.chance(1, 4);
    c.label_if(noisy_, "with a past");
  }

  absl::Status Reset(const StrokeModelParams& p) {
    if (noisy_) Past(p);
    absl::Status s;
    saved_ = false;
    if (same_params_ && c_.src.chance(2, 3)) {
      if (in_stroke_ || c_.src.chance(1, 2)) {
        s = m_->Reset();
      } else {
        saved_ = true;  // possibly
      }
    } else {
      s = m_->Reset(p);
    }
    p_ = p;
    in_stroke_ = false;
    saved_here_ = held_ = false;
    return s;
  }

  absl::Status Update(const Input& in, std::vector<Result>& out) {
    if (noisy_) Noise(in);
    absl::Status s = m_->Update(in, out);
    if (s.ok()) {
      in_stroke_ = in.event_type != Input::EventType::kUp;
      if (in.event_type == Input::EventType::kDown) saved_ = held_ = false;
      last_ = in;
      saved_here_ = false;
    }
    return s;
  }

  absl::Status Predict(std::vector<Result>& out) { return m_->Predict(out); }

  absl::Status Reset() {
    saved_ = saved_here_ = held_ = in_stroke_ = false;
    return m_->Reset();
  }

  // The property's own saves; Noise() does not interfere until Release().
  void Save() {
    m_->Save();
    saved_ = saved_here_ = held_ = true;
    saved_last_ = last_;
    saved_in_stroke_ = in_stroke_;
  }
  void Restore() {
    m_->Restore();
    if (held_) {
      last_ = saved_last_;
      in_stroke_ = saved_in_stroke_;
      saved_here_ = true;
    }
  }
  // The saved state is not needed any more.
  void Release() { held_ = false; }

 private:
  void Note(const char* what) { c_.note("    (%s)", what); }

  // Some use before the stroke that counts.
  void Past(const StrokeModelParams& p) {
    Src& s = c_.src;
    if (s.chance(1, 4)) return;
    Units u = GenUnits(c_);
    StrokeModelParams q = p;
    same_params_ = !s.chance(1, 2);
    if (!same_params_) q = GenParams(c_, u);
    if (!m_->Reset(q).ok()) {
      same_params_ = false;
      return;
    }
    // Units which suit the parameters, more or less.
    if (same_params_) u.period = std::min(1e9, 2 / p.sampling_params.min_output_rate);
    StrokeOpts so;
    so.max_moves = 30;
    so.up = kAny;
    std::vector<Input> in = GenStroke(c_, u, so);
    std::vector<Result> out;
    for (const Input& i : in) {
      if (s.chance(1, 8)) m_->Save();
      if (s.chance(1, 16)) m_->Restore();
      if (s.chance(1, 8)) (void)m_->Predict(out);
      in_stroke_ = !m_->Update(i, out).ok() || i.event_type != Input::EventType::kUp;
    }
    if (c_.verbose) c_.note("  (before: %zu inputs, %s parameters)", in.size(), same_params_ ? "the same" : "other");
  }

  // Calls which must not matter.
  void Noise(const Input& next) {
    Src& s = c_.src;
    if (!s.chance(1, 4)) return;
    std::vector<Result> out(s.below(3));
    switch (s.below(8)) {
      case 0:
        Note("predict");
        (void)m_->Predict(out);
        break;
      case 1:
        if (held_) break;
        Note("save");
        m_->Save();
        saved_ = saved_here_ = true;
        break;
      case 2:
        if (saved_ && !saved_here_) break;
        Note("restore, nothing to undo");
        m_->Restore();
        break;
      case 3: {
        Note("rejected update");
        Input bad = next;
        int k = s.below(4);
        if (k == 0) bad.position.x = std::numeric_limits<float>::quiet_NaN();
        if (k == 1) bad.time = Time(std::numeric_limits<double>::infinity());
        if (k == 2) bad.event_type = static_cast<Input::EventType>(7);
        if (k == 3) bad.event_type = in_stroke_ ? Input::EventType::kDown : Input::EventType::kUp;
        (void)m_->Update(bad, out);
        break;
      }
      case 4: {
        if (!in_stroke_) break;
        Note("rejected update, too far away");
        Input bad = next;
        double n = p_.sampling_params.max_outputs_per_call + 2.;
        bad.event_type = s.chance(1, 2) ? Input::EventType::kUp : Input::EventType::kMove;
        bad.time = Time(last_.time.Value() + 1.01 * n / p_.sampling_params.min_output_rate);
        if (m_->Update(bad, out).ok()) c_.fail("an input too far away is accepted");
        break;
      }
      case 5: {
        // A detour: some inputs which are undone again.
        if (!in_stroke_ || held_) break;
        m_->Save();
        int n = s.range(1, 6);
        Input in = last_;
        double dt = std::max(next.time.Value() - last_.time.Value(), 0.25 / p_.sampling_params.min_output_rate);
        for (int i = 0; i < n; ++i) {
          in.event_type = i + 1 == n && s.chance(1, 2) ? Input::EventType::kUp : Input::EventType::kMove;
          in.time = Time(in.time.Value() + dt * s.below(5) / 2);
          in.position.x += (static_cast<int>(s.below(5)) - 2) * (next.position.x - last_.position.x + 1);
          in.position.y += (static_cast<int>(s.below(5)) - 2) * (next.position.y - last_.position.y + 1);
          if (s.chance(1, 4)) in.pressure = s.chance(1, 2) ? -1 : 0.3f;
          if (s.chance(1, 4)) in.tilt = s.chance(1, 2) ? -1 : 0.6f;
          if (s.chance(1, 4)) in.orientation = s.chance(1, 2) ? -1 : 2.f;
          (void)m_->Update(in, out);
          if (s.chance(1, 3)) (void)m_->Predict(out);
        }
        if (c_.verbose) c_.note("    (detour of %d inputs, undone)", n);
        m_->Restore();
        saved_ = saved_here_ = true;
        break;
      }
      case 6: {
        Note("moved");
        m_ = std::make_unique<StrokeModeler>(std::move(*m_));
        break;
      }
      default: {
        Note("reset with bad parameters");
        StrokeModelParams bad = p_;
        bad.sampling_params.min_output_rate = -1;
        (void)m_->Reset(bad);
        break;
      }
    }
  }

  Case& c_;
  std::unique_ptr<StrokeModeler> m_;
  bool noisy_;
  bool same_params_ = false;
  bool in_stroke_ = false, saved_ = false, saved_here_ = false, held_ = false;
  bool saved_in_stroke_ = false;
  StrokeModelParams p_;
  Input last_{}, saved_last_{};
};

inline void MustReset(Case& c, Dut& m, const StrokeModelParams& p) {
  absl::Status s = m.Reset(p);
  if (!s.ok()) c.fail("Reset refused valid parameters: %s", std::string(s.message()).c_str());
}

}  // namespace gen

#endif
