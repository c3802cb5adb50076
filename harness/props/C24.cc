// Stylus values never influence motion, nor each other.
#include "../dut.h"

using namespace gen;  // NOLINT

namespace {

float Other(Src& s, float v) {
  static const float kOdd[] = {-1, 0, 1, 0.5f, 7, 1e-30f, 1e30f, -0.f, -5, 3e38f};
  switch (s.weighted({3, 2, 1, 1, 1})) {
    case 0: return s.pick(kOdd);
    case 1: return static_cast<float>(s.below(1024)) / 256;
    case 2: return std::numeric_limits<float>::quiet_NaN();
    case 3: return s.chance(1, 2) ? std::numeric_limits<float>::infinity() : -std::numeric_limits<float>::infinity();
    default: return v;
  }
}

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  po.small_limits = s.chance(1, 8);
  StrokeModelParams p = GenParams(c, u, po);
  StrokeOpts so;
  so.long_moves = 60;
  so.nan_stylus = true;
  so.tiny_dt = true;
  std::vector<Input> in = GenStroke(c, u, so);
  // Which fields differ, from where on, and how.
  unsigned mask = 1 + s.below(7);
  if (s.chance(1, 3)) mask = 7;
  size_t from = s.chance(1, 3) ? s.below(in.size()) : 0;
  int how = s.weighted({3, 2, 2, 1});
  std::vector<Input> alt = in;
  for (size_t i = from; i < in.size(); ++i) {
    float* f[] = {&alt[i].pressure, &alt[i].tilt, &alt[i].orientation};
    for (int k = 0; k < 3; ++k) {
      if (!(mask >> k & 1)) continue;
      if (how == 0) {
        *f[k] = Other(s, *f[k]);
      } else if (how == 1) {
        *f[k] = -1;
      } else if (how == 2) {
        *f[k] = 0.375f;
      } else {
        *f[k] = i == from ? -1.f : *f[k];
      }
    }
  }
  // Inputs which differ in nothing but the stylus must not become identical.
  for (size_t i = 1; i < in.size(); ++i) {
    if (in[i].event_type == in[i - 1].event_type && Eq(in[i].position, in[i - 1].position) && Eq(in[i].time, in[i - 1].time)) {
      in[i].position.x += u.length;
      alt[i].position = in[i].position;
      // May now coincide with the next; then that one is moved in its turn.
    }
  }
  NoteCase(c, p, in);
  for (size_t i = 0; i < alt.size(); ++i) c.note("  alt: %s", Str(alt[i]).c_str());
  Dut m(c);
  FRESH_MODELER(n);
  MustReset(c, m, p);
  MustReset(c, n, p);
  size_t results = 0, predicted = 0, fields = 0;
  bool differ = false;
  auto compare = [&](const std::vector<Result>& a, const std::vector<Result>& b, const char* what, size_t i, bool down) {
    CHECK_THAT(c, a.size() == b.size(), "%s %zu: %zu results, %zu with other stylus values", what, i, a.size(), b.size());
    for (size_t j = 0; j < a.size(); ++j) {
      const Result &x = a[j], &y = b[j];
      bool motion = SameBits(x.position.x, y.position.x) && SameBits(x.position.y, y.position.y) && SameBits(x.velocity.x, y.velocity.x) && SameBits(x.velocity.y, y.velocity.y) &&
                    SameBits(x.acceleration.x, y.acceleration.x) && SameBits(x.acceleration.y, y.acceleration.y) && SameBits(x.time.Value(), y.time.Value());
      CHECK_THAT(c, motion, "%s %zu, result %zu: motion differs with other stylus values:\n  %s\n  %s", what, i, j, Str(x).c_str(), Str(y).c_str());
      const float xs[] = {x.pressure, x.tilt, x.orientation}, ys[] = {y.pressure, y.tilt, y.orientation};
      for (int k = 0; k < 3; ++k) {
        if (mask >> k & 1) {
          differ = differ || !SameBits(xs[k], ys[k]);
          continue;
        }
        CHECK_THAT(c, SameBits(xs[k], ys[k]), "%s %zu, result %zu: %s differs although only others were changed:\n  %s\n  %s", what, i, j, k == 0 ? "pressure" : k == 1 ? "tilt" : "orientation",
                   Str(x).c_str(), Str(y).c_str());
        if (xs[k] >= 0 && !down) ++fields;
      }
      ++results;
    }
  };
  for (size_t i = 0; i < in.size(); ++i) {
    std::vector<Result> a, b;
    absl::StatusCode ca = m.Update(in[i], a).code(), cb = n.Update(alt[i], b).code();
    CHECK_THAT(c, ca == cb, "update %zu: status %d, with other stylus values %d", i, static_cast<int>(ca), static_cast<int>(cb));
    compare(a, b, "update", i, i == 0);
    if (ca == absl::StatusCode::kOk && s.chance(1, 4)) {
      ca = m.Predict(a).code(), cb = n.Predict(b).code();
      CHECK_THAT(c, ca == cb, "prediction %zu: status %d, with other stylus values %d", i, static_cast<int>(ca), static_cast<int>(cb));
      compare(a, b, "prediction", i, false);
      predicted += a.size();
    }
  }
  c.label_if(predicted > 0, "predictions compared");
  c.label_if(fields > 0, "known fields left alone");
  c.label_if(mask == 7, "all fields changed");
  c.label_if(p.position_modeler_params.loop_contraction_mitigation_params.is_enabled, "mitigation");
  c.label_if(p.stylus_state_modeler_params.use_stroke_normal_projection, "stroke normal projection");
  c.label_if(p.wobble_smoother_params.is_enabled, "smoothed");
  if (results >= 4 && differ) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C24",
    "A generated stroke and the same stroke with some or all of its stylus values replaced "
    "(other, constant, unknown, NaN, infinite, unknown only once), each modeled with the same "
    "generated parameters and predictions. Statuses, numbers of results, positions, velocities, "
    "accelerations and times must be identical, and so must the stylus fields left alone. "
    "Non-trivial: at least four results, some of them with different stylus values.",
    "No two consecutive inputs differ in the stylus values only",
    1500000, 20000000, Run};
