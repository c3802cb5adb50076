// Unknown stylus values stay unknown, field by field, for the stroke only.
#include "poly.h"

using namespace ref;  // NOLINT

namespace {

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  StrokeModelParams p = GenParams(c, u, po);
  Dut m(c);
  MustReset(c, m, p);
  if (c.verbose) c.note("params: %s", Str(p).c_str());
  int strokes = s.range(1, 3);
  int sticky = 0, known = 0, mixed = 0;
  for (int k = 0; k < strokes; ++k) {
    StrokeOpts so;
    so.max_moves = 12;
    so.long_moves = 50;
    so.nan_stylus = true;
    so.all_known = s.chance(1, 4);
    std::vector<Input> in = GenStroke(c, u, so);
    // A few more unknown values, in single inputs.
    int holes = so.all_known ? 0 : s.below(4);
    for (int h = 0; h < holes; ++h) {
      Input& x = in[s.below(in.size())];
      static const float kBad[] = {-1, -1e-30f, std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity(), -3};
      float v = s.pick(kBad);
      switch (s.below(3)) {
        case 0: x.pressure = v; break;
        case 1: x.tilt = v; break;
        default: x.orientation = v;
      }
    }
    bool aborted = k + 1 < strokes && s.chance(1, 4);
    if (aborted && in.size() > 2) in.pop_back();
    if (c.verbose) {
      c.note("stroke %d", k);
      for (auto& i : in) c.note("  %s", Str(i).c_str());
    }
    bool unknown[3] = {};
    std::vector<Result> pred;
    for (size_t i = 0; i < in.size(); ++i) {
      std::vector<Result> out;
      if (i > 0 && in[i] == in[i - 1]) continue;  // made equal by the values above
      absl::Status st = m.Update(in[i], out);
      CHECK_THAT(c, st.ok(), "stroke %d, update %zu refused: %s", k, i, std::string(st.message()).c_str());
      float v[3] = {in[i].pressure, in[i].tilt, in[i].orientation};
      int before = unknown[0] + unknown[1] + unknown[2];
      for (int f = 0; f < 3; ++f) {
        if (unknown[f] && !Unknown(v[f])) ++sticky;
        unknown[f] = unknown[f] || Unknown(v[f]);
      }
      int n = unknown[0] + unknown[1] + unknown[2];
      if (n == 1 || n == 2) ++mixed;
      (void)before;
      if (i == 0) {
        CHECK_THAT(c, SameBits(out[0].pressure, v[0]) && SameBits(out[0].tilt, v[1]) && SameBits(out[0].orientation, v[2]),
                   "stroke %d: the down's result does not carry its values", k);
      }
      bool can_predict = in[i].event_type != Input::EventType::kUp && s.chance(1, 3);
      if (can_predict && m.Predict(pred).ok()) out.insert(out.end(), pred.begin(), pred.end());
      for (size_t j = i == 0 ? 1 : 0; j < out.size(); ++j) {
        const Result& r = out[j];
        float got[3] = {r.pressure, r.tilt, r.orientation};
        static const char* const kName[] = {"pressure", "tilt", "orientation"};
        for (int f = 0; f < 3; ++f) {
          if (unknown[f]) {
            CHECK_THAT(c, got[f] == -1, "stroke %d, input %zu: %s is %.9g although it was unknown in this stroke", k, i, kName[f], got[f]);
          } else {
            CHECK_THAT(c, got[f] >= 0, "stroke %d, input %zu: %s is %.9g although it was always known in this stroke", k, i, kName[f], got[f]);
            ++known;
          }
        }
      }
    }
    if (aborted) {
      absl::Status st = m.Reset();
      CHECK_THAT(c, st.ok(), "Reset() failed");
    }
  }
  c.label_if(sticky > 0, "known again after unknown");
  c.label_if(strokes > 1, "several strokes");
  c.label_if(mixed > 0, "one or two fields unknown");
  if ((sticky > 0 || mixed > 0) && known > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C09",
    "One to three generated strokes on one modeler, with fields unknown (negative, NaN, "
    "-inf, tiny negative) throughout, from some input on, or in single inputs, and "
    "predictions. Each field of each result is -1 exactly if the stroke had an unknown "
    "value of that field so far; a down's result carries the input's own values. "
    "Non-trivial: some field known again after it was unknown, or a mixture, and some "
    "known value.",
    "Known values are non-negative as documented",
    3500000, 40000000, Run};
