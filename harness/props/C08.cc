// Stylus values are interpolated at the nearest point of the recent raw path.
#include "poly.h"

using namespace ref;  // NOLINT

namespace {

void Run(Case& c) {
  Src& s = c.src;
  Units u = GenUnits(c);
  ParamOpts po;
  po.normal = kNo;
  po.mitigation = kNo;
  po.wobble = s.chance(1, 5) ? kYes : kNo;
  StrokeModelParams p = GenParams(c, u, po);
  const bool wobble = p.wobble_smoother_params.is_enabled;
  StrokeOpts so;
  so.tiny_dt = s.chance(1, 4);
  so.long_moves = 60;
  so.zero_dt = !wobble;
  so.all_known = !s.chance(1, 4);
  std::vector<Input> in = GenStroke(c, u, so);
  GenHugeGap(c, u, p, in);
  NoteCase(c, p, in);
  Dut m(c);
  MustReset(c, m, p);
  std::vector<Sample> path;
  bool unknown[3] = {};
  Result prev{};
  std::vector<Result> pred;
  int checked = 0, inner = 0, several = 0, wraps = 0, dropped = 0;
  size_t cap = p.stylus_state_modeler_params.max_input_samples;
  auto verify = [&](size_t i, const std::vector<Result>& rs, const char* what) {
    size_t n = std::min(cap, path.size());
    std::vector<Sample> w(path.end() - n, path.end());
    dropped += n < path.size();
    for (size_t j = 0; j < rs.size(); ++j) {
      const Result& r = rs[j];
      std::vector<Stretch> near = Nearest(w, D(r.position));
      std::string why;
      bool ok = false;
      for (const Stretch& st : near) ok = ok || Fits(r, w, st, unknown, &why);
      CHECK_THAT(c, ok, "%s after input %zu, result %zu (%s): %s (%zu admissible stretches)", what, i, j, Str(r).c_str(), why.c_str(), near.size());
      ++checked;
      if (near.size() == 1 && w.size() > 1) {
        const Sample &a = w[near[0].seg], &b = w[near[0].seg + 1];
        double spread = near[0].hi - near[0].lo;
        if (near[0].lo > 0.01 && near[0].hi < 0.99 && spread < 0.01) ++inner;
        if (!unknown[2] && std::fabs(a.field[2] - b.field[2]) > 3.2 && spread < 0.01) ++wraps;
      }
      several += near.size() > 1;
    }
  };
  for (size_t i = 0; i < in.size(); ++i) {
    Call call = Feed(m, in[i], i ? &prev : nullptr, i ? in[i - 1].time.Value() : 0, 0);
    CHECK_THAT(c, call.ok(), "update %zu refused", i);
    for (auto& x : call.out) c.note("    %s", Str(x).c_str());
    Sample z;
    z.pos = D(in[i].position);
    z.field[0] = in[i].pressure;
    z.field[1] = in[i].tilt;
    z.field[2] = in[i].orientation;
    for (int f = 0; f < 3; ++f) unknown[f] = unknown[f] || Unknown(z.field[f]);
    if (i == 0) {
      const Result& r = call.out[0];
      CHECK_THAT(c, SameBits(r.pressure, in[0].pressure) && SameBits(r.tilt, in[0].tilt) && SameBits(r.orientation, in[0].orientation),
                 "the down's result does not carry its values: %s", Str(r).c_str());
    } else if (wobble && in[i].event_type == Input::EventType::kMove) {
      if (call.steps == 0) throw pbt::Discard{};
      int n = call.steps;
      Anchor a = ImpliedAnchor(n > 1 ? call.out[n - 2] : prev, call.out[n - 1], p);
      z.pos = a.pos;
      z.pos_err = a.err;
    }
    path.push_back(z);
    if (i > 0) verify(i, call.out, "update");
    prev = call.out.back();
    if (in[i].event_type != Input::EventType::kUp && s.chance(1, 4)) {
      if (m.Predict(pred).ok()) verify(i, pred, "prediction");
    }
  }
  c.label_if(wobble, "smoothed");
  c.label_if(dropped > 0, "inputs left the window");
  c.label_if(several > 0, "equidistant stretches");
  c.label_if(wraps > 0, "orientation across 0");
  c.label_if(cap == 1, "window of one");
  c.label_if(unknown[0] || unknown[1] || unknown[2], "some field unknown");
  if (checked >= 3 && inner > 0 && !(unknown[0] && unknown[1] && unknown[2])) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C08",
    "A generated stroke with constant, ramping, random and sometimes unknown stylus values, "
    "windows of 1 to 20 inputs, with predictions. Each result's three values must fit one "
    "of the stretches of the polyline which are nearest within rounding. Non-trivial: at "
    "least three results, one of them with a single admissible stretch well inside a "
    "segment.",
    "Without stroke normal projection (see C10)|with smoothing, the polyline is that of the "
    "smoothed positions|equidistant points are all accepted",
    700000, 12000000, Run};
