// Loop mitigation blends tip and raw path by recent speed, and nothing else.
#include "poly.h"

using namespace ref;  // NOLINT

namespace {

struct Speed {
  double speed, time;
};

// The weights which the recent speeds admit.
struct Weight {
  double lo, hi;
  int reading = 3;  // 1: as implemented, 2: as documented
};

std::vector<Weight> Weights(const std::vector<Speed>& h, const StrokeModelParams& p, double grid) {
  const auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  if (h.empty()) return {{1, 1}};
  std::vector<Weight> out;
  const double win = l.min_speed_sampling_window.Value();
  const size_t min_n = l.min_discrete_speed_samples;
  auto add = [&](size_t first, int reading) {
    double sum = 0;
    for (size_t i = first; i < h.size(); ++i) sum += h[i].speed;
    size_t n = h.size() - first;
    double avg = sum / n, err = (n + 8) * kEpsF * avg;
    double lo = l.speed_lower_bound, hi = l.speed_upper_bound;
    double s0 = l.interpolation_strength_at_speed_lower_bound, s1 = l.interpolation_strength_at_speed_upper_bound;
    if (lo == hi) {
      // No range to interpolate over: either strength.
      out.push_back({s0, s0, reading});
      out.push_back({s1, s1, reading});
      return;
    }
    double extra = 4 * kEpsF * hi / (hi - lo);
    double r0 = std::clamp((avg - err - lo) / (hi - lo) - extra, 0., 1.);
    double r1 = std::clamp((avg + err - lo) / (hi - lo) + extra, 0., 1.);
    out.push_back({s0 + (s1 - s0) * r1 - 2 * kEpsF, s0 + (s1 - s0) * r0 + 2 * kEpsF, reading});
  };
  // As implemented: drop the oldest while the rest would still be enough
  // samples and the whole is longer than the window.
  double now = h.back().time;
  double eps = 1e-13 * std::fabs(now) + 1e-12 * win;
  // Differences of times on the grid are exact; others depend on how they are computed.
  auto on_grid = [&](double t) { return grid > 0 && t / grid == std::floor(t / grid); };
  size_t seen[3] = {};
  int k = 0;
  for (double slack : {0., eps, -eps}) {
    size_t f = 0;
    while (h.size() - f > min_n && now - h[f].time > win + (on_grid(now) && on_grid(h[f].time) ? 0 : slack)) ++f;
    bool dup = false;
    for (int i = 0; i < k; ++i) dup = dup || seen[i] == f;
    if (!dup) add(f, f > 0 ? 1 : 3);
    seen[k++] = f;
    // As documented: one more, so that the rest spans at least the window.
    if (f > 0) add(f - 1, 2);
  }
  return out;
}

double MissOne(double got, double t, double q, Weight w, double tol) {
  double a = q + w.lo * (t - q), b = q + w.hi * (t - q);
  double lo = std::min(a, b) - tol, hi = std::max(a, b) + tol;
  return got < lo ? lo - got : got > hi ? got - hi : 0;
}

// How far the result is from the blend; 0 if within tolerance.
double Miss(const Result& r, const Result& t, const Result& q, Weight w) {
  double m = 0;
  auto vec = [&](Vec2 g, Vec2 x, Vec2 y) {
    double tol = 6 * kEpsF * (Len(D(x)) + Len(D(y))) + 1e-37;
    m = std::max(m, MissOne(g.x, x.x, y.x, w, tol));
    m = std::max(m, MissOne(g.y, x.y, y.y, w, tol));
  };
  vec(r.position, t.position, q.position);
  vec(r.velocity, t.velocity, q.velocity);
  vec(r.acceleration, t.acceleration, q.acceleration);
  return m;
}

void Run(Case& c) {
  Src& s = c.src;
  bool dyadic = s.chance(1, 2);
  Units u = GenUnits(c, {.dyadic = dyadic});
  ParamOpts po;
  po.normal = kYes;
  po.mitigation = kYes;
  po.dyadic_rate = dyadic;
  po.wobble = s.chance(1, 3) ? kYes : kNo;
  StrokeModelParams p = GenParams(c, u, po);
  auto& l = p.position_modeler_params.loop_contraction_mitigation_params;
  StrokeOpts so;
  so.dyadic = dyadic;
  so.long_moves = 60;
  so.all_known = true;
  std::vector<Input> in = GenStroke(c, u, so);
  // The pressure encodes the place on the raw path.
  for (size_t i = 0; i < in.size(); ++i) in[i].pressure = i / 128.f;
  // Unknown stylus values make no difference to the motion; the twin which
  // shows the raw path keeps the known ones.
  std::vector<Input> known = in;
  const bool unknown = s.chance(1, 6);
  if (unknown) {
    size_t from = s.below(in.size());
    uint64_t which = 1 + s.below(7);
    for (size_t i = from; i < in.size(); ++i) {
      if (i > from && s.chance(1, 4)) continue;
      // Distinct, as two inputs may not be the same in everything.
      if (which & 1) in[i].pressure = -1.f - i;
      if (which & 2) in[i].tilt = -1;
      if (which & 4) in[i].orientation = -1;
    }
  }
  NoteCase(c, p, in);
  StrokeModelParams off = p, zero = p, one = p;
  off.position_modeler_params.loop_contraction_mitigation_params.is_enabled = false;
  auto& z = zero.position_modeler_params.loop_contraction_mitigation_params;
  z.interpolation_strength_at_speed_lower_bound = z.interpolation_strength_at_speed_upper_bound = 0;
  auto& o = one.position_modeler_params.loop_contraction_mitigation_params;
  o.interpolation_strength_at_speed_lower_bound = o.interpolation_strength_at_speed_upper_bound = 1;
  Dut m(c);
  FRESH_MODELER(mt);
  FRESH_MODELER(mq);
  FRESH_MODELER(m1);
  // Without mitigation the way of projecting on the raw path is of no concern.
  FRESH_MODELER(mp);
  StrokeModelParams plain = off;
  plain.stylus_state_modeler_params.use_stroke_normal_projection = false;
  plain.stylus_state_modeler_params.max_input_samples = s.range(1, 20);
  MustReset(c, m, p);
  MustReset(c, mt, off);
  MustReset(c, mq, zero);
  MustReset(c, m1, one);
  MustReset(c, mp, plain);
  std::vector<Speed> history;
  std::vector<Result> raw;  // the states of the raw path
  std::vector<double> raw_err;  // rounding of its acceleration
  int readings = 3;  // the ones not yet ruled out
  int blended = 0, checked = 0, full = 0, places = 0, varied = 0;
  // A raw path state needs the smoothed position, which only shows without
  // smoothing.
  const bool smooth = p.wobble_smoother_params.is_enabled;
  auto verify = [&](size_t i, const std::vector<Result>& r, const std::vector<Result>& t, const std::vector<Result>& q, const std::vector<Result>& e,
                    const char* what, std::vector<Speed>& h) {
    CHECK_THAT(c, r.size() == t.size() && q.size() == t.size() && e.size() == t.size(), "%s %zu: %zu results with mitigation, %zu without", what, i, r.size(), t.size());
    for (size_t j = 0; j < r.size(); ++j) {
      c.note("    %s", Str(r[j]).c_str());
      c.note("      tip %s", Str(t[j]).c_str());
      c.note("      raw %s", Str(q[j]).c_str());
      CHECK_THAT(c, Eq(r[j].time, t[j].time) && Eq(q[j].time, t[j].time), "%s %zu, result %zu: time %.17g, without mitigation %.17g", what, i, j, r[j].time.Value(), t[j].time.Value());
      CHECK_THAT(c, Same(e[j], t[j]), "%s %zu, result %zu: with strength 1 %s, without mitigation %s", what, i, j, Str(e[j]).c_str(), Str(t[j]).c_str());
      for (const Result* x : {&r[j], &q[j]}) {
        auto skip = [&](float v) { return x == &q[j] && unknown && v == -1; };
        CHECK_THAT(c, (skip(t[j].pressure) || std::fabs(x->pressure - t[j].pressure) <= 4 * kEpsF) && (skip(t[j].tilt) || std::fabs(x->tilt - t[j].tilt) <= 1e-6) &&
                       (skip(t[j].orientation) || AngleDist(x->orientation, t[j].orientation) <= 1e-5),
                   "%s %zu, result %zu: stylus values differ from those without mitigation: %s", what, i, j, Str(*x).c_str());
      }
      if (h.empty()) {
        CHECK_THAT(c, SameTip(r[j], t[j]) && SameTip(q[j], t[j]), "%s %zu, result %zu: the first result is altered", what, i, j);
      } else {
        double best = 1e300;
        std::vector<Weight> ws = Weights(h, p, dyadic ? u.period / 1024 : 0);
        int fits = 0;
        for (Weight w : ws) {
          if (!(w.reading & readings)) continue;
          double miss = Miss(r[j], t[j], q[j], w);
          if (miss == 0) fits |= w.reading;
          best = std::min(best, miss);
        }
        readings &= fits;
        CHECK_THAT(c, best == 0, "%s %zu, result %zu: %s is not the blend of %s and %s with weight %.9g to %.9g (of %zu admitted), off by %.3g%s", what, i, j, Str(r[j]).c_str(),
                   Str(t[j]).c_str(), Str(q[j]).c_str(), ws[0].lo, ws[0].hi, ws.size(), best, best > 0 && best < 1e300 ? "" : " (earlier results ruled out the other reading of the window)");
        ++checked;
        double sep = Dist(D(t[j].position), D(q[j].position));
        if (sep > 1e-3 * u.length && ws[0].hi < 0.999) ++blended;
        if (sep > 1e-3 * u.length && ws[0].hi < 0.99 && ws[0].lo > 0.01) ++varied;
        if (ws[0].hi < 1e-6) ++full;
        // With strength 0, the state of the raw path at the place which the
        // pressure tells.
        if (!smooth) {
          double at = q[j].pressure * 128.;
          size_t k = std::min(static_cast<size_t>(std::max(0., std::floor(at))), raw.size() - 1);
          size_t k1 = std::min(k + 1, raw.size() - 1);
          double f = at - k, fe = 128 * 4 * kEpsF;
          auto near = [&](Vec2 g, Vec2 a, Vec2 b, Vec2 before, Vec2 after, const char* name, double more) {
            V x = D(a) + f * (D(b) - D(a));
            double tol = (fe + 8 * kEpsF) * (Dist(D(a), D(b)) + Dist(D(before), D(a)) + Dist(D(after), D(b))) + 8 * kEpsF * (Len(D(a)) + Len(D(b))) + more + 1e-37;
            CHECK_THAT(c, Dist(D(g), x) <= tol, "%s %zu, result %zu: %s of the raw path (%.9g, %.9g), expected (%.9g, %.9g) at %.6f", what, i, j, name, g.x, g.y, x.x, x.y, at);
          };
          size_t kb = k ? k - 1 : 0, ka = std::min(k + 2, raw.size() - 1);
          near(q[j].position, raw[k].position, raw[k1].position, raw[kb].position, raw[ka].position, "position", 0);
          near(q[j].velocity, raw[k].velocity, raw[k1].velocity, raw[kb].velocity, raw[ka].velocity, "velocity", 0);
          near(q[j].acceleration, raw[k].acceleration, raw[k1].acceleration, raw[kb].acceleration, raw[ka].acceleration, "acceleration", raw_err[k] + raw_err[k1]);
          ++places;
        }
      }
      h.push_back({Len(D(r[j].velocity)), r[j].time.Value()});
    }
  };
  for (size_t i = 0; i < in.size(); ++i) {
    std::vector<Result> r, t, q, e, pl;
    CHECK_THAT(c, mp.Update(in[i], pl).ok(), "update %zu refused without mitigation", i);
    absl::StatusCode cr = m.Update(in[i], r).code(), ct = mt.Update(in[i], t).code(), cq = mq.Update(known[i], q).code(), ce = m1.Update(in[i], e).code();
    CHECK_THAT(c, cr == absl::StatusCode::kOk && ct == cr && cq == cr && ce == cr, "update %zu: statuses %d %d %d %d", i, static_cast<int>(cr), static_cast<int>(ct), static_cast<int>(cq), static_cast<int>(ce));
    auto same_motion = [&](const char* what) {
      CHECK_THAT(c, pl.size() == t.size(), "%s %zu: %zu results, %zu with the other projection", what, i, t.size(), pl.size());
      for (size_t j = 0; j < t.size(); ++j) {
        CHECK_THAT(c, SameTip(pl[j], t[j]), "%s %zu, result %zu without mitigation depends on the projection: %s, %s", what, i, j, Str(t[j]).c_str(), Str(pl[j]).c_str());
      }
    };
    same_motion("update");
    Result x;
    double x_err = 0;
    x.position = in[i].position;
    x.time = in[i].time;
    if (i > 0) {
      double dt = in[i].time.Value() - in[i - 1].time.Value();
      if (dt != 0) {
        V v = (D(in[i].position) - D(in[i - 1].position)) / dt;
        x.velocity = {static_cast<float>(v.x), static_cast<float>(v.y)};
        V a = (D(x.velocity) - D(raw.back().velocity)) / dt;
        x.acceleration = {static_cast<float>(a.x), static_cast<float>(a.y)};
        x_err = 4 * kEpsF * (Len(v) + Len(D(raw.back().velocity))) / dt;
      }
    }
    raw.push_back(x);
    raw_err.push_back(x_err);
    if (i == 0) {
      CHECK_THAT(c, r.size() == 1 && Same(r[0], t[0]), "the down's result is altered by mitigation");
    } else {
      verify(i, r, t, q, e, "update", history);
    }
    if (in[i].event_type != Input::EventType::kUp && !IsPredDisabled(p) && s.chance(1, 4)) {
      cr = m.Predict(r).code(), ct = mt.Predict(t).code(), cq = mq.Predict(q).code(), ce = m1.Predict(e).code();
      CHECK_THAT(c, cr == absl::StatusCode::kOk && ct == cr && cq == cr && ce == cr, "prediction %zu fails", i);
      CHECK_THAT(c, mp.Predict(pl).ok(), "prediction %zu fails without mitigation", i);
      same_motion("prediction");
      std::vector<Speed> h = history;
      verify(i, r, t, q, e, "prediction", h);
    }
  }
  (void)l;
  c.label_if(blended > 0, "moved by the blend");
  c.label_if(varied > 0, "weight strictly between 0 and 1");
  c.label_if(full > 0, "weight 0");
  c.label_if(places > 0, "raw path state checked");
  c.label_if(smooth, "smoothed");
  c.label_if(unknown, "unknown stylus values");
  if (checked >= 3 && blended > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C11",
    "A generated stroke modeled four times: with the generated mitigation, with mitigation "
    "off (the tip), with both strengths 0 (the raw path) and with both strengths 1. Results "
    "and predictions must be the blend of tip and raw path with the weight which the speeds "
    "of the earlier results admit; the raw path's state is located by its pressure and "
    "recomputed from the inputs. Non-trivial: at least three results, one moved by the blend.",
    "The oldest speed sample of the window may or may not be counted, as code and documentation "
    "differ (DESIGN.md), but throughout a case in the same way|equal speed bounds admit either strength",
    200000, 4000000, Run};
