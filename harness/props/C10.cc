// Stroke normal projection takes values where the normal meets the raw path.
#include "poly.h"

using namespace ref;  // NOLINT

namespace {

struct Normal {
  V n;         // unit length
  double err;  // angle
};

V Orth(V v) { return {-v.y, v.x}; }

// The normals the documentation admits for the tip, given the time since the
// previous state. Returns false if it is ill-conditioned.
bool AddNormals(const Result& r, double dt, std::vector<Normal>& out) {
  V v = D(r.velocity), a = D(r.acceleration);
  double lv = Len(v), la = Len(a);
  if (lv == 0) {
    if (la < 1e-25) return false;
    out.push_back({Orth(a) / la, 2 * kEpsF});
    return true;
  }
  // Products of these must be far from underflow.
  if (lv < 1e-25 || (la > 0 && (la < 1e-25 || lv * la < 1e-25))) return false;
  double cosine = la > 0 ? std::fabs(Dot(v, a)) / (lv * la) : 1;
  if (cosine > 0.99996192 - 1e-6) out.push_back({Orth(v) / lv, 2 * kEpsF});
  if (la > 0 && cosine < 0.99996192 + 1e-6) {
    V w = v + dt * a;
    double lw = Len(w);
    double werr = 4 * kEpsF * (lv + std::fabs(dt) * la);
    if (lw < 100 * werr) return false;
    V dir = v / lv + w / lw;
    double ld = Len(dir);
    double err = (6 * kEpsF + werr / lw) / ld;
    if (ld < 1e-3 || err > 1e-2) return false;
    out.push_back({Orth(dir) / ld, err});
  }
  return true;
}

struct Crossing {
  Stretch st;
  bool definite;
  bool left, right;    // possible sides
  double dmin, dmax;   // distance from the tip
};

std::vector<Crossing> Crossings(const std::vector<Sample>& w, V q, const Normal& nm) {
  std::vector<Crossing> out;
  for (size_t i = 0; i + 1 < w.size(); ++i) {
    V a = w[i].pos, b = w[i + 1].pos;
    double len = Dist(a, b);
    if (len == 0) continue;  // no direction; its ends belong to its neighbours
    double fa = Cross(a - q, nm.n), fb = Cross(b - q, nm.n);
    double ea = nm.err * Dist(a, q) + 8 * kEpsF * (Dist(a, q) + len) + 1e-37;
    double eb = nm.err * Dist(b, q) + 8 * kEpsF * (Dist(a, q) + len) + 1e-37;
    if ((fa > ea && fb > eb) || (fa < -ea && fb < -eb)) continue;
    Crossing z;
    z.definite = (fa > ea && fb < -eb) || (fa < -ea && fb > eb);
    double den = std::fabs(fa - fb), e = ea + eb;
    // The determinant: relative to the lengths, below which it may round to 0.
    double lo = 0, hi = 1;
    if (den > 8 * e) {
      double t = fa / (fa - fb), te = 3 * e / den + 8 * kEpsF;
      lo = std::clamp(t - te, 0., 1.);
      hi = std::clamp(t + te, 0., 1.);
    } else {
      z.definite = false;
    }
    z.st = {i, lo, hi};
    V p = a + lo * (b - a), r = a + hi * (b - a);
    double round = 8 * kEpsF * (Len(a) + Len(b) + Len(q));
    double sp = Dot(p - q, nm.n), sr = Dot(r - q, nm.n);
    double se = round + nm.err * std::max(Dist(p, q), Dist(r, q));
    z.left = sp > -se || sr > -se;
    z.right = sp < se || sr < se;
    double dp = Dist(p, q), dr = Dist(r, q);
    z.dmax = std::max(dp, dr) + round;
    // Nearest point of the stretch.
    double near = std::min(dp, dr);
    V d = r - p;
    double l2 = Dot(d, d);
    if (l2 > 0) {
      double t = Dot(q - p, d) / l2;
      if (t > 0 && t < 1) near = Dist(q, p + t * d);
    }
    z.dmin = near - round;
    out.push_back(z);
  }
  return out;
}

// All stretches which the documented choice admits.
std::vector<Stretch> Admissible(const std::vector<Sample>& w, const Result& r, const Normal& nm, bool* fallback) {
  V q = D(r.position);
  std::vector<Crossing> cs = Crossings(w, q, nm);
  std::vector<Stretch> out;
  bool any_definite = false;
  for (auto& z : cs) any_definite = any_definite || z.definite;
  V a = D(r.acceleration);
  double turn = Dot(nm.n, a), terr = (nm.err + 8 * kEpsF) * Len(a);
  for (auto& z : cs) {
    for (int side = 0; side < 2; ++side) {  // 0 left, 1 right
      if (!(side == 0 ? z.left : z.right)) continue;
      bool ok = true, other = false;
      for (auto& y : cs) {
        if (&y == &z) continue;
        bool only_this = side == 0 ? y.left && !y.right : y.right && !y.left;
        bool only_other = side == 0 ? y.right && !y.left : y.left && !y.right;
        if (y.definite && only_this && y.dmax < z.dmin) ok = false;
        if (y.definite && only_other) other = true;
      }
      if (other) {
        // Outside of the turn: opposite to the acceleration.
        if (side == 0 && turn > terr) ok = false;
        if (side == 1 && turn < -terr) ok = false;
      }
      if (ok) out.push_back(z.st);
    }
  }
  *fallback = !any_definite;
  return out;
}

void Run(Case& c) {
  Src& s = c.src;
  bool dyadic = s.chance(2, 3);
  Units u = GenUnits(c, {.dyadic = dyadic});
  ParamOpts po;
  po.normal = kYes;
  po.mitigation = kNo;
  po.wobble = kNo;
  po.dyadic_rate = dyadic;
  StrokeModelParams p = GenParams(c, u, po);
  if (dyadic) {
    static const double kDur[] = {1, 0.5, 3, 8};
    p.stylus_state_modeler_params.min_sample_duration = Duration(s.pick(kDur) * u.period);
  }
  StrokeOpts so;
  so.tiny_dt = !dyadic && s.chance(1, 3);
  so.dyadic = dyadic;
  so.long_moves = 60;
  so.all_known = !s.chance(1, 6);
  std::vector<Input> in = GenStroke(c, u, so);
  // Aimed: constants which keep the arithmetic exact, and positions chosen so
  // that a step ends with no velocity, or has no acceleration.
  const bool aimed = dyadic && s.chance(1, 8);
  double aim_dt = 0;
  if (aimed) {
    aim_dt = u.period / (s.chance(2, 3) ? 2 : 1);
    p.sampling_params.min_output_rate = 1 / aim_dt;
    p.sampling_params.max_estimated_angle_to_traverse_per_input = -1;
    p.position_modeler_params.drag_constant = 0.5 / aim_dt;
    p.position_modeler_params.spring_mass_constant = (s.chance(1, 2) ? 2 : 4) * aim_dt * aim_dt;
    for (size_t i = 1; i < in.size(); ++i) in[i].time = Time(in[0].time.Value() + i * u.period);
  }
  NoteCase(c, p, in);
  Dut m(c);
  MustReset(c, m, p);
  std::vector<Sample> path;
  bool unknown[3] = {};
  Result prev{};
  std::vector<Result> pred;
  int checked = 0, decisive = 0, fallbacks = 0, both = 0, ill = 0, nearest = 0, trimmed = 0, only_a = 0, only_v = 0;
  const size_t min_n = p.stylus_state_modeler_params.min_input_samples;
  const double min_dur = p.stylus_state_modeler_params.min_sample_duration.Value();
  auto verify = [&](size_t i, const std::vector<Result>& rs, const char* what, double code_prev, double doc_prev) {
    // The windows admitted (more than one only if a duration is within rounding
    // of the limit).
    std::vector<size_t> starts;
    for (double slack : {0., 1e-13, -1e-13}) {
      if (dyadic && slack != 0) continue;
      size_t f = 0;
      double t = path.back().time;
      while (path.size() - f > min_n && t - path[f + 1].time > min_dur * (1 + slack) + slack * std::fabs(t)) ++f;
      if (starts.empty() || starts.back() != f) starts.push_back(f);
    }
    trimmed += starts[0] > 0;
    double pt[2] = {code_prev, doc_prev};
    for (size_t j = 0; j < rs.size(); ++j) {
      const Result& r = rs[j];
      std::string why = "nothing admissible";
      bool ok = false, skip = false, one = false;
      std::vector<Normal> normals;
      bool v0 = Eq(r.velocity, Vec2{0, 0}), a0 = Eq(r.acceleration, Vec2{0, 0});
      only_a += v0 && !a0;
      only_v += a0 && !v0;
      bool still = r.velocity == (Vec2{0, 0}) && r.acceleration == (Vec2{0, 0});
      if (!still) {
        for (double t : pt) {
          if (!AddNormals(r, r.time.Value() - t, normals)) skip = true;
        }
      }
      if (skip) {
        ++ill;
      } else {
        size_t options = 0;
        for (size_t f : starts) {
          std::vector<Sample> w(path.begin() + f, path.end());
          if (still) {
            ++nearest;
            for (const Stretch& st : Nearest(w, D(r.position))) ok = ok || Fits(r, w, st, unknown, &why);
            continue;
          }
          for (const Normal& nm : normals) {
            bool fb = false;
            std::vector<Stretch> st = Admissible(w, r, nm, &fb);
            if (fb) {
              V q = D(r.position);
              double d0 = Dist(q, w.front().pos), d1 = Dist(q, w.back().pos);
              double e = 8 * kEpsF * (Len(q) + Len(w.front().pos) + Len(w.back().pos));
              size_t l = w.size() - 1;
              if (d0 <= d1 + e) st.push_back({0, 0, 0});
              if (d1 <= d0 + e) st.push_back({l ? l - 1 : 0, l ? 1. : 0., l ? 1. : 0.});
              if (st.size() == 1) ++fallbacks;
            }
            for (const Stretch& x : st) {
              ok = ok || Fits(r, w, x, unknown, &why);
              c.note("      [%s %zu.%zu] window from %zu normal (%.4g, %.4g): segment %zu, %.6f to %.6f", what, i, j, f, nm.n.x, nm.n.y, x.seg, x.lo, x.hi);
            }
            options += st.size();
            std::vector<Crossing> cs = Crossings(w, D(r.position), nm);
            int l = 0, rr = 0;
            for (auto& z : cs) l += z.definite && !z.right, rr += z.definite && !z.left;
            if (l && rr) ++both;
            one = st.size() == 1 && st[0].hi - st[0].lo < 0.01;
          }
        }
        CHECK_THAT(c, ok, "%s after input %zu, result %zu (%s): %s (%zu options)", what, i, j, Str(r).c_str(), why.c_str(), options);
        ++checked;
        if (one && options <= 2) ++decisive;
      }
      pt[0] = pt[1] = r.time.Value();
    }
  };
  for (size_t i = 0; i < in.size(); ++i) {
    if (aimed && i > 1 && s.chance(1, 2)) {
      const double k = p.position_modeler_params.spring_mass_constant, d = p.position_modeler_params.drag_constant;
      V v = D(prev.velocity);
      V anchor = D(prev.position) + k * (s.chance(1, 2) ? d - 1 / aim_dt : d) * v;
      if (aim_dt < u.period) anchor = 2 * anchor - D(in[i - 1].position);
      in[i].position = {static_cast<float>(anchor.x), static_cast<float>(anchor.y)};
      c.note("  aimed: %s", Str(in[i]).c_str());
    }
    Call call = Feed(m, in[i], i ? &prev : nullptr, i ? in[i - 1].time.Value() : 0, 0);
    CHECK_THAT(c, call.ok(), "update %zu refused", i);
    for (auto& x : call.out) c.note("    %s", Str(x).c_str());
    Sample z;
    z.pos = D(in[i].position);
    z.time = in[i].time.Value();
    z.field[0] = in[i].pressure;
    z.field[1] = in[i].tilt;
    z.field[2] = in[i].orientation;
    for (int f = 0; f < 3; ++f) unknown[f] = unknown[f] || Unknown(z.field[f]);
    path.push_back(z);
    bool up = in[i].event_type == Input::EventType::kUp;
    if (i > 0) {
      // For a move, the library measures from the move itself (DESIGN.md).
      verify(i, call.out, up ? "up" : "move", up ? in[i - 1].time.Value() : z.time, prev.time.Value());
    }
    prev = call.out.back();
    if (!up && s.chance(1, 4)) {
      if (m.Predict(pred).ok()) verify(i, pred, "prediction", z.time, prev.time.Value());
    }
  }
  c.label_if(decisive > 0, "a single admissible place");
  c.label_if(fallbacks > 0, "no crossing: nearer end");
  c.label_if(both > 0, "crossings on both sides");
  c.label_if(nearest > 0, "no motion: nearest point");
  c.label_if(only_a > 0, "acceleration without velocity");
  c.label_if(only_v > 0, "velocity without acceleration");
  c.label_if(ill > 0, "some results skipped: normal ill-conditioned");
  c.label_if(trimmed > 0, "inputs left the window");
  if (checked >= 3 && decisive >= 2 && !(unknown[0] && unknown[1] && unknown[2])) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C10",
    "A generated stroke with stylus values under generated window parameters (two thirds "
    "with exactly representable times, a few with positions aimed at zero velocity or acceleration), with predictions. For each result the normal is "
    "recomputed from its velocity and acceleration, all crossings with the polyline are "
    "classified as definite or possible, and the three values must fit a place which the "
    "documented choice admits. Non-trivial: at least three results checked, two of them "
    "with one narrow admissible place.",
    "Wobble smoothing and loop mitigation off|decisions within float rounding accepted either way|the "
    "time step of the first result of a move may be measured from the input or from the result "
    "before (DESIGN.md)|results whose normal is ill-conditioned are skipped and counted",
    450000, 8000000, Run};
