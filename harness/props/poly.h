// Stylus values on the polyline of recent inputs, as intervals.
#ifndef INK_VERIF_POLY_H_
#define INK_VERIF_POLY_H_

#include "../ref.h"

namespace ref {

struct Sample {
  V pos;
  double pos_err = 0;  // zero if exactly known
  double time = 0;
  double field[3] = {-1, -1, -1};  // pressure, tilt, orientation
};

// A stretch of segment: values between ratios lo and hi.
struct Stretch {
  size_t seg;
  double lo, hi;
};

inline bool FieldOk(double got, const Sample& a, const Sample& b, int f, double lo, double hi, std::string* why) {
  double x = a.field[f], y = b.field[f];
  char buf[160];
  if (f < 2) {
    double p = x + (y - x) * lo, q = x + (y - x) * hi;
    double tol = 8 * kEpsF * (std::fabs(x) + std::fabs(y)) + 1e-37;
    if (got >= std::min(p, q) - tol && got <= std::max(p, q) + tol) return true;
    snprintf(buf, sizeof buf, "%s %.9g, expected %.9g to %.9g", f ? "tilt" : "pressure", got, p, q);
    *why = buf;
    return false;
  }
  // Along the shorter arc; either arc if they are about equally long.
  if (!(got >= 0 && got <= kTwoPi * (1 + 1e-6))) {
    snprintf(buf, sizeof buf, "orientation %.9g is not normalized", got);
    *why = buf;
    return false;
  }
  double d = std::remainder(y - x, kTwoPi);
  double tol = 1e-5;
  for (int k = 0; k < 2; ++k) {
    double dd = k == 0 ? d : d > 0 ? d - kTwoPi : d + kTwoPi;
    if (k == 1 && std::fabs(std::fabs(d) - kTwoPi / 2) > 1e-5) break;
    double p = x + dd * lo, q = x + dd * hi;
    double mid = (p + q) / 2, half = std::fabs(p - q) / 2;
    if (AngleDist(got, mid) <= half + tol) return true;
  }
  snprintf(buf, sizeof buf, "orientation %.9g, expected %.9g to %.9g", got, x + d * lo, x + d * hi);
  *why = buf;
  return false;
}

// Do the result's values fit the stretch? Unknown fields must be -1.
inline bool Fits(const Result& r, const std::vector<Sample>& w, const Stretch& st, const bool* unknown, std::string* why) {
  const Sample& a = w[st.seg];
  const Sample& b = w[st.seg + 1 < w.size() ? st.seg + 1 : st.seg];
  double got[3] = {r.pressure, r.tilt, r.orientation};
  for (int f = 0; f < 3; ++f) {
    if (unknown[f]) {
      if (got[f] != -1) {
        char buf[80];
        snprintf(buf, sizeof buf, "field %d is %.9g although it is unknown", f, got[f]);
        *why = buf;
        return false;
      }
      continue;
    }
    if (!FieldOk(got[f], a, b, f, st.lo, st.hi, why)) return false;
  }
  return true;
}

// All stretches which may hold the nearest point of the polyline.
inline std::vector<Stretch> Nearest(const std::vector<Sample>& w, V q) {
  std::vector<Stretch> out;
  if (w.size() == 1) return {{0, 0, 0}};
  std::vector<double> dist(w.size() - 1), err(w.size() - 1);
  std::vector<Stretch> st(w.size() - 1);
  double best = 1e300;
  for (size_t i = 0; i + 1 < w.size(); ++i) {
    V a = w[i].pos, b = w[i + 1].pos;
    double pe = w[i].pos_err + w[i + 1].pos_err;
    double len = Dist(a, b);
    double t, terr;
    if (len == 0) {
      t = 0.5;
      terr = 1;
    } else {
      t = Dot(q - a, b - a) / (len * len);
      terr = 16 * kEpsF * (1 + Dist(q, a) / len) + 4 * pe * (Dist(q, a) + len) / (len * len);
    }
    double tc = std::clamp(t, 0., 1.);
    st[i] = {i, std::clamp(t - terr, 0., 1.), std::clamp(t + terr, 0., 1.)};
    dist[i] = Dist(q, a + tc * (b - a));
    err[i] = 8 * kEpsF * (Len(a) + Len(b) + Len(q)) + 2 * pe;
    best = std::min(best, dist[i] + err[i]);
  }
  for (size_t i = 0; i + 1 < w.size(); ++i) {
    if (dist[i] - err[i] <= best) out.push_back(st[i]);
  }
  return out;
}

inline bool Unknown(float v) { return v < 0 || std::isnan(v); }

}  // namespace ref

#endif
