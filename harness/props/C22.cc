// The axis predictor is the documented Kalman filter; its matrices are matrices.
#include <sstream>

#include "../ref.h"
#include "ink_stroke_modeler/internal/prediction/kalman_filter/axis_predictor.h"
// The filter and matrix classes are further inside; if they have changed beyond
// recognition, check.py builds without these parts.
#ifndef INK_VERIF_NO_FILTER
#include "ink_stroke_modeler/internal/prediction/kalman_filter/kalman_filter.h"
#endif
#ifndef INK_VERIF_NO_MATRIX
#include "ink_stroke_modeler/internal/prediction/kalman_filter/matrix.h"
#endif
#include "kalman_ref.h"

using namespace ref;  // NOLINT

namespace {

struct Est {
  double v[4];
};
Est Of(const AxisPredictor& a) { return {{a.GetPosition(), a.GetVelocity(), a.GetAcceleration(), a.GetJerk()}}; }
const char* const kName[] = {"position", "velocity", "acceleration", "jerk"};

void RequireEqual(Case& c, const AxisPredictor& a, const AxisPredictor& b, double scale, const char* what) {
  Est x = Of(a), y = Of(b);
  for (int i = 0; i < 4; ++i) CHECK_THAT(c, SameBits(x.v[i] * scale, y.v[i]), "%s: %s %.17g instead of %.17g", what, kName[i], y.v[i], x.v[i] * scale);
  CHECK_THAT(c, a.NumIterations() == b.NumIterations() && a.Stable() == b.Stable(), "%s: iterations or stability differ", what);
}

void Predictor(Case& c) {
  Src& s = c.src;
  static const double kNoise[] = {0.01, 1, 0.1, 1e-4, 100, 1e-6, 0.26458};
  double pn = s.pick(kNoise), mn = s.pick(kNoise);
  static const int kStable[] = {4, 1, 2, 3, 10, 30};
  int stable = s.pick(kStable);
  c.note("process noise %g, measurement noise %g, stable from %d", pn, mn, stable);
  AxisPredictor a(pn, mn, stable);
  AxisPredictor scaled(pn, mn, stable), shifted(pn, mn, stable), other(pn, mn, stable), sum(pn, mn, stable);
  std::optional<AxisPredictor> copy;
  Axis r, rshift;
  int n = s.chance(1, 20) ? s.range(100, 300) : s.range(1, 40);
  int shape = s.weighted({3, 2, 2, 1, 1, 1});
  static const double kScale[] = {2, -1, -0.5, 1024, 1. / 64};
  double scale = s.pick(kScale);
  static const double kShift[] = {1, -10, 1000};
  double shift = s.pick(kShift);
  double z = s.chance(1, 3) ? s.real(-100, 100) : 0, v = s.real(-2, 2), acc = s.real(-0.2, 0.2), z2 = 0;
  // Coordinates of any size.
  static const double kSize[] = {1, 1e3, 1e6, 1e9, 1e-3, 1e-6, 1e20, 1e-20};
  double size = s.chance(1, 4) ? s.pick(kSize) : 1;
  double mag = 0, omag = 0;
  int resets = 0, copies = 0, most = 0, unstable_seen = 0;
  for (int i = 0; i < n; ++i) {
    switch (shape) {
      case 0: z += v; break;
      case 1:
        z += v;
        v += acc;
        break;
      case 2: z = s.real(-10, 10); break;
      case 3: z = i % 7 == 0 ? 5 : 0; break;
      case 4: break;
      default: z = std::sin(i * 0.3) * 8; break;
    }
    double y = z * size;
    z2 = s.chance(1, 2) ? z2 + 1 : s.real(-4, 4);
    int k = s.weighted({24, 1, 1, 1});
    if (k == 1) {
      a.Reset();
      scaled.Reset();
      shifted.Reset();
      other.Reset();
      sum.Reset();
      copy.reset();
      r = Axis{};
      rshift = Axis{};
      mag = omag = 0;
      ++resets;
      AxisPredictor fresh(pn, mn, stable);
      RequireEqual(c, fresh, a, 1, "after a reset");
      CHECK_THAT(c, a.NumIterations() == 0 && a.Stable() == (0 >= stable), "after a reset: %d iterations", a.NumIterations());
    } else if (k == 2) {
      copy = a;
      ++copies;
    } else if (k == 3 && copy) {
      // Continuing with the copy must be the same as continuing.
      AxisPredictor t = a;
      t.Update(17);
      copy.reset();
    }
    c.note("observe %.17g", y);
    a.Update(y);
    if (copy) {
      copy->Update(y);
      RequireEqual(c, a, *copy, 1, "copy");
    }
    scaled.Update(y * scale);
    shifted.Update(y + shift);
    other.Update(z2);
    sum.Update(y + z2);
    r.Update(y, pn, mn);
    mag = std::max(mag, std::fabs(y));
    omag = std::max({omag, std::fabs(z2), std::fabs(y + z2)});
    CHECK_THAT(c, a.NumIterations() == r.x.n, "%d observations counted, %d made", a.NumIterations(), r.x.n);
    CHECK_THAT(c, a.Stable() == (r.x.n >= stable), "stable is %d after %d observations, threshold %d", a.Stable(), r.x.n, stable);
    unstable_seen += !a.Stable();
    most = std::max(most, r.x.n);
    Est e = Of(a), es = Of(shifted), eo = Of(other), eu = Of(sum);
    double cond = 1e-12 + 1e-14 / std::min(pn, mn);
    for (int j = 0; j < 4; ++j) {
      CHECK_THAT(c, std::fabs(e.v[j] - r.at(j)) <= r.err(j), "after %d observations: %s %.17g, expected %.17g +- %.3g", r.x.n, kName[j], e.v[j], r.at(j), r.err(j));
      double tol = r.err(j) + 100 * cond * (std::fabs(shift) + mag) + 30 * r.loss[j] * (1 + std::fabs(shift) / (mag + 1e-30) * (mag > 0));
      double x = e.v[j] + (j == 0 ? shift : 0);
      CHECK_THAT(c, std::fabs(es.v[j] - x) <= tol, "after %d observations shifted by %g: %s %.17g, expected %.17g +- %.3g", r.x.n, shift, kName[j], es.v[j], x, tol);
      double tol2 = r.err(j) + 100 * cond * (mag + omag) + 60 * r.loss[j] * (1 + omag / (mag + 1e-30) * (mag > 0));
      CHECK_THAT(c, std::fabs(eu.v[j] - e.v[j] - eo.v[j]) <= tol2, "after %d observations: %s of the sum %.17g, sum of both %.17g +- %.3g", r.x.n, kName[j], eu.v[j],
                 e.v[j] + eo.v[j], tol2);
    }
    RequireEqual(c, a, scaled, scale, "observations scaled");
  }
  c.label_if(resets > 0, "reset");
  c.label_if(copies > 0, "copy");
  c.label_if(most >= 100, "long sequence");
  c.label("axis predictor");
  if (most >= 4) c.nontrivial();
}

#ifndef INK_VERIF_NO_FILTER
using L = long double;

// A filter with any transition and measurement, to have every entry count.
void Filter(Case& c) {
  Src& s = c.src;
  auto small = [&] { return (static_cast<int>(s.below(17)) - 8) / 8.0; };
  Matrix4 F, Q;
  L f[4][4], q[4][4], x[4] = {}, P[4][4] = {}, h[4];
  Vec4 H;
  double w[4];
  for (int i = 0; i < 4; ++i) w[i] = small();
  double qs = s.real(0.01, 1);
  for (int i = 0; i < 4; ++i) {
    P[i][i] = 1;
    h[i] = H[i] = small();
    for (int j = 0; j < 4; ++j) {
      F.At(i, j) = 0.25 * small() + (i == j ? 0.75 : 0);
      f[i][j] = F.At(i, j);
      Q.At(i, j) = w[i] * w[j] * qs + (i == j ? 0.01 : 0);
      q[i][j] = Q.At(i, j);
    }
  }
  double R = s.real(0.05, 2);
  int stable = s.range(1, 5);
  KalmanFilter k(F, Q, H, R, stable);
  int n = s.range(1, 20);
  for (int it = 1; it <= n; ++it) {
    double z = s.real(-8, 8);
    k.Update(z);
    if (it == 1) {
      x[0] = z;
    } else {
      L y[4], T[4][4], S[4][4];
      for (int i = 0; i < 4; ++i) {
        y[i] = 0;
        for (int a = 0; a < 4; ++a) y[i] += f[i][a] * x[a];
        for (int j = 0; j < 4; ++j) {
          T[i][j] = 0;
          for (int a = 0; a < 4; ++a) T[i][j] += f[i][a] * P[a][j];
        }
      }
      for (int i = 0; i < 4; ++i) {
        for (int j = 0; j < 4; ++j) {
          S[i][j] = q[i][j];
          for (int a = 0; a < 4; ++a) S[i][j] += T[i][a] * f[j][a];
        }
      }
      L g[4], hs = R, hy = 0;
      for (int i = 0; i < 4; ++i) {
        g[i] = 0;
        hy += h[i] * y[i];
        for (int j = 0; j < 4; ++j) {
          g[i] += S[i][j] * h[j];
          hs += h[i] * S[i][j] * h[j];
        }
      }
      for (int i = 0; i < 4; ++i) g[i] /= hs;
      L A[4][4], B[4][4];
      for (int i = 0; i < 4; ++i) {
        x[i] = y[i] + g[i] * (z - hy);
        for (int j = 0; j < 4; ++j) A[i][j] = (i == j) - g[i] * h[j];
      }
      for (int i = 0; i < 4; ++i) {
        for (int j = 0; j < 4; ++j) {
          B[i][j] = 0;
          for (int a = 0; a < 4; ++a) B[i][j] += A[i][a] * S[a][j];
        }
      }
      for (int i = 0; i < 4; ++i) {
        for (int j = 0; j < 4; ++j) {
          P[i][j] = g[i] * g[j] * R;
          for (int a = 0; a < 4; ++a) P[i][j] += B[i][a] * A[j][a];
        }
      }
    }
    for (int i = 0; i < 4; ++i) {
      double e = static_cast<double>(x[i]);
      CHECK_THAT(c, std::fabs(k.GetStateEstimation()[i] - e) <= 1e-9 * (8 + std::fabs(e)), "general filter, observation %d: state %d is %.17g, expected %.17g", it, i,
                 k.GetStateEstimation()[i], e);
    }
    CHECK_THAT(c, k.NumIterations() == it && k.Stable() == (it >= stable), "general filter: %d iterations, stable %d", k.NumIterations(), k.Stable());
  }
  k.Reset();
  KalmanFilter fresh(F, Q, H, R, stable);
  for (int i = 0; i < 3; ++i) {
    CHECK_THAT(c, k.GetStateEstimation() == fresh.GetStateEstimation() && k.NumIterations() == fresh.NumIterations(), "general filter after a reset");
    double z = s.real(-8, 8);
    k.Update(z);
    fresh.Update(z);
  }
  c.label("general filter");
  if (n >= 3) c.nontrivial();
}

#endif  // INK_VERIF_NO_FILTER

#ifndef INK_VERIF_NO_MATRIX
void Matrices(Case& c) {
  Src& s = c.src;
  auto val = [&] { return s.chance(1, 4) ? s.real(-100, 100) : static_cast<double>(s.range(-9, 9)); };
  Matrix4 A, B;
  Vec4 u, v;
  for (int i = 0; i < 4; ++i) {
    u[i] = val();
    v[i] = val();
    for (int j = 0; j < 4; ++j) {
      A.At(i, j) = val();
      B.At(i, j) = val();
    }
  }
  const double k = s.chance(1, 2) ? 0.37 : s.range(1, 7);
  Matrix4 AB = A * B, S = A + B, Df = A - B, At = A.Transpose(), Ak = A * k, O = OuterProduct(u, v);
  Vec4 Av = A * v, vA = v * A, uv = u + v, vk = v * k, vd = v / k;
  double dot = 0;
  auto near = [](double a, double b, double mag) { return std::fabs(a - b) <= 1e-13 * mag; };
  for (int i = 0; i < 4; ++i) {
    dot += u[i] * v[i];
    double av = 0, va = 0;
    for (int j = 0; j < 4; ++j) {
      double ab = 0;
      for (int m = 0; m < 4; ++m) ab += A.At(i, m) * B.At(m, j);
      av += A.At(i, j) * v[j];
      va += A.At(j, i) * v[j];
      CHECK_THAT(c, near(AB.At(i, j), ab, 4e4), "matrix product at %d, %d: %g", i, j, AB.At(i, j));
      CHECK_THAT(c, S.At(i, j) == A.At(i, j) + B.At(i, j), "matrix sum at %d, %d", i, j);
      CHECK_THAT(c, Df.At(i, j) == A.At(i, j) - B.At(i, j), "matrix difference at %d, %d", i, j);
      CHECK_THAT(c, At.At(i, j) == A.At(j, i), "transpose at %d, %d", i, j);
      CHECK_THAT(c, Ak.At(i, j) == A.At(i, j) * k, "scaled matrix at %d, %d", i, j);
      CHECK_THAT(c, O.At(i, j) == u[i] * v[j], "outer product at %d, %d", i, j);
      CHECK_THAT(c, Matrix4().At(i, j) == (i == j) && Matrix4::Zero().At(i, j) == 0, "identity or zero at %d, %d", i, j);
    }
    CHECK_THAT(c, near(Av[i], av, 4e4) && near(vA[i], va, 4e4), "matrix-vector product at %d", i);
    CHECK_THAT(c, uv[i] == u[i] + v[i] && vk[i] == v[i] * k && near(vd[i], v[i] / k, 1e4), "vector arithmetic at %d", i);
  }
  CHECK_THAT(c, near(DotProduct(u, v), dot, 4e4), "dot product %g, expected %g", DotProduct(u, v), dot);
  // Equality, entry by entry.
  Matrix4 C = A;
  Vec4 w = v;
  CHECK_THAT(c, C == A && !(C != A) && w == v && !(w != v), "a copy is not equal");
  int i = s.below(4), j = s.below(4);
  C.At(i, j) += 1;
  w[i] += 1;
  CHECK_THAT(c, C != A && !(C == A) && w != v && !(w == v), "equality ignores entry %d, %d", i, j);
  c.label("matrices");
  c.nontrivial();
}

#endif  // INK_VERIF_NO_MATRIX

void Run(Case& c) {
  switch (c.src.weighted({8, 2, 1})) {
    case 0: return Predictor(c);
#ifndef INK_VERIF_NO_FILTER
    case 1: return Filter(c);
#endif
#ifndef INK_VERIF_NO_MATRIX
    case 2: return Matrices(c);
#endif
    default: return Predictor(c);
  }
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C22",
    "Generated observation sequences (lines, parabolas, noise, steps, constants, sines; up to 300 "
    "long) with resets and copies, compared with a textbook filter in extended precision, with the "
    "same predictor fed scaled (exactly), shifted and summed observations, and with fresh and "
    "copied ones; a filter with arbitrary matrices against the same equations; matrix operators "
    "against component-wise definitions. Non-trivial: at least four observations, or matrices.",
    "Noise variances from 1e-6 to 100",
    4000000, 50000000, Run};
