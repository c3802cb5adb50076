// The Kalman filter of one axis, from its textbook equations.
#ifndef INK_VERIF_KALMAN_REF_H_
#define INK_VERIF_KALMAN_REF_H_

#include <algorithm>
#include <cmath>

namespace ref {

// One axis of the filter, from its textbook equations: state (p, v, a, j),
// unit time step, H = (1, 0, 0, 0), Q = q q^T * process noise.
template <typename N>
struct AxisOf {
  N x[4] = {}, P[4][4] = {};
  int n = 0;
  AxisOf() {
    for (int i = 0; i < 4; ++i) P[i][i] = 1;
  }
  void Update(double z, double process, double measure) {
    if (n++ == 0) {
      x[0] = z;
      return;
    }
    static const N F[4][4] = {{1, 1, .5, N(1) / 6}, {0, 1, 1, .5}, {0, 0, 1, 1}, {0, 0, 0, 1}};
    static const N q[4] = {N(1) / 6, .5, 1, 1};
    N y[4], T[4][4], S[4][4];
    for (int i = 0; i < 4; ++i) {
      y[i] = 0;
      for (int k = 0; k < 4; ++k) y[i] += F[i][k] * x[k];
      for (int j = 0; j < 4; ++j) {
        T[i][j] = 0;
        for (int k = 0; k < 4; ++k) T[i][j] += F[i][k] * P[k][j];
      }
    }
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < 4; ++j) {
        S[i][j] = q[i] * q[j] * process;
        for (int k = 0; k < 4; ++k) S[i][j] += T[i][k] * F[j][k];
      }
    }
    N s = S[0][0] + measure, g[4];
    for (int i = 0; i < 4; ++i) g[i] = S[i][0] / s;
    N r = z - y[0];
    for (int i = 0; i < 4; ++i) x[i] = y[i] + g[i] * r;
    // (I - gH) S (I - gH)^T + g m g^T
    N A[4][4];
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < 4; ++j) A[i][j] = S[i][j] - g[i] * S[0][j];
    }
    for (int i = 0; i < 4; ++i) {
      for (int j = 0; j < 4; ++j) P[i][j] = A[i][j] - A[i][0] * g[j] + g[i] * g[j] * measure;
    }
  }
};

// The filter in extended precision, and in double to see how many digits the
// covariance loses (the initial covariance is 1, the noise may be 1e-12).
struct Axis {
  AxisOf<long double> x;
  AxisOf<double> d;
  double loss[4] = {};
  double noise = 1;
  void Update(double z, double process, double measure) {
    x.Update(z, process, measure);
    d.Update(z, process, measure);
    mag = std::max(mag, std::fabs(z));
    noise = std::min(process, measure);
    for (int i = 0; i < 4; ++i) loss[i] = std::max(loss[i], std::fabs(static_cast<double>(x.x[i] - d.x[i])));
  }
  double mag = 0;
  double at(int i) const { return static_cast<double>(x.x[i]); }
  double err(int i) const {
    double all = std::max({loss[0], loss[1], loss[2], loss[3]});
    return 30 * loss[i] + 3 * all + mag * (1e-12 + 1e-14 / noise);
  }
};

}  // namespace ref

#endif
