// Kalman prediction: connector to the estimate, then confident extension.
#include "../ref.h"
#include "kalman_ref.h"

using namespace ref;  // NOLINT

namespace {

struct State {
  V p, v, a, j;
};

double Norm01(double a, double b, double v) {
  if (a == b) return v > a ? 1 : 0;
  return std::clamp((v - a) / (b - a), 0., 1.);
}

void Run(Case& c) {
  Src& s = c.src;
  bool dyadic = s.chance(1, 2);
  Units u = GenUnits(c, {.dyadic = dyadic});
  ParamOpts po;
  po.mitigation = kNo;
  po.pred = kPredKalman;
  po.dyadic_rate = dyadic;
  po.wobble = kNo;
  po.small_limits = s.chance(1, 5);
  StrokeModelParams p = GenParams(c, u, po);
  auto& kp = std::get<KalmanPredictorParams>(p.prediction_params);
  static const double kIntervals[] = {8, 3, 40, 0.5};
  if (s.chance(1, 8)) kp.max_time_samples = 1;
  if (s.chance(1, 4)) kp.prediction_interval = Duration(kIntervals[s.below(4)] * u.period);
  // A smoothing whose outcome is exactly known: the mean of this position and
  // the one before (equal time steps, window of one step, no speed too high).
  bool smooth = dyadic && s.chance(1, 4);
  StrokeOpts so;
  so.tiny_dt = !dyadic && s.chance(1, 3);
  so.dyadic = dyadic;
  so.max_moves = 20;
  so.long_moves = 60;
  std::vector<Input> in = GenStroke(c, u, so);
  if (smooth) {
    auto& w = p.wobble_smoother_params;
    w.is_enabled = true;
    w.timeout = Duration(u.period);
    w.speed_floor = 1e30f;
    w.speed_ceiling = 2e30f;
    for (size_t i = 1; i < in.size(); ++i) in[i].time = Time(in[0].time.Value() + i * u.period);
    for (auto& x : in) {
      x.position.x = std::round(x.position.x / u.length * 64) / 64 * u.length;
      x.position.y = std::round(x.position.y / u.length * 64) / 64 * u.length;
    }
    c.label("smoothed");
  }
  NoteCase(c, p, in);
  const auto& q = kp.confidence_params;
  const double rate = p.sampling_params.min_output_rate, sdt = 1 / rate;
  const double cap = p.sampling_params.max_outputs_per_call;
  Dut m(c);
  MustReset(c, m, p);
  Axis ax, ay;
  std::vector<double> times;
  int compared = 0, extended = 0, long_conn = 0, empty = 0, ambiguous = 0, capped = 0, too_few = 0;
  for (size_t i = 0; i < in.size() && in[i].event_type != Input::EventType::kUp; ++i) {
    std::vector<Result> out, pred;
    if (!m.Update(in[i], out).ok()) {
      if (cap >= 100000) c.fail("update %zu refused", i);
      break;
    }
    Result tip = out.back();
    V at = D(in[i].position);
    if (smooth && i >= 2) at = 0.5 * (at + D(in[i - 1].position));
    ax.Update(at.x, kp.process_noise, kp.measurement_noise);
    ay.Update(at.y, kp.process_noise, kp.measurement_noise);
    times.push_back(in[i].time.Value());
    if (s.chance(1, 3)) continue;
    absl::Status st = m.Predict(pred);
    CHECK_THAT(c, st.ok(), "prediction after input %zu fails", i);
    for (auto& x : pred) c.note("    [%zu] %s", i, Str(x).c_str());
    if (ax.x.n < kp.min_stable_iteration) {
      CHECK_THAT(c, pred.empty(), "prediction after %d inputs, stable from %d on", ax.x.n, kp.min_stable_iteration);
      ++too_few;
      continue;
    }
    size_t nt = std::min<size_t>(times.size(), kp.max_time_samples);
    double dt = static_cast<float>(times.back() - times[times.size() - nt]) / static_cast<double>(nt);
    if (dt == 0) {
      CHECK_THAT(c, pred.empty(), "prediction after input %zu without any time passing", i);
      ++empty;
      continue;
    }
    State e;
    e.p = {ax.at(0), ay.at(0)};
    e.v = V{ax.at(1), ay.at(1)} / dt;
    e.a = V{ax.at(2), ay.at(2)} / (dt * dt) * kp.acceleration_weight;
    e.j = V{ax.at(3), ay.at(3)} / (dt * dt * dt) * kp.jerk_weight;
    double big = Len(V{ax.at(3), ay.at(3)}) / (dt * dt * dt) + Len(e.j) + Len(e.a);
    if (!(big < 1e30) || !(1 / (dt * dt * dt) < 1e30) || !(dt * dt * dt > 1e-30)) throw pbt::Discard{};
    auto filt = [&](int i) { return ax.err(i) + ay.err(i); };  // of the filter's own state
    double fe = 4 * kEpsF;  // relative rounding of each component
    double pe = fe * Len(e.p) + filt(0), ve = fe * Len(e.v) + filt(1) / dt;
    double ae = fe * Len(e.a) + filt(2) / (dt * dt) * std::fabs(kp.acceleration_weight);
    double je = fe * Len(e.j) + filt(3) / (dt * dt * dt) * std::fabs(kp.jerk_weight);
    V p0 = D(tip.position), v0 = D(tip.velocity);
    // Length of the connector.
    double dist = Dist(p0, e.p), derr = 4 * kEpsF * (Len(p0) + Len(e.p)) + pe;
    double vmax = std::max({Len(v0), Len(e.v), static_cast<double>(kp.min_catchup_velocity)});
    auto conn = [&](double sign) {
      double d = std::max(0., dist + sign * derr) / (vmax - sign * std::min(ve + 4 * kEpsF * vmax, vmax / 2));
      return std::min(std::max(std::ceil(d / sdt * (1 + sign * 2e-6)), 1.), cap);
    };
    double c_lo = conn(-1), c_hi = conn(1);
    // Confidence.
    double T = kp.prediction_interval.Value();
    V end = e.p + T * e.v + T * T / 2 * e.a + T * T * T / 6 * e.j;
    double reach_err = pe + T * ve + T * T / 2 * ae + T * T * T / 6 * je + 16 * kEpsF * (Len(e.p) + T * Len(e.v) + T * T * Len(e.a) + T * T * T * Len(e.j));
    double target = T * rate;
    double samples = std::min(1., ax.x.n / static_cast<double>(q.desired_number_of_samples));
    double err = Dist(at, e.p);
    double speed = Dist(e.p, end) / T, speed_err = reach_err / T + 8 * kEpsF * speed;
    double dev = Dist(end, e.p + T * e.v);
    auto count = [&](double sign) {
      double f2 = 1 - Norm01(0, q.max_estimation_distance, err - sign * (derr + 4 * kEpsF * Len(at)));
      double f3 = Norm01(q.min_travel_speed, q.max_travel_speed, speed + sign * speed_err);
      double f4 = q.baseline_linearity_confidence + (1 - q.baseline_linearity_confidence) * (1 - Norm01(0, q.max_linear_deviation, dev - sign * 2 * reach_err));
      double conf = samples * f2 * f3 * f4;
      double x = target * conf;
      // ceil() of a tiny positive number is 1.
      double slack = sign * (4e-6 * target + 1e-7 * target / std::max(1e-6, 1.));
      if (f2 == 0 || f3 == 0 || f4 == 0) slack = 0;
      return std::max(0., std::ceil(x * (1 + sign * 4e-6) + slack));
    };
    double e_lo = count(-1), e_hi = count(1);
    c.note("    [%zu] expect connector %g to %g, extension %g to %g (at most %g in all)", i, c_lo, c_hi, e_lo, e_hi, cap);
    CHECK_THAT(c, pred.size() <= cap, "prediction of %zu results, limit %g", pred.size(), cap);
    bool ok = false;
    std::string why = "number of results";
    if (c_lo != c_hi || e_lo != e_hi) ++ambiguous;
    for (double nc = c_lo; nc <= c_hi && !ok; ++nc) {
      double ext = pred.size() - nc;
      double room = cap - nc;
      if (ext < std::min(e_lo, room) || ext > std::min(e_hi, room)) continue;
      ok = true;
      double dur = nc * sdt;
      V a = 2 * p0 - 2 * e.p + dur * (v0 + e.v);
      V b = -3 * p0 + 3 * e.p - dur * (2 * v0 + e.v);
      V cc = dur * v0;
      double mag = 3 * Len(p0) + 3 * Len(e.p) + dur * (2 * Len(v0) + Len(e.v));
      double base = 24 * kEpsF * mag + 6 * (pe + dur * ve);
      double tt = std::fabs(tip.time.Value()) + dur;
      for (size_t j = 0; j < pred.size() && ok; ++j) {
        V xp, xv, xa;
        double ep, ev, ea;
        if (j < nc) {
          double t = (j + 1) / nc;
          xp = t * t * t * a + t * t * b + t * cc + p0;
          xv = (3 * t * t * a + 2 * t * b + cc) / dur;
          xa = (6 * t * a + 2 * b) / (dur * dur);
          ep = base;
          ev = 6 * base / dur;
          ea = 12 * base / (dur * dur);
        } else {
          double k = j - nc + 1, t = k * sdt;
          xp = e.p + t * e.v + t * t / 2 * e.a + t * t * t / 6 * e.j;
          xv = e.v + t * e.a + t * t / 2 * e.j;
          xa = e.a + t * e.j;
          double r = (4 * k + 12) * kEpsF;
          ep = r * (Len(e.p) + t * Len(e.v) + t * t * Len(e.a) + t * t * t * Len(e.j)) + pe + t * ve + t * t / 2 * ae + t * t * t / 6 * je;
          ev = r * (Len(e.v) + t * Len(e.a) + t * t * Len(e.j)) + ve + t * ae + t * t / 2 * je;
          ea = r * (Len(e.a) + t * Len(e.j)) + ae + t * je;
        }
        double xt = tip.time.Value() + (j + 1) * sdt;
        char buf[300];
        if (std::fabs(pred[j].time.Value() - xt) > 4e-7 * dur + (1e-14 + 2.3e-16 * (j + 1)) * tt + 1e-12 * (j + 1) * sdt) {
          snprintf(buf, sizeof buf, "result %zu at %.17g, expected %.17g", j, pred[j].time.Value(), xt);
          why = buf;
          ok = false;
        } else if (Dist(D(pred[j].position), xp) > ep || Dist(D(pred[j].velocity), xv) > ev || Dist(D(pred[j].acceleration), xa) > ea) {
          snprintf(buf, sizeof buf, "result %zu of %g + %g: expected pos (%.9g, %.9g) +- %.3g v (%.9g, %.9g) +- %.3g a (%.9g, %.9g) +- %.3g", j, nc, ext, xp.x, xp.y, ep, xv.x, xv.y,
                   ev, xa.x, xa.y, ea);
          why = buf;
          ok = false;
        }
      }
      if (ok) {
        ++compared;
        extended += ext > 0;
        long_conn += nc > 1;
        capped += pred.size() == cap;
      }
    }
    CHECK_THAT(c, ok, "prediction after input %zu (%zu results; connector %g to %g, extension %g to %g): %s", i, pred.size(), c_lo, c_hi, e_lo, e_hi, why.c_str());
  }
  c.label_if(extended > 0, "extension beyond the estimate");
  c.label_if(long_conn > 0, "connector of several results");
  c.label_if(empty > 0, "no time between inputs");
  c.label_if(too_few > 0, "too few inputs");
  c.label_if(ambiguous > 0, "count within rounding");
  c.label_if(capped > 0, "at the output limit");
  if (compared >= 2 && extended > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C14",
    "A generated stroke with the Kalman predictor under generated noise, confidence and "
    "sampling parameters; at generated points the prediction is compared with a reference "
    "in double precision: own filter equations, connector, confidence and extension. A "
    "quarter of the dyadic cases use a smoothing whose outcome is exactly known. "
    "Non-trivial: at least two predictions compared in full, one with an extension.",
    "Counts within float rounding of the confidence product accepted|the input interval is the span "
    "of the kept time stamps over their number, as implemented|loop mitigation off",
    800000, 12000000, Run};
