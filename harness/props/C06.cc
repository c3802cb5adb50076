// Wobble smoothing is a speed-weighted moving average.
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

struct Blend {
  V avg;
  double lo, hi;  // weight of the raw position
  double err;
  V box_lo, box_hi;
};

// The smoothed position of input i, for the window starting at `first`.
Blend Reference(const std::vector<Input>& in, size_t first, size_t i, const StrokeModelParams& p) {
  Blend b;
  V sum;
  double dur = 0, dist = 0, big = 0;
  V at = D(in[i].position);
  b.box_lo = b.box_hi = at;
  for (size_t j = first; j <= i; ++j) {
    V q = D(in[j].position);
    double d = j ? in[j].time.Value() - in[j - 1].time.Value() : 0;
    sum = sum + d * q;
    dur += d;
    if (j) dist += Dist(q, D(in[j - 1].position));
    big = std::max(big, Len(q));
    b.box_lo = {std::min(b.box_lo.x, q.x), std::min(b.box_lo.y, q.y)};
    b.box_hi = {std::max(b.box_hi.x, q.x), std::max(b.box_hi.y, q.y)};
  }
  int n = i - first + 1;
  if (dur == 0) {
    b.avg = at;
    b.lo = b.hi = 1;
    b.err = 4 * kEpsF * Len(at);
    return b;
  }
  b.avg = sum / dur;
  b.err = (2 * n + 12) * kEpsF * big;
  double speed = dist / dur, serr = (n + 12) * kEpsF * speed;
  double f = p.wobble_smoother_params.speed_floor, g = p.wobble_smoother_params.speed_ceiling;
  auto weight = [&](double v) {
    if (f == g) return v > f ? 1. : 0.;
    return std::clamp((v - f) / (g - f), 0., 1.);
  };
  double extra = f == g ? 0 : 4 * kEpsF * g / (g - f);
  b.lo = std::max(0., weight(speed - serr) - extra);
  b.hi = std::min(1., weight(speed + serr) + extra);
  if (speed == 0) b.lo = b.hi = 0;  // exact; and it makes no difference
  return b;
}

void Run(Case& c) {
  Src& s = c.src;
  bool dyadic = s.chance(2, 3);
  Units u = GenUnits(c, {.dyadic = dyadic});
  ParamOpts po;
  po.mitigation = kNo;
  po.wobble = s.chance(1, 12) ? kNo : kYes;
  po.dyadic_rate = dyadic;
  StrokeModelParams p = GenParams(c, u, po);
  const bool on = p.wobble_smoother_params.is_enabled;
  StrokeOpts so;
  so.tiny_dt = !dyadic && s.chance(1, 3);
  so.dyadic = dyadic;
  so.max_pause = 60;
  so.long_moves = 80;
  std::vector<Input> in = GenStroke(c, u, so);
  if (s.chance(1, 4)) {
    // Hold still for a while, possibly after a pause, near the end.
    Input last = in.back();
    bool had_up = last.event_type == Input::EventType::kUp;
    if (had_up) in.pop_back();
    int n = s.range(2, 10);
    double t = in.back().time.Value();
    Vec2 at = in.back().position;
    if (s.chance(1, 2)) t += u.period * (1 + s.below(200));
    for (int j = 0; j < n; ++j) {
      t += u.period * (1 + s.below(4)) / 2;
      Input k = in.back();
      k.event_type = Input::EventType::kMove;
      k.position = at;
      k.time = Time(t);
      in.push_back(k);
    }
    if (had_up) {
      last.time = Time(t + u.period);
      in.push_back(last);
    }
    c.label("held still");
  }
  NoteCase(c, p, in);
  Dut m(c);
  MustReset(c, m, p);
  Result prev{};
  int checked = 0, smoothed = 0, partial = 0, left = 0, ambiguous = 0;
  double timeout = p.wobble_smoother_params.timeout.Value();
  // A move at the time of the one before has no step of its own, but the next
  // path starts from its smoothed position.
  int pending = -1;
  auto verify = [&](size_t i, const Anchor& a) {
    double t = in[i].time.Value();
    V at = D(in[i].position);
    if (!on || in[i].event_type != Input::EventType::kMove) {
      CHECK_THAT(c, Dist(a.pos, at) <= a.err + 4 * kEpsF * Len(at), "input %zu: position (%.9g, %.9g) used instead of the raw one", i, a.pos.x, a.pos.y);
      return;
    }
    // The window: everything not older than the timeout.
    std::vector<size_t> firsts;
    size_t f = 0;
    while (in[f].time.Value() < t - timeout) ++f;
    firsts.push_back(f);
    if (!dyadic) {
      double eps = 1e-14 * (std::fabs(t) + timeout);
      for (size_t j = 0; j <= i; ++j) {
        if (j != f && std::fabs(in[j].time.Value() - (t - timeout)) <= eps) firsts.push_back(j);
        if (j > 0 && j != f && std::fabs(in[j - 1].time.Value() - (t - timeout)) <= eps) firsts.push_back(j);
      }
    }
    ambiguous += firsts.size() > 1;
    left += f > 0;
    double best = 1e300;
    Blend show{};
    bool ok = false;
    for (size_t first : firsts) {
      Blend b = Reference(in, first, i, p);
      V d = at - b.avg;
      double len2 = Dot(d, d);
      double r = len2 > 0 ? std::clamp(Dot(a.pos - b.avg, d) / len2, b.lo, b.hi) : b.lo;
      double miss = Dist(a.pos, b.avg + r * d) - a.err - b.err;
      if (p.wobble_smoother_params.speed_floor == p.wobble_smoother_params.speed_ceiling && b.lo != b.hi) {
        miss = std::min(Dist(a.pos, b.avg), Dist(a.pos, at)) - a.err - b.err;
      }
      if (miss < best) best = miss, show = b;
      ok = ok || miss <= 0;
      if (first == f) {
        double tol = a.err + b.err;
        CHECK_THAT(c, firsts.size() > 1 || (a.pos.x >= b.box_lo.x - tol && a.pos.x <= b.box_hi.x + tol && a.pos.y >= b.box_lo.y - tol && a.pos.y <= b.box_hi.y + tol),
                   "input %zu: smoothed position (%.9g, %.9g) is outside the box of the window's positions", i, a.pos.x, a.pos.y);
        if (Len(d) > 16 * tol && b.lo < 1) ++smoothed;
        if (Len(d) > 16 * tol && b.lo > 0.01 && b.hi < 0.99) ++partial;
      }
    }
    CHECK_THAT(c, ok, "input %zu at (%.9g, %.9g): smoothed to (%.9g, %.9g), expected average (%.9g, %.9g) and weight %.9g to %.9g (off by %.3g)", i, at.x, at.y, a.pos.x,
               a.pos.y, show.avg.x, show.avg.y, show.lo, show.hi, best);
    ++checked;
  };
  for (size_t i = 0; i < in.size(); ++i) {
    Call call = Feed(m, in[i], i ? &prev : nullptr, i ? in[i - 1].time.Value() : 0, 0);
    CHECK_THAT(c, call.ok(), "update %zu refused", i);
    const auto& r = call.out;
    if (i == 0) {
      CHECK_THAT(c, Eq(r[0].position, in[0].position), "the down's position is altered");
    } else if (call.steps > 0 && r[call.steps - 1].time.Value() > prev.time.Value()) {
      int n = call.steps;
      Anchor a = ImpliedAnchor(n > 1 ? r[n - 2] : prev, r[n - 1], p);
      verify(i, a);
      if (pending >= 0 && n >= 2) {
        Anchor a1 = ImpliedAnchor(prev, r[0], p);
        Anchor b;
        b.pos = (n * a1.pos - a.pos) / (n - 1.);
        b.err = 2 * (n * a1.err + a.err) / (n - 1.);
        verify(pending, b);
        c.label("simultaneous input checked");
      }
      pending = -1;
    } else {
      pending = i;
    }
    if (in[i].event_type == Input::EventType::kUp) {
      // What catches up with the end does so with its raw position.
      for (int k = call.steps; k < static_cast<int>(r.size()) && k < call.steps + 4; ++k) {
        const Result& from = k ? r[k - 1] : prev;
        if (r[k].time.Value() <= from.time.Value()) continue;
        verify(i, ImpliedAnchor(from, r[k], p));
        c.label("end of the stroke checked");
      }
    }
    prev = r.back();
  }
  c.label_if(smoothed > 0, "smoothed");
  c.label_if(partial > 0, "between floor and ceiling");
  c.label_if(left > 0, "samples left the window");
  c.label_if(!on, "disabled");
  c.label_if(ambiguous > 0, "window boundary within rounding");
  if (checked >= 2 && smoothed > 0) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C06",
    "A generated stroke (two thirds with exactly representable times, so that window "
    "boundaries are exact; pauses of up to 60 periods, holds, simultaneous inputs) under "
    "generated smoothing parameters. The position used for each input is recovered from "
    "the accelerations of the results and compared with a reference average and blend in "
    "double precision. Non-trivial: at least two positions compared, one of them moved by "
    "the smoothing by much more than the tolerance.",
    "Observed through the spring model (property C04)|weights within float rounding accepted",
    2500000, 30000000, Run};
