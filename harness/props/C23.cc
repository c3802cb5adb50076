// Arithmetic, comparison and equality of the public value types.
#include "../fields.h"
#include "../ref.h"

using namespace ref;  // NOLINT

namespace {

bool Eq(float a, float b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
bool EqD(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
bool Eq(Vec2 a, Vec2 b) { return Eq(a.x, b.x) && Eq(a.y, b.y); }

float F(Src& s) {
  if (s.chance(1, 3)) return OddFloat(s);
  return s.chance(1, 2) ? static_cast<float>(s.range(-8, 8)) : static_cast<float>(s.real(-1000, 1000));
}
double Dbl(Src& s) {
  if (s.chance(1, 3)) return OddDouble(s);
  return s.chance(1, 2) ? s.range(-8, 8) : s.real(-1000, 1000);
}

void Vectors(Case& c) {
  Src& s = c.src;
  Vec2 a{F(s), F(s)}, b{F(s), F(s)};
  if (s.chance(1, 8)) b = a;
  if (s.chance(1, 8)) b.x = a.x;
  if (s.chance(1, 8)) b.y = a.y;
  float k = F(s);
  c.note("a (%.9g, %.9g) b (%.9g, %.9g) k %.9g", a.x, a.y, b.x, b.y, k);
  CHECK_THAT(c, Eq(a + b, {a.x + b.x, a.y + b.y}), "a + b");
  CHECK_THAT(c, Eq(a - b, {a.x - b.x, a.y - b.y}), "a - b");
  CHECK_THAT(c, Eq(k * a, {k * a.x, k * a.y}) && Eq(a * k, {a.x * k, a.y * k}), "a * k");
  auto close = [](float x, float y) { return Eq(x, y) || std::fabs(static_cast<double>(x) - y) <= 2 * kEpsF * std::fabs(y) + 2 * FLT_TRUE_MIN; };
  Vec2 q = a / k;
  CHECK_THAT(c, close(q.x, a.x / k) && close(q.y, a.y / k), "a / k is (%g, %g)", q.x, q.y);
  Vec2 t = a;
  Vec2* r = &(t += b);
  CHECK_THAT(c, r == &t && Eq(t, a + b), "a += b");
  t = a;
  r = &(t -= b);
  CHECK_THAT(c, r == &t && Eq(t, a - b), "a -= b");
  t = a;
  r = &(t *= k);
  CHECK_THAT(c, r == &t && Eq(t, a * k), "a *= k");
  t = a;
  r = &(t /= k);
  CHECK_THAT(c, r == &t && close(t.x, q.x) && close(t.y, q.y), "a /= k");
  bool same = a.x == b.x && a.y == b.y;
  CHECK_THAT(c, (a == b) == same && (a != b) == !same && (b == a) == same, "a == b");
  bool fin = std::isfinite(a.x) && std::isfinite(a.y);
  CHECK_THAT(c, a.IsFinite() == fin, "IsFinite");
  // Products
  double dot = static_cast<double>(a.x) * b.x + static_cast<double>(a.y) * b.y;
  double parts = std::fabs(static_cast<double>(a.x) * b.x) + std::fabs(static_cast<double>(a.y) * b.y);
  float got = Vec2::DotProduct(a, b);
  if (fin && b.IsFinite() && parts < 3e38) {
    CHECK_THAT(c, std::fabs(got - dot) <= 3 * kEpsF * parts + 4 * FLT_TRUE_MIN, "dot product %.9g, expected %.9g", got, dot);
  }
  CHECK_THAT(c, Eq(got, Vec2::DotProduct(b, a)), "dot product not symmetric");
  if (fin) {
    double len = std::hypot(static_cast<double>(a.x), static_cast<double>(a.y));
    if (len < 3.4e38) CHECK_THAT(c, std::fabs(a.Magnitude() - len) <= 2 * kEpsF * len + 2 * FLT_TRUE_MIN, "magnitude %.9g, expected %.9g", a.Magnitude(), len);
    CHECK_THAT(c, a.Magnitude() >= 0 && (a.Magnitude() == 0) == (a.x == 0 && a.y == 0), "magnitude %g", a.Magnitude());
  }
  c.label("vectors");
  c.nontrivial();
}

void Angle(Case& c) {
  Src& s = c.src;
  Vec2 a, b;
  int mode = s.weighted({3, 3, 2, 2});
  if (mode == 0) {
    a = {static_cast<float>(s.real(-10, 10)), static_cast<float>(s.real(-10, 10))};
    b = {static_cast<float>(s.real(-10, 10)), static_cast<float>(s.real(-10, 10))};
  } else if (mode == 1) {
    // Nearly or exactly parallel, opposite or at a right angle.
    a = {static_cast<float>(s.range(-5, 5)), static_cast<float>(s.range(-5, 5))};
    static const float kM[] = {1, -1, 2, -0.5f, 1e5f, -1e-5f};
    float k = s.pick(kM);
    b = s.chance(1, 3) ? Vec2{-k * a.y, k * a.x} : Vec2{k * a.x, k * a.y};
    if (s.chance(1, 2)) b.x = std::nextafter(b.x, s.chance(1, 2) ? 1e9f : -1e9f);
  } else if (mode == 2) {
    static const double kS[] = {1e-18, 1e-15, 1e15, 1e18, 1e-30, 1e30};
    double k = s.pick(kS), l = s.pick(kS);
    a = {static_cast<float>(s.real(-10, 10) * k), static_cast<float>(s.real(-10, 10) * k)};
    b = {static_cast<float>(s.real(-10, 10) * l), static_cast<float>(s.real(-10, 10) * l)};
  } else {
    a = {F(s), F(s)};
    b = {F(s), F(s)};
  }
  c.note("a (%.9g, %.9g) b (%.9g, %.9g)", a.x, a.y, b.x, b.y);
  auto r = a.AbsoluteAngleTo(b), rr = b.AbsoluteAngleTo(a);
  bool fin = std::isfinite(a.x) && std::isfinite(a.y) && std::isfinite(b.x) && std::isfinite(b.y);
  CHECK_THAT(c, r.ok() == fin && rr.ok() == fin, "angle: ok is %d", r.ok());
  if (!fin) {
    CHECK_THAT(c, r.status().code() == absl::StatusCode::kInvalidArgument, "angle: status code %d", static_cast<int>(r.status().code()));
    c.label("angle of non-finite vectors");
    return;
  }
  CHECK_THAT(c, *r >= 0 && *r <= 3.1415928f, "angle %.9g out of range", *r);
  bool zero = (a.x == 0 && a.y == 0) || (b.x == 0 && b.y == 0);
  if (zero) {
    CHECK_THAT(c, *r == 0 && *rr == 0, "angle %.9g with a zero vector", *r);
    c.label("angle with a zero vector");
    return;
  }
  V x = D(a), y = D(b);
  double la = Len(x), lb = Len(y);
  if (la < 1e-36 || lb < 1e-36 || la > 3e38 || lb > 3e38) {
    c.label("angle of vectors whose length is not a normal float");
    return;
  }
  double cosine = Dot(x / la, y / lb), sine = std::fabs(Cross(x / la, y / lb));
  double exact = std::atan2(sine, cosine);
  // Good to float precision in the cosine (or better).
  double tol = 8 * kEpsF;
  double lo = std::acos(std::min(1., cosine + tol)), hi = std::acos(std::max(-1., cosine - tol));
  CHECK_THAT(c, *r >= lo * (1 - 4 * kEpsF) - 1e-12 && *r <= hi * (1 + 4 * kEpsF), "angle %.9g, expected %.9g (%.9g to %.9g)", *r, exact, lo, hi);
  CHECK_THAT(c, *rr >= lo * (1 - 4 * kEpsF) - 1e-12 && *rr <= hi * (1 + 4 * kEpsF), "reverse angle %.9g, expected %.9g", *rr, exact);
  // Mirror images, and exactly scaled vectors.
  auto angle = [&](Vec2 p, Vec2 q) { return p.AbsoluteAngleTo(q).value(); };
  auto agree = [&](float g) { return g >= lo * (1 - 4 * kEpsF) - 1e-12 && g <= hi * (1 + 4 * kEpsF); };
  CHECK_THAT(c, agree(angle({a.x, -a.y}, {b.x, -b.y})) && agree(angle({a.y, a.x}, {b.y, b.x})) && agree(angle({-a.x, -a.y}, {-b.x, -b.y})), "angle of mirror images");
  if (la < 1e30 && lb > 1e-30) CHECK_THAT(c, agree(angle(a * 4.f, b / 4.f)), "angle depends on the lengths");
  float opp = angle(a, {-b.x, -b.y});
  CHECK_THAT(c, std::fabs(std::cos(static_cast<double>(opp)) + cosine) <= 3 * tol, "angle to the opposite vector %.9g, expected %.9g", opp, 3.14159265 - exact);
  c.label("angle");
  c.nontrivial();
}

void Times(Case& c) {
  Src& s = c.src;
  double x = Dbl(s), y = Dbl(s), k = Dbl(s);
  if (s.chance(1, 6)) y = x;
  if (s.chance(1, 6)) y = std::nextafter(x, s.chance(1, 2) ? 1e308 : -1e308);
  c.note("x %.17g y %.17g k %.17g", x, y, k);
  Duration a(x), b(y);
  CHECK_THAT(c, Duration().Value() == 0 && Time().Value() == 0, "default value");
  CHECK_THAT(c, EqD(a.Value(), x) && EqD(Time(x).Value(), x), "value");
  CHECK_THAT(c, EqD((a + b).Value(), x + y) && EqD((a - b).Value(), x - y), "duration sum");
  auto close = [](double p, double q) { return EqD(p, q) || std::fabs(p - q) <= 4e-16 * std::fabs(q) + 1e-323; };
  CHECK_THAT(c, EqD((a * k).Value(), x * k) && EqD((k * a).Value(), k * x) && close((a / k).Value(), x / k), "duration product");
  auto assign = [&](auto op, double expect, const char* what) {
    Duration t = a;
    Duration* r = &op(t);
    CHECK_THAT(c, r == &t && close(t.Value(), expect), "%s: %.17g, expected %.17g", what, t.Value(), expect);
  };
  assign([&](Duration& t) -> Duration& { return t += b; }, x + y, "+=");
  assign([&](Duration& t) -> Duration& { return t -= b; }, x - y, "-=");
  assign([&](Duration& t) -> Duration& { return t *= k; }, x * k, "*=");
  assign([&](Duration& t) -> Duration& { return t /= k; }, x / k, "/=");
  CHECK_THAT(c, (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "duration comparison");
  Time t(x), u(y);
  CHECK_THAT(c, EqD((t + b).Value(), x + y) && EqD((b + t).Value(), x + y) && EqD((t - b).Value(), x - y) && EqD((t - u).Value(), x - y), "time arithmetic");
  Time v = t;
  Time* r = &(v += b);
  CHECK_THAT(c, r == &v && EqD(v.Value(), x + y), "time +=");
  v = t;
  r = &(v -= b);
  CHECK_THAT(c, r == &v && EqD(v.Value(), x - y), "time -=");
  CHECK_THAT(c, (t == u) == (x == y) && (t != u) == (x != y) && (t < u) == (x < y) && (t > u) == (x > y) && (t <= u) == (x <= y) && (t >= u) == (x >= y), "time comparison");
  c.label("times");
  c.nontrivial();
}

void Records(Case& c) {
  Src& s = c.src;
  auto f = [&] { return s.chance(1, 10) ? OddFloat(s) : static_cast<float>(s.range(-2, 3)); };
  Input a{.event_type = static_cast<Input::EventType>(s.below(3)), .position = {f(), f()}, .time = Time(f()), .pressure = f(), .tilt = f(), .orientation = f()};
  Input b = a;
  int n = s.weighted({2, 5, 1});
  for (int i = 0; i < n; ++i) {
    switch (s.below(7)) {
      case 0: b.event_type = static_cast<Input::EventType>(s.below(3)); break;
      case 1: b.position.x = f(); break;
      case 2: b.position.y = f(); break;
      case 3: b.time = Time(f()); break;
      case 4: b.pressure = f(); break;
      case 5: b.tilt = f(); break;
      default: b.orientation = f(); break;
    }
  }
  bool same = a.event_type == b.event_type && a.position.x == b.position.x && a.position.y == b.position.y && a.time.Value() == b.time.Value() && a.pressure == b.pressure &&
              a.tilt == b.tilt && a.orientation == b.orientation;
  CHECK_THAT(c, (a == b) == same && (a != b) == !same && (b == a) == same, "inputs %s and %s: equality is %d", Str(a).c_str(), Str(b).c_str(), a == b);
  Result p{.position = {f(), f()}, .velocity = {f(), f()}, .acceleration = {f(), f()}, .time = Time(f()), .pressure = f(), .tilt = f(), .orientation = f()};
  Result q = p;
  for (int i = 0; i < n; ++i) {
    switch (s.below(10)) {
      case 0: q.position.x = f(); break;
      case 1: q.position.y = f(); break;
      case 2: q.velocity.x = f(); break;
      case 3: q.velocity.y = f(); break;
      case 4: q.acceleration.x = f(); break;
      case 5: q.acceleration.y = f(); break;
      case 6: q.time = Time(f()); break;
      case 7: q.pressure = f(); break;
      case 8: q.tilt = f(); break;
      default: q.orientation = f(); break;
    }
  }
  same = p.position.x == q.position.x && p.position.y == q.position.y && p.velocity.x == q.velocity.x && p.velocity.y == q.velocity.y && p.acceleration.x == q.acceleration.x &&
         p.acceleration.y == q.acceleration.y && p.time.Value() == q.time.Value() && p.pressure == q.pressure && p.tilt == q.tilt && p.orientation == q.orientation;
  CHECK_THAT(c, (p == q) == same && (p != q) == !same && (q == p) == same, "results %s and %s: equality is %d", Str(p).c_str(), Str(q).c_str(), p == q);
  // Defaults: unknown stylus values, zeros elsewhere.
  Result d;
  CHECK_THAT(c, d.pressure == -1 && d.tilt == -1 && d.orientation == -1 && d.position == Vec2{} && d.velocity == Vec2{} && d.acceleration == Vec2{} && d.time.Value() == 0,
             "default result");
  Input e{.event_type = Input::EventType::kDown};
  CHECK_THAT(c, e.pressure == -1 && e.tilt == -1 && e.orientation == -1 && e.position == Vec2{} && e.time.Value() == 0, "default input");
  // Validity of an input depends on the event, position and time only.
  Input v = a;
  if (s.chance(1, 2)) v.position.x = OddFloat(s);
  if (s.chance(1, 4)) v.position.y = OddFloat(s);
  if (s.chance(1, 4)) v.time = Time(OddDouble(s));
  if (s.chance(1, 8)) v.event_type = static_cast<Input::EventType>(3 + s.below(3));
  bool valid = static_cast<int>(v.event_type) <= 2 && std::isfinite(v.position.x) && std::isfinite(v.position.y) && std::isfinite(v.time.Value());
  absl::Status st = ValidateInput(v);
  CHECK_THAT(c, valid ? st.ok() : st.code() == absl::StatusCode::kInvalidArgument, "ValidateInput(%s) returns status code %d", Str(v).c_str(), static_cast<int>(st.code()));
  c.label("records");
  c.nontrivial();
}

void Run(Case& c) {
  switch (c.src.weighted({3, 5, 3, 4})) {
    case 0: return Vectors(c);
    case 1: return Angle(c);
    case 2: return Times(c);
    default: return Records(c);
  }
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C23",
    "Generated vectors, durations, times, inputs and results: small numbers, reals, zeros, "
    "denormals, extremes, infinities, NaN, arbitrary bit patterns, near-parallel vectors, records "
    "differing in one field; operators compared with component-wise arithmetic, the angle with "
    "double precision. Non-trivial: everything except angles with zero or non-finite vectors.",
    "Accuracy of the angle claimed for vectors whose length is a normal float, and in its cosine",
    8000000, 100000000, Run};
