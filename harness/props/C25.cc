// The text form of a value shows every field.
#include <iomanip>
#include <sstream>

#include "../gen.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"

using namespace gen;  // NOLINT

namespace {

double Value(Src& s, bool flt) {
  static const double kOdd[] = {0, -0., 1, -1, 0.1, -2.7, 123456, 1e6, 1e-5, 1e-30, -3e37, 0.333333, 999999.5, 1e5};
  double v;
  switch (s.weighted({4, 3, 2, 1})) {
    case 0: v = s.range(-1000, 1000); break;
    case 1: v = s.pick(kOdd); break;
    case 2: v = s.real(-1, 1) * s.logreal(1e-6, 1e9); break;
    default: {
      static const double kInf[] = {INFINITY, -INFINITY, NAN};
      v = s.pick(kInf);
    }
  }
  return flt ? static_cast<float>(v) : v;
}

// The numbers in a text, in order; a number starts after a separator.
std::vector<double> Numbers(const std::string& t) {
  std::vector<double> out;
  for (size_t i = 0; i < t.size();) {
    char before = i ? t[i - 1] : ' ';
    bool start = !isalnum(static_cast<unsigned char>(before)) && before != '_' && before != '.' && before != '-' && before != '+';
    const char* p = t.c_str() + i;
    bool number = isdigit(static_cast<unsigned char>(*p)) || ((*p == '-' || *p == '+' || *p == '.') && isdigit(static_cast<unsigned char>(p[1])));
    const char* q = *p == '-' || *p == '+' ? p + 1 : p;
    bool special = (strncasecmp(q, "inf", 3) == 0 || strncasecmp(q, "nan", 3) == 0) && !isalpha(static_cast<unsigned char>(q[3]));
    special = special || strncasecmp(q, "infinity", 8) == 0;
    if (start && (number || special)) {
      char* end;
      out.push_back(std::strtod(p, &end));
      i += end - p;
    } else {
      ++i;
    }
  }
  return out;
}

bool Shows(double shown, double v) {
  if (std::isnan(v)) return std::isnan(shown);
  if (std::isinf(v)) return shown == v;
  return std::fabs(shown - v) <= 6e-6 * std::fabs(v);
}

template <typename T>
std::string Text(Case& c, const T& v, const std::vector<double>& want, const char* what) {
  std::ostringstream o;
  o << v;
  std::string t = o.str();
  c.note("%s: %s", what, t.c_str());
  CHECK_THAT(c, ToFormattedString(v) == t, "%s: formatted %s, streamed %s", what, ToFormattedString(v).c_str(), t.c_str());
  CHECK_THAT(c, absl::StrCat(v) == t && absl::StrFormat("%v", v) == t, "%s: formatted by abseil as %s, streamed %s", what, absl::StrCat(v).c_str(), t.c_str());
  std::vector<double> got = Numbers(t);
  CHECK_THAT(c, got.size() == want.size(), "%s: %zu numbers in %s, expected %zu", what, got.size(), t.c_str(), want.size());
  for (size_t i = 0; i < got.size(); ++i) CHECK_THAT(c, Shows(got[i], want[i]), "%s: number %zu in %s is %.9g, expected %.9g", what, i, t.c_str(), got[i], want[i]);
  // In the middle of other output.
  std::ostringstream p;
  p << "a" << v << "b";
  CHECK_THAT(c, p.str() == "a" + t + "b", "%s: streamed between other text as %s", what, p.str().c_str());
  // Whatever the stream was told about numbers, which it still knows afterwards.
  std::ostringstream q;
  q << std::setprecision(c.src.range(1, 12)) << std::showpos << std::uppercase;
  int how = c.src.below(4);
  if (how == 1) q << std::fixed;
  if (how == 2) q << std::scientific << std::hex;
  if (how == 3) q << std::hexfloat << std::showbase;
  const auto flags = q.flags();
  const auto precision = q.precision();
  q << v;
  CHECK_THAT(c, q.str() == t, "%s: on a stream with other settings %s, expected %s", what, q.str().c_str(), t.c_str());
  CHECK_THAT(c, q.flags() == flags && q.precision() == precision && q.good(), "%s: the stream's settings have changed", what);
  return t;
}

void Run(Case& c) {
  Src& s = c.src;
  auto f = [&] { return static_cast<float>(Value(s, true)); };
  switch (s.below(5)) {
    case 0: {
      Vec2 v{f(), f()};
      Text(c, v, {v.x, v.y}, "vector");
      break;
    }
    case 1: {
      double v = Value(s, false);
      Text(c, Duration(v), {v}, "duration");
      Text(c, Time(v), {v}, "time");
      break;
    }
    case 2: {
      int n = s.chance(1, 3) ? s.range(-1000, 1000) : s.range(-2, 5);
      using E = Input::EventType;
      if (n == static_cast<int>(E::kDown) || n == static_cast<int>(E::kMove) || n == static_cast<int>(E::kUp)) {
        Text(c, static_cast<E>(n), {}, "event");
        std::ostringstream d, m, u;
        d << E::kDown, m << E::kMove, u << E::kUp;
        CHECK_THAT(c, d.str() != m.str() && m.str() != u.str() && d.str() != u.str(), "event types look the same: %s %s %s", d.str().c_str(), m.str().c_str(), u.str().c_str());
        CHECK_THAT(c, d.str().find("own") != std::string::npos && m.str().find("ove") != std::string::npos && u.str().find("p") != std::string::npos, "event types are called %s %s %s",
                   d.str().c_str(), m.str().c_str(), u.str().c_str());
      } else {
        Text(c, static_cast<E>(n), {static_cast<double>(n)}, "unknown event");
      }
      break;
    }
    case 3: {
      Input i;
      using E = Input::EventType;
      static const E kE[] = {E::kDown, E::kMove, E::kUp};
      i.event_type = s.pick(kE);
      i.position = {f(), f()};
      i.time = Time(Value(s, false));
      i.pressure = f();
      i.tilt = f();
      i.orientation = f();
      std::string t = Text(c, i, {i.position.x, i.position.y, i.time.Value(), i.pressure, i.tilt, i.orientation}, "input");
      CHECK_THAT(c, t.find(ToFormattedString(i.event_type)) != std::string::npos, "input %s does not tell its type %s", t.c_str(), ToFormattedString(i.event_type).c_str());
      break;
    }
    default: {
      Result r;
      r.position = {f(), f()};
      r.velocity = {f(), f()};
      r.acceleration = {f(), f()};
      r.time = Time(Value(s, false));
      r.pressure = f();
      r.tilt = f();
      r.orientation = f();
      Text(c, r, {r.position.x, r.position.y, r.velocity.x, r.velocity.y, r.acceleration.x, r.acceleration.y, r.time.Value(), r.pressure, r.tilt, r.orientation}, "result");
      break;
    }
  }
  c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C25",
    "Generated vectors, durations, times, event types, inputs and results (ordinary, huge, tiny, "
    "infinite and NaN fields). The numbers in the text must be the fields, in the documented order, "
    "to six significant digits; streaming and ToFormattedString must agree, in the middle of other "
    "output too, and on streams with other settings; event types must be told apart. Every case is non-trivial.",
    "Numbers are formatted by the shim for abseil's StrCat and StrFormat, not by abseil's own "
    "code, which lacks what the library uses in the installed version",
    2000000, 20000000, Run};
