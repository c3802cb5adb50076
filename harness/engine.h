// A small property-based testing engine.
//
// Every random decision of a case is drawn through Src and recorded as a
// sequence of integers ("choices"). A case is a pure function of the code under
// test and its choices, so a choice sequence is at once the unit of replay and
// of shrinking: smaller and fewer choices mean a simpler case (0 is always the
// simplest alternative of a draw).
#ifndef INK_VERIF_ENGINE_H_
#define INK_VERIF_ENGINE_H_

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <string>
#include <vector>

namespace pbt {

struct Fail {
  std::string msg;
};
struct Discard {};

class Src {
 public:
  // Generates from a seed.
  explicit Src(uint64_t seed) : mode_(kRandom), state_(seed) {}
  // Replays choices; draws past the end give 0.
  explicit Src(std::vector<uint64_t> choices)
      : mode_(kReplay), replay_(std::move(choices)) {}
  // Decodes a fuzzer's bytes; draws past the end give 0.
  Src(const uint8_t* data, size_t size)
      : mode_(kBytes), data_(data), size_(size) {}

  // Uniform in [0, n). n must be positive.
  uint64_t below(uint64_t n);
  // All 64 bits.
  uint64_t bits();

  // True with probability num/den; false is the simple alternative.
  bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
  // Uniform in [lo, hi]; lo is the simple alternative.
  int range(int lo, int hi) {
    return lo + static_cast<int>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
  // Uniform on a grid of 2^20 points in [lo, hi).
  double unit() { return static_cast<double>(below(1 << 20)) / (1 << 20); }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // Log-uniform.
  double logreal(double lo, double hi);
  template <typename T, size_t N>
  const T& pick(const T (&a)[N]) {
    return a[below(N)];
  }
  template <typename T>
  const T& pick(const std::vector<T>& a) {
    return a[below(a.size())];
  }
  // Index with the given weights.
  int weighted(std::initializer_list<int> w);

  const std::vector<uint64_t>& choices() const { return choices_; }
  bool exhausted() const { return mode_ == kBytes && pos_ >= size_; }

  // If set, every choice is also written here (survives a crash).
  static uint64_t* shared_choices;       // [0] = count, then the choices
  static constexpr size_t kMaxShared = 1 << 20;

 private:
  uint64_t record(uint64_t v) {
    choices_.push_back(v);
    if (shared_choices != nullptr && choices_.size() < kMaxShared) {
      shared_choices[choices_.size()] = v;
      shared_choices[0] = choices_.size();
    }
    return v;
  }
  uint64_t next();

  enum { kRandom, kReplay, kBytes } mode_;
  uint64_t state_ = 0;
  std::vector<uint64_t> replay_;
  const uint8_t* data_ = nullptr;
  size_t size_ = 0;
  size_t pos_ = 0;
  std::vector<uint64_t> choices_;
};

class Case {
 public:
  explicit Case(Src s) : src(std::move(s)) {}
  Src src;
  bool verbose = false;
  std::string log;
  std::map<std::string, uint32_t> labels;
  bool is_nontrivial = false;

  // Counts the case under the label (once per case).
  void label(const std::string& l) { labels[l] = 1; }
  void label_if(bool b, const char* l) {
    if (b) label(l);
  }
  void nontrivial() { is_nontrivial = true; }
  void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    if (!verbose) return;
    va_list ap;
    va_start(ap, fmt);
    char buf[2048];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log += buf;
    log += "\n";
  }
  [[noreturn]] void fail(const char* fmt, ...)
      __attribute__((format(printf, 2, 3))) {
    va_list ap;
    va_start(ap, fmt);
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    throw Fail{buf};
  }
};

#define CHECK_THAT(c, cond, ...)        \
  do {                                  \
    if (!(cond)) (c).fail(__VA_ARGS__); \
  } while (0)

// Provided by the property's source file.
struct PropertyInfo {
  const char* id;
  const char* rule;         // how cases are made, what makes one non-trivial
  const char* assumptions;  // '|'-separated
  uint64_t quick_cases;
  uint64_t thorough_cases;
  void (*run)(Case&);
};
extern const PropertyInfo kProperty;

}  // namespace pbt

#endif
