#include "engine.h"

#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <new>
#include <sstream>
#include <unordered_set>

// Fresh memory is filled with a pattern that differs from one allocation to the
// next, and is the same whenever a case is repeated: members left uninitialized
// show up in the results. (The sanitizers have their own means.)
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define INK_VERIF_OWN_NEW 0
#endif
#endif
#ifndef INK_VERIF_OWN_NEW
#define INK_VERIF_OWN_NEW 1
#endif
namespace {
uint32_t g_allocation = 0;
}
#if INK_VERIF_OWN_NEW
// Weak: a property may have its own.
__attribute__((weak)) void* operator new(size_t n) {
  void* p = malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  static constexpr unsigned char kFill[] = {0xa5, 0x01, 0x3f, 0xff, 0x42, 0x00, 0xc1};
  memset(p, kFill[g_allocation++ % 7], n < 2048 ? n : 2048);
  return p;
}
__attribute__((weak)) void operator delete(void* p) noexcept { free(p); }
__attribute__((weak)) void operator delete(void* p, size_t) noexcept { free(p); }
#endif

namespace pbt {

uint64_t* Src::shared_choices = nullptr;

uint64_t Src::next() {  // splitmix64
  state_ += 0x9e3779b97f4a7c15ull;
  uint64_t z = state_;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

uint64_t Src::below(uint64_t n) {
  if (n <= 1) return 0;
  switch (mode_) {
    case kRandom:
      return record(
          static_cast<uint64_t>((static_cast<__uint128_t>(next()) * n) >> 64));
    case kReplay: {
      uint64_t v = pos_ < replay_.size() ? replay_[pos_] : 0;
      ++pos_;
      return record(v < n ? v : n - 1);
    }
    case kBytes: {
      int bytes = n <= (1u << 8) ? 1 : n <= (1u << 16) ? 2 : n <= (1ull << 32) ? 4 : 8;
      uint64_t v = 0;
      for (int i = 0; i < bytes; ++i) {
        v = v << 8 | (pos_ < size_ ? data_[pos_] : 0);
        ++pos_;
      }
      return record(v % n);
    }
  }
  return 0;
}

uint64_t Src::bits() {
  switch (mode_) {
    case kRandom:
      return record(next());
    case kReplay: {
      uint64_t v = pos_ < replay_.size() ? replay_[pos_] : 0;
      ++pos_;
      return record(v);
    }
    case kBytes: {
      uint64_t v = 0;
      for (int i = 0; i < 8; ++i) {
        v = v << 8 | (pos_ < size_ ? data_[pos_] : 0);
        ++pos_;
      }
      return record(v);
    }
  }
  return 0;
}

double Src::logreal(double lo, double hi) {
  return lo * ::exp(unit() * ::log(hi / lo));
}

int Src::weighted(std::initializer_list<int> w) {
  int total = 0;
  for (int x : w) total += x;
  int v = static_cast<int>(below(total));
  int i = 0;
  for (int x : w) {
    if (v < x) return i;
    v -= x;
    ++i;
  }
  return 0;
}

namespace {

double Now() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

uint64_t Hash(const std::vector<uint64_t>& v) {
  uint64_t h = 0xcbf29ce484222325ull;
  for (uint64_t x : v) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0x100000001b3ull;
    h ^= h >> 29;
  }
  return h;
}

uint64_t CaseSeed(uint64_t seed, uint64_t index) {
  uint64_t h = 0xcbf29ce484222325ull ^ seed * 0x9e3779b97f4a7c15ull;
  for (const char* p = kProperty.id; *p; ++p) h = (h ^ *p) * 0x100000001b3ull;
  h ^= index * 0xd6e8feb86659fd93ull;
  h ^= h >> 32;
  return h * 0xd6e8feb86659fd93ull;
}

enum Outcome { kPass = 0, kFail = 1, kDiscard = 2, kCrash = 3, kHang = 4 };
const char* OutcomeName(int o) {
  static const char* n[] = {"pass", "fail", "discard", "crash", "hang"};
  return n[o];
}

// Runs one case in this process.
int RunOne(Case& c, std::string* msg) {
  g_allocation = 0;
  try {
    kProperty.run(c);
  } catch (const Fail& f) {
    *msg = f.msg;
    return kFail;
  } catch (const Discard&) {
    return kDiscard;
  } catch (const std::exception& e) {
    *msg = std::string("uncaught exception: ") + e.what();
    return kFail;
  }
  return kPass;
}

#ifndef INK_VERIF_CPU_LIMIT
#define INK_VERIF_CPU_LIMIT 20
#endif
constexpr int kCpuLimitPerCase = INK_VERIF_CPU_LIMIT;  // seconds; a case normally takes < 10 ms

void ArmCpuLimit(int seconds) {
  itimerval it{};
  it.it_value.tv_sec = seconds;
  setitimer(ITIMER_VIRTUAL, &it, nullptr);  // SIGVTALRM's default: terminate
}

struct Shared {
  uint64_t current_case;  // index + 1; 0 = none
  uint64_t done;
  uint64_t stop;
  int outcome;
  char msg[8192];
};

template <typename T>
T* MapShared(size_t bytes) {
  void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<T*>(p);
}

struct Attempt {
  int outcome = kPass;
  std::vector<uint64_t> choices;
  std::string msg;
};

bool g_quiet_children = true;

// What a replay file says to run: either a choice sequence, or (for failures
// which need the cases before them in the same process) a range of cases.
struct Plan {
  std::vector<uint64_t> choices;
  bool is_range = false;
  uint64_t seed = 0, first = 0, step = 1, last = 0;
};

Attempt RunForked(const Plan& plan, bool verbose = false) {
  static Shared* sh = MapShared<Shared>(sizeof(Shared));
  static uint64_t* choices =
      MapShared<uint64_t>((Src::kMaxShared + 1) * sizeof(uint64_t));
  sh->outcome = -1;
  sh->msg[0] = 0;
  choices[0] = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    if (!verbose && g_quiet_children) {
      int fd = open("/dev/null", O_WRONLY);
      dup2(fd, 2);
    }
    Src::shared_choices = choices;
    if (plan.is_range) {
      for (uint64_t i = plan.first; i < plan.last; i += plan.step) {
        Case c{Src(CaseSeed(plan.seed, i))};
        std::string msg;
        ArmCpuLimit(kCpuLimitPerCase);
        RunOne(c, &msg);
      }
    }
    Case c{plan.is_range ? Src(CaseSeed(plan.seed, plan.last))
                         : Src(plan.choices)};
    c.verbose = verbose;
    std::string msg;
    ArmCpuLimit(kCpuLimitPerCase);
    int o = RunOne(c, &msg);
    if (verbose) {
      fputs(c.log.c_str(), stdout);
      fflush(stdout);
    }
    snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
    sh->outcome = o;
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  Attempt a;
  a.choices.assign(choices + 1, choices + 1 + choices[0]);
  if (sh->outcome >= 0) {
    a.outcome = sh->outcome;
    a.msg = sh->msg;
  } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) {
    a.outcome = kHang;
    a.msg = "no return within " + std::to_string(kCpuLimitPerCase) + " s of CPU time";
  } else {
    a.outcome = kCrash;
    a.msg = WIFSIGNALED(st)
                ? "killed by signal " + std::to_string(WTERMSIG(st))
                : "process exited with code " + std::to_string(WEXITSTATUS(st)) +
                      " (sanitizer report)";
  }
  return a;
}

bool IsBad(int o) { return o == kFail || o == kCrash || o == kHang; }

// Shortlex order on choice sequences.
bool Simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

Attempt Shrink(Attempt best, double budget_s) {
  double end = Now() + budget_s;
  int tries = 0;
  auto attempt = [&](std::vector<uint64_t> v) {
    if (Now() > end) return false;
    ++tries;
    Plan p;
    p.choices = std::move(v);
    Attempt a = RunForked(p);
    if (!IsBad(a.outcome) || a.outcome == kHang) return false;
    while (!a.choices.empty() && a.choices.back() == 0) a.choices.pop_back();
    if (!Simpler(a.choices, best.choices)) return false;
    best = a;
    return true;
  };
  bool progress = true;
  while (progress && Now() < end) {
    progress = false;
    // Delete blocks.
    for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1;
         len = len > 8 ? len / 2 : len - 1) {
      for (size_t i = best.choices.size() >= len ? best.choices.size() - len : 0;;) {
        if (i + len <= best.choices.size()) {
          auto v = best.choices;
          v.erase(v.begin() + i, v.begin() + i + len);
          if (attempt(v)) progress = true;
        }
        if (i == 0 || Now() > end) break;
        i = i > len / 2 + 1 ? i - (len / 2 + 1) : 0;
      }
      if (len == 1 || Now() > end) break;
    }
    // Zero blocks.
    for (size_t len : {16, 8, 4, 2, 1}) {
      for (size_t i = 0; i + len <= best.choices.size() && Now() < end; i += len) {
        auto v = best.choices;
        bool any = false;
        for (size_t j = i; j < i + len; ++j) {
          any |= v[j] != 0;
          v[j] = 0;
        }
        if (any && attempt(v)) progress = true;
      }
    }
    // Reduce single values.
    for (size_t i = 0; i < best.choices.size() && Now() < end; ++i) {
      uint64_t lo = 0;
      while (i < best.choices.size() && lo < best.choices[i] && Now() < end) {
        uint64_t mid = lo + (best.choices[i] - lo) / 2;
        auto v = best.choices;
        v[i] = mid;
        if (attempt(v)) {
          progress = true;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  fprintf(stderr, "shrink: %d attempts, %zu choices left\n", tries,
          best.choices.size());
  return best;
}

std::string JsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      o += '\\';
      o += ch;
    } else if (ch == '\n') {
      o += "\\n";
    } else if (ch < 32 || ch >= 127) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", ch);
      o += b;
    } else {
      o += ch;
    }
  }
  return o;
}

bool ReadPlan(const char* path, Plan* plan) {
  std::ifstream f(path);
  std::string tag;
  if (!(f >> tag)) return false;
  if (tag != kProperty.id) {
    fprintf(stderr, "replay file is for property %s\n", tag.c_str());
    return false;
  }
  f >> tag;
  if (tag == "range") {
    plan->is_range = true;
    f >> plan->seed >> plan->first >> plan->step >> plan->last;
    return true;
  }
  uint64_t v;
  while (f >> v) plan->choices.push_back(v);
  return true;
}

std::string WritePlan(const std::string& dir, const Plan& plan,
                      const std::string& comment) {
  mkdir(dir.c_str(), 0777);
  std::ostringstream o;
  o << kProperty.id << (plan.is_range ? " range" : " choices") << "\n";
  if (plan.is_range) {
    o << plan.seed << " " << plan.first << " " << plan.step << " " << plan.last
      << "\n";
  } else {
    for (uint64_t v : plan.choices) o << v << " ";
    o << "\n";
  }
  uint64_t h = plan.is_range ? plan.last : Hash(plan.choices);
  char name[64];
#ifdef INK_VERIF_THREADS
  const char* kind = "-threads";  // to be replayed by the same build
#else
  const char* kind = "";
#endif
  snprintf(name, sizeof name, "/%s%s-%016llx.replay", kProperty.id, kind,
           static_cast<unsigned long long>(h));
  std::string path = dir + name;
  {
    std::ofstream f(path);
    f << o.str();
  }
  {
    std::ofstream f(path + ".txt");
    f << comment;
  }
  return path;
}

struct Stats {
  uint64_t evaluations = 0, discarded = 0, nontrivial = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
};

void WriteStats(const std::string& path, const Stats& s) {
  std::ofstream f(path, std::ios::binary);
  f << s.evaluations << " " << s.discarded << " " << s.nontrivial << " "
    << s.hashes.size() << " " << s.labels.size() << " " << s.samples.size()
    << "\n";
  for (uint64_t h : s.hashes) f << h << "\n";
  for (auto& [l, n] : s.labels) f << n << " " << l << "\n";
  for (auto& t : s.samples) f << t.size() << "\n" << t << "\n";
}

bool ReadStats(const std::string& path, Stats* s) {
  std::ifstream f(path, std::ios::binary);
  uint64_t ev, di, nt;
  size_t nh, nl, ns;
  if (!(f >> ev >> di >> nt >> nh >> nl >> ns)) return false;
  s->evaluations += ev;
  s->discarded += di;
  s->nontrivial += nt;
  for (size_t i = 0; i < nh; ++i) {
    uint64_t h;
    f >> h;
    s->hashes.insert(h);
  }
  for (size_t i = 0; i < nl; ++i) {
    uint64_t n;
    std::string l;
    f >> n;
    f.get();
    std::getline(f, l);
    s->labels[l] += n;
  }
  for (size_t i = 0; i < ns; ++i) {
    size_t n;
    f >> n;
    f.get();
    std::string t(n, 0);
    f.read(t.data(), n);
    s->samples.push_back(t);
  }
  return true;
}

int Worker(int w, int n_workers, uint64_t first, uint64_t n_cases,
           uint64_t seed, double deadline, Shared* sh, uint64_t* shared_choices,
           Shared* all, const std::string& stats_path) {
  Src::shared_choices = shared_choices;
  Stats st;
  for (uint64_t i = first + w; i < first + n_cases; i += n_workers) {
    if (all[0].stop || ((i & 15) < 8 && Now() > deadline)) break;
    sh->current_case = i + 1;
    shared_choices[0] = 0;
    Case c{Src(CaseSeed(seed, i))};
    std::string msg;
    ArmCpuLimit(kCpuLimitPerCase);
    int o = RunOne(c, &msg);
    ++st.evaluations;
    for (auto& [l, n] : c.labels) st.labels[l] += 1;
    if (o == kFail) {
      snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
      sh->outcome = kFail;
      all[0].stop = 1;
      WriteStats(stats_path, st);
      return 1;
    }
    if (o == kDiscard) {
      ++st.discarded;
    } else if (c.is_nontrivial) {
      ++st.nontrivial;
      if (st.hashes.size() < 2000000) st.hashes.insert(Hash(c.src.choices()));
      if (w < 4 && st.samples.empty()) {
        Case d{Src(c.src.choices())};
        d.verbose = true;
        std::string m;
        Src::shared_choices = nullptr;
        RunOne(d, &m);
        Src::shared_choices = shared_choices;
        if (d.log.size() > 2500) d.log = d.log.substr(0, 2500) + "...";
        if (!d.log.empty()) st.samples.push_back(d.log);
      }
    }
    sh->current_case = 0;
    ++sh->done;
  }
  ArmCpuLimit(0);
  WriteStats(stats_path, st);
  return 0;
}

}  // namespace

int Main(int argc, char** argv) {
  std::string out, replay_dir = "/tmp", replay, tier = "quick", work = "/tmp";
  uint64_t seed = 1, cases = 0;
  double max_s = 240, shrink_s = 60;
  int workers = 8;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> std::string {
      if (i + 1 >= argc) {
        fprintf(stderr, "missing value for %s\n", a.c_str());
        exit(2);
      }
      return argv[++i];
    };
    if (a == "--out") out = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--work") work = val();
    else if (a == "--replay") replay = val();
    else if (a == "--tier") tier = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--max-seconds") max_s = atof(val().c_str());
    else if (a == "--shrink-seconds") shrink_s = atof(val().c_str());
    else if (a == "--selftest") return 0;  // it starts, at least
    else if (a == "--workers") workers = atoi(val().c_str());
    else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  if (!replay.empty()) {
    Plan plan;
    if (!ReadPlan(replay.c_str(), &plan)) return 2;
    g_quiet_children = false;
    Attempt a = RunForked(plan, true);
    printf("%s: %s\n", OutcomeName(a.outcome), a.msg.c_str());
    if (IsBad(a.outcome)) {
      printf("VIOLATION property=%s replay=%s\n", kProperty.id, replay.c_str());
      return 1;
    }
    return 0;
  }
  if (cases == 0) {
    cases = tier == "thorough" ? kProperty.thorough_cases : kProperty.quick_cases;
  }
  double t0 = Now();
  std::vector<Shared*> sh(workers);
  Shared* all = MapShared<Shared>(sizeof(Shared) * (workers + 1));
  std::vector<uint64_t*> ch(workers);
  std::vector<pid_t> pids(workers);
  std::vector<std::string> files(workers);
  for (int w = 0; w < workers; ++w) {
    sh[w] = &all[w + 1];
    sh[w]->outcome = -1;
    ch[w] = MapShared<uint64_t>((Src::kMaxShared + 1) * sizeof(uint64_t));
    files[w] = work + "/stats." + std::to_string(w);
    unlink(files[w].c_str());
    pids[w] = fork();
    if (pids[w] == 0) {
      _exit(Worker(w, workers, 0, cases, seed, t0 + max_s, sh[w], ch[w], all,
                   files[w]));
    }
  }
  struct Found {
    uint64_t index;
    int worker;
    int outcome;
    std::string msg;
    std::vector<uint64_t> choices;
  };
  std::vector<Found> found;
  for (int left = workers; left > 0; --left) {
    int st;
    pid_t p = wait(&st);
    if (p < 0) {
      ++left;
      continue;
    }
    int w = std::find(pids.begin(), pids.end(), p) - pids.begin();
    if (w == workers) {
      ++left;
      continue;
    }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w]->outcome != kFail) continue;
    Found f;
    f.worker = w;
    f.index = sh[w]->current_case - 1;
    f.choices.assign(ch[w] + 1, ch[w] + 1 + ch[w][0]);
    if (sh[w]->outcome == kFail) {
      f.outcome = kFail;
      f.msg = sh[w]->msg;
    } else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGVTALRM) {
      f.outcome = kHang;
      f.msg = "no return within " + std::to_string(kCpuLimitPerCase) + " s of CPU time";
    } else {
      f.outcome = kCrash;
      f.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st))
                              : "process exited with code " +
                                    std::to_string(WEXITSTATUS(st));
    }
    // A worker killed from outside (out of memory) says nothing about the case,
    // unless the case does it again, below.
    found.push_back(f);
    all[0].stop = 1;
  }
  double t_run = Now() - t0;
  std::sort(found.begin(), found.end(),
            [](const Found& a, const Found& b) { return a.index < b.index; });

  int violations = 0;
  std::string violation_line;
  int unreproduced = 0;
  for (const Found& f : found) {
    fprintf(stderr, "case %llu (%s): %s\n",
            static_cast<unsigned long long>(f.index), OutcomeName(f.outcome),
            f.msg.c_str());
    Plan plan;
    plan.choices = f.choices;
    Attempt a = RunForked(plan);
    bool range = false;
    if (!IsBad(a.outcome)) {
      // Perhaps it needs the cases which ran before it in the same process.
      plan.is_range = range = true;
      plan.seed = seed;
      plan.first = f.worker;
      plan.step = workers;
      plan.last = f.index;
      a = RunForked(plan);
    }
    if (!IsBad(a.outcome)) {
      ++unreproduced;
      fprintf(stderr, "not reproducible\n");
      continue;
    }
    if (!range && a.outcome != kHang) {
      Attempt b = a;
      b = Shrink(b, shrink_s);
      plan.choices = b.choices;
    }
    int again = 0;
    Attempt last;
    for (int i = 0; i < 3; ++i) {
      last = RunForked(plan);
      again += IsBad(last.outcome);
    }
    if (again < 3 && !range) {
      plan.choices = f.choices;
      again = 0;
      for (int i = 0; i < 3; ++i) {
        last = RunForked(plan);
        again += IsBad(last.outcome);
      }
    }
    if (again < 3) {
      ++unreproduced;
      fprintf(stderr, "not reproducible three times\n");
      continue;
    }
    std::string comment = std::string(OutcomeName(last.outcome)) + ": " + last.msg + "\n";
    std::string path = WritePlan(replay_dir, plan, comment);
    printf("%s: %s\n", OutcomeName(last.outcome), last.msg.c_str());
    printf("VIOLATION property=%s replay=%s\n", kProperty.id, path.c_str());
    fflush(stdout);
    violations = 1;
    violation_line = comment + path;
    break;
  }

  Stats st;
  for (int w = 0; w < workers; ++w) ReadStats(files[w], &st);
  if (!out.empty()) {
    std::ofstream f(out);
    f << "{\"property\":\"" << kProperty.id << "\",\"evaluations\":"
      << st.evaluations << ",\"planned\":" << cases
      << ",\"discarded\":" << st.discarded << ",\"nontrivial\":" << st.nontrivial
      << ",\"distinct_nontrivial\":" << st.hashes.size()
      << ",\"violations\":" << violations
      << ",\"unreproduced\":" << unreproduced << ",\"run_s\":" << t_run
      << ",\"rule\":\"" << JsonEscape(kProperty.rule) << "\",\"assumptions\":\""
      << JsonEscape(kProperty.assumptions) << "\",\"labels\":{";
    bool first = true;
    for (auto& [l, n] : st.labels) {
      f << (first ? "" : ",") << "\"" << JsonEscape(l) << "\":" << n;
      first = false;
    }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : st.samples) {
      f << (first ? "" : ",") << "\"" << JsonEscape(s) << "\"";
      first = false;
    }
    f << "],\"violation\":\"" << JsonEscape(violation_line) << "\"}\n";
  }
  fprintf(stderr, "%s: %llu cases (%llu planned), %zu distinct non-trivial, %.1f s\n",
          kProperty.id, static_cast<unsigned long long>(st.evaluations),
          static_cast<unsigned long long>(cases), st.hashes.size(), t_run);
  if (violations) return 1;
  // Something failed but could not be reproduced: nothing is claimed about it.
  return unreproduced ? 3 : 0;
}

}  // namespace pbt

#ifdef INK_VERIF_LIBFUZZER
// The same property as a coverage-guided fuzz target. A failing input is saved
// as a replay file in $INK_VERIF_FUZZ_OUT before the process traps.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  using namespace pbt;
  static uint64_t* choices = nullptr;
  static const char* path = getenv("INK_VERIF_FUZZ_OUT");
  if (choices == nullptr) {
    // File-backed, so that the choices of a crashing case survive.
    int fd = path ? open(path, O_RDWR | O_CREAT | O_TRUNC, 0666) : -1;
    size_t bytes = (Src::kMaxShared + 1) * sizeof(uint64_t);
    if (fd >= 0 && ftruncate(fd, bytes) == 0) {
      choices = static_cast<uint64_t*>(
          mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    } else {
      choices = MapShared<uint64_t>(bytes);
    }
    Src::shared_choices = choices;
  }
  choices[0] = 0;
  Case c{Src(data, size)};
  std::string msg;
  if (RunOne(c, &msg) == kFail) {
    fprintf(stderr, "PROPERTY FAILURE: %s\n", msg.c_str());
    __builtin_trap();
  }
  return 0;
}
#else
int main(int argc, char** argv) { return pbt::Main(argc, argv); }
#endif
