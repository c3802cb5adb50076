// The memory held by a modeler does not grow with the length of a session.
#include <malloc.h>

#include <cstdlib>
#include <new>

#include "../session.h"

namespace {
long g_live = 0;  // bytes handed out by operator new and not yet returned

void* Take(size_t n, size_t align) {
  void* p = align > __STDCPP_DEFAULT_NEW_ALIGNMENT__ ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n ? n : 1);
  if (p != nullptr) g_live += malloc_usable_size(p);
  return p;
}
void* TakeOrThrow(size_t n, size_t align) {
  void* p = Take(n, align);
  if (p == nullptr) throw std::bad_alloc();
  return p;
}
void Give(void* p) {
  if (p == nullptr) return;
  g_live -= malloc_usable_size(p);
  std::free(p);
}
}  // namespace

void* operator new(size_t n) { return TakeOrThrow(n, 0); }
void* operator new[](size_t n) { return TakeOrThrow(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Take(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Take(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return TakeOrThrow(n, static_cast<size_t>(a)); }
void* operator new[](size_t n, std::align_val_t a) { return TakeOrThrow(n, static_cast<size_t>(a)); }
void operator delete(void* p) noexcept { Give(p); }
void operator delete[](void* p) noexcept { Give(p); }
void operator delete(void* p, size_t) noexcept { Give(p); }
void operator delete[](void* p, size_t) noexcept { Give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { Give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { Give(p); }
void operator delete(void* p, std::align_val_t) noexcept { Give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { Give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { Give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { Give(p); }

using namespace session;  // NOLINT

namespace {

void Run(Case& c) {
  const Plan p = GenPlan(c);
  long first = 0, later = 0, left = 0;
  size_t most_results = 0;
  const int warm = p.warm, more = p.more;
  const double inputs = p.inputs;
  for (int round = 0; round < 2; ++round) {
    long base = g_live;
    {
      auto m = NewModeler();
      if (!m->Reset(p.params).ok()) c.fail("Reset refused valid parameters");
      double offset = 0;
      if (!p.strokes) {
        std::vector<Result> results;
        if (!m->Update(p.cycle[0], results).ok()) c.fail("down refused");
      }
      long most = 0;
      auto seen = [&](size_t results) {
        most_results = std::max(most_results, results);
        most = std::max(most, g_live - base);
      };
      Repeat(*m, p, offset, warm, seen);
      first = most;
      if (round == 0) {
        Repeat(*m, p, offset, more, seen);
        most = 0;
        Repeat(*m, p, offset, 2, seen);
        later = most;
        // Buffers for results may double their capacity as they grow.
        long limit = first + first / 2 + 4096 + 256 * static_cast<long>(most_results);
        CHECK_THAT(c, later <= limit, "%ld bytes held after %d repetitions of %g inputs, %ld bytes after %d repetitions more (allowed: %ld)", first, warm, inputs,
                   later, more, limit);
      }
    }
    left = g_live - base;
  }
  // In the first round, some lazily created constants might have been left behind.
  CHECK_THAT(c, left <= 0, "%ld bytes not released with the modeler", left);
  Describe(c, p);
  if (later > 0 && inputs >= 3) c.nontrivial();
}

}  // namespace

const pbt::PropertyInfo pbt::kProperty = {
    "C26",
    "A generated stroke (or series of strokes with resets between them) repeated until "
    "every window of the generated parameters is full, and then for at least 6000 inputs "
    "and ten times as many repetitions, with predictions, saves, restores and rejected "
    "inputs at fixed places. Bytes held, counted in operator new and delete, must not grow; "
    "after destruction none must be left. Non-trivial: memory is held, and the repeated "
    "part has at least three inputs.",
    "Buffers may keep the capacity which the largest call so far needed|memory obtained "
    "otherwise than through operator new is not counted",
    12000, 200000, Run};
