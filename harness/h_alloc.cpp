// P22: alignment::aligned_allocator.  Global operator new/delete are replaced by
// a ledger that knows every live block of the code under test.
#include "prelude.hpp"
#include "common.hpp"
#include "aligned_allocator.hpp"
#include <fcntl.h>
#include <sys/file.h>
#include <unistd.h>

namespace {
struct entry {
  char *p;
  std::size_t n;
  bool array;
};
bool tracking, refuse_memory;
std::size_t live_blocks, bad_frees, mismatched;
entry ledger[64];
void *take(std::size_t n, bool array) {
  void *p = refuse_memory ? nullptr : std::malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  if (tracking && live_blocks < 64)
    ledger[live_blocks++] = entry{(char *)p, n, array};
  return p;
}
void give(void *p, bool array) {
  if (!p)
    return;
  if (tracking) {
    bool found = false;
    for (std::size_t i = 0; i < live_blocks; i++)
      if (ledger[i].p == p) {
        if (ledger[i].array != array)
          mismatched++;
        ledger[i] = ledger[--live_blocks];
        found = true;
        break;
      }
    if (!found) {
      bad_frees++;
      return; // released before, or never handed out
    }
  }
  std::free(p);
}
} // namespace
#ifndef __SANITIZE_ADDRESS__
void *operator new(std::size_t n) { return take(n, false); }
void *operator new[](std::size_t n) { return take(n, true); }
void operator delete(void *p) noexcept { give(p, false); }
void operator delete[](void *p) noexcept { give(p, true); }
void operator delete(void *p, std::size_t) noexcept { give(p, false); }
void operator delete[](void *p, std::size_t) noexcept { give(p, true); }
#define LEDGER 1
#else
#define LEDGER 0
#endif

namespace {
struct three { unsigned char c[3]; };
struct big { double d[7]; };

std::uint64_t n_copied, n_copy_refused, n_assigned, n_assign_refused;

// copying must be impossible, or leave ownership with one object
template <typename A> typename std::enable_if<std::is_copy_constructible<A>::value>::type copies(A &a) {
  A b(a);
  (void)b;
  n_copied++;
}
template <typename A> typename std::enable_if<!std::is_copy_constructible<A>::value>::type copies(A &) {
  n_copy_refused++;
}
template <typename A> typename std::enable_if<std::is_copy_assignable<A>::value>::type assigns(A &a) {
  A b;
  b = a;
  n_assigned++;
}
template <typename A> typename std::enable_if<!std::is_copy_assignable<A>::value>::type assigns(A &) {
  n_assign_refused++;
}

template <typename T> void check(mon::rng &r, const char *type) {
  std::size_t n = r.chance(1, 4) ? 1 : r.chance(1, 10) ? r.in(1, 200000) : r.in(1, 300);
  std::size_t al = alignof(T);
  al <<= r.in(0, 8);
  if (r.chance(1, 10))
    al = 4096 > al ? 4096 : al;
  if (r.chance(1, 100))
    al = (std::size_t)1 << r.in(13, 22);
  mon::current(mon::fmt("alloc<%s>(%zu, %zu)", type, n, al));
  std::size_t live0 = live_blocks, bad0 = bad_frees;
  T *p = nullptr;
  tracking = true;
  std::string err;
  std::uint64_t n_refused = 0, n_unmet = 0;
  {
    // an allocator on its own heap block, so that going away is observable
    alignment::aligned_allocator a;
    if (r.chance(1, 5)) { // one that was never used is destroyed as well
      alignment::aligned_allocator unused;
      (void)unused;
    }
    // requests that cannot be met
    tracking = false;
    if (r.chance(1, 3)) {
      std::size_t most = ~(std::size_t)0 / sizeof(T), huge = 0;
      bool wraps = true, dry = false;
      switch (r.in(0, LEDGER ? 3 : 1)) {
      case 0: huge = most - r.in(0, std::min<std::size_t>(al / sizeof(T), 3)); break;
      case 1: huge = most + 1 + r.in(0, sizeof(T) > 1 ? 20 : 0); break;
      case 2: huge = most / 2 - r.in(0, 100); wraps = false; break;
      default: huge = r.in(1, 100); wraps = false; dry = true;
      }
      if (huge != 0 && (sizeof(T) * huge + al < al || huge > most || !wraps)) {
        mon::current(mon::fmt("alloc<%s>(%zu, %zu) %s", type, huge, al, dry ? "without memory" : "(too much)"));
        try {
          refuse_memory = dry;
          a.alloc<T>(huge, al);
          refuse_memory = false;
          err = mon::fmt("a request for %zu elements was accepted", huge);
        } catch (const std::bad_alloc &) {
          refuse_memory = false;
          n_unmet++;
        } catch (const std::length_error &) {
          n_unmet++;
        }
        mon::current(mon::fmt("alloc<%s>(%zu, %zu)", type, n, al));
      }
    }
    tracking = true;
    if (err.empty())
      p = a.alloc<T>(n, al);
    if (!err.empty())
      ;
    else if (!p)
      err = "a null pointer was returned";
    else if ((std::uintptr_t)p % al)
      err = mon::fmt("address %p is not aligned to %zu", (void *)p, al);
    std::size_t bytes = n * sizeof(T);
    unsigned char *b = (unsigned char *)p;
    // memory from elsewhere than operator new is AddressSanitizer's business
    if (err.empty() && LEDGER && live_blocks != live0) {
      bool inside = false;
      for (std::size_t i = live0; i < live_blocks; i++)
        if ((char *)p >= ledger[i].p && (char *)p + bytes <= ledger[i].p + ledger[i].n)
          inside = true;
      if (!inside)
        err = mon::fmt("the %zu bytes handed out do not lie inside memory the allocator owns", bytes);
    }
    if (err.empty()) {
      std::uint64_t seed = r.next();
      for (std::size_t i = 0; i < bytes; i++)
        b[i] = (unsigned char)mon::mix(seed + i);
      // other allocations and refused requests in between
      int refusals = (int)r.in(1, 3), refused = 0;
      for (int k = 0; k < refusals; k++) {
        try {
          double *q = a.alloc<double>(r.in(1, 50), 16);
          (void)q;
          err = "a second allocation from the same allocator was accepted";
        } catch (const std::exception &) {
          refused++;
        }
      }
      n_refused = refused;
      {
        alignment::aligned_allocator other;
        char *q = other.alloc<char>(64, 64);
        if ((unsigned char *)q < b + bytes && b < (unsigned char *)q + 64)
          err = "two allocators handed out overlapping memory";
        std::memset(q, 0x5a, 64);
      }
      if (r.chance(1, 3)) {
        copies(a);
        assigns(a);
      }
      for (std::size_t i = 0; i < bytes && err.empty(); i++)
        if (b[i] != (unsigned char)mon::mix(seed + i))
          err = mon::fmt("byte %zu of the block changed while the allocator was alive", i);
    }
  }
  tracking = false;
  if (err.empty() && LEDGER && live_blocks != live0)
    err = mon::fmt("%zu block(s) still allocated after the allocator was destroyed", live_blocks - live0);
  if (err.empty() && LEDGER && bad_frees != bad0)
    err = "memory was released more than once";
  if (err.empty() && LEDGER && mismatched)
    err = "memory from new[] was released with delete";
  mon::count("second_request_refused", n_refused);
  mon::count("unmet_request_refused", n_unmet);
  mon::count("copied", n_copied);
  mon::count("copy_refused", n_copy_refused);
  mon::count("assigned", n_assigned);
  mon::count("assignment_refused", n_assign_refused);
  n_copied = n_copy_refused = n_assigned = n_assign_refused = 0;
  live_blocks = live0;
  bad_frees = bad0;
  mismatched = 0;
  if (!err.empty())
    mon::fail("aligned_allocator", err);
  mon::observed(n);
  mon::count(type);
  mon::maxi("alignment", al);
  mon::maxi("elements", n);
  mon::distinct(mon::h(mon::h(n, al), sizeof(T)));
  mon::sample(mon::fmt("%zu x %s aligned to %zu", n, type, al));
}
} // namespace

#if !defined(__SANITIZE_ADDRESS__)
// blocks beyond 2 and 4 GB: only a few pages of them are touched
// (one process at a time: an allocator may well clear what it hands out)
template <typename T> void vast(mon::rng &r, const char *type) {
  struct turn {
    int f = open("/proc/self/exe", O_RDONLY);
    turn() { flock(f, LOCK_EX); }
    ~turn() { close(f); }
  } mine;
  std::size_t bytes = r.chance(1, 2) ? ((std::size_t)1 << r.in(31, 32)) + r.in(0, 1 << 20) : r.in((std::size_t)1 << 30, (std::size_t)9 << 29);
  std::size_t n = bytes / sizeof(T), al = alignof(T) << r.in(0, 12);
  bytes = n * sizeof(T);
  mon::current(mon::fmt("alloc<%s>(%zu, %zu)", type, n, al));
  std::size_t live0 = live_blocks, bad0 = bad_frees;
  std::string err;
  tracking = true;
  try {
    alignment::aligned_allocator a;
    unsigned char *b = (unsigned char *)a.alloc<T>(n, al);
    tracking = false;
    if (!b)
      err = "a null pointer was returned";
    else if ((std::uintptr_t)b % al)
      err = mon::fmt("address %p is not aligned to %zu", (void *)b, al);
    bool inside = !LEDGER || live_blocks == live0;
    for (std::size_t i = live0; i < live_blocks; i++)
      if ((char *)b >= ledger[i].p && (char *)b + bytes <= ledger[i].p + ledger[i].n)
        inside = true;
    if (err.empty() && !inside)
      err = mon::fmt("the %zu bytes handed out do not lie inside memory the allocator owns", bytes);
    if (err.empty()) {
      std::vector<std::size_t> at = {0, bytes / 2, bytes - 1};
      for (std::size_t g = (std::size_t)1 << 30; g < bytes; g += (std::size_t)1 << 30)
        at.push_back(g);
      for (std::size_t i : at)
        b[i] = (unsigned char)mon::mix(i);
      for (std::size_t i : at)
        if (b[i] != (unsigned char)mon::mix(i))
          err = mon::fmt("byte %zu is not what was stored in it", i);
      mon::count("vast");
      mon::observed(at.size());
    }
    tracking = true;
  } catch (const std::bad_alloc &) {
    tracking = false;
    mon::count("vast_refused"); // the system may not have that much
  }
  tracking = false;
  if (err.empty() && LEDGER && live_blocks != live0)
    err = "block(s) still allocated after the allocator was destroyed";
  if (err.empty() && LEDGER && bad_frees != bad0)
    err = "memory was released more than once";
  live_blocks = live0;
  bad_frees = bad0;
  if (!err.empty())
    mon::fail("aligned_allocator", err);
}
#endif

void run_case(std::uint64_t idx, mon::rng &r) {
#if !defined(__SANITIZE_ADDRESS__)
  if (idx % 40 == 7 && idx < (mon::ctx().thorough ? 4000 : 480))
    return r.chance(1, 2) ? vast<double>(r, "double") : vast<char>(r, "char");
#endif
  switch (idx % 6) {
  case 0: check<double>(r, "double"); break;
  case 1: check<char>(r, "char"); break;
  case 2: check<three>(r, "struct3"); break;
  case 3: check<big>(r, "struct56"); break;
  case 4: check<long double>(r, "long double"); break;
  default: check<float>(r, "float"); break;
  }
}
