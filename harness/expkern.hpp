// table of the stand-alone experiment kernels
#pragma once
#include "prelude.hpp"
#include <cstdlib>
#include EXP_HEADER

struct exp_kern {
  const char *name;
  void (*f)(double *, double *, double *, std::uint32_t);
  bool transposed, zeroed;
  std::size_t unit; // admissible orders are multiples of this
};
#define EXP_CALL(g) [](double *A, double *B, double *C, std::uint32_t n) { g(A, B, C, n); }
static const exp_kern exp_kerns[] = {
    {"multNaive", EXP_CALL(multNaive), false, true, 1},
    {"multTransposed", EXP_CALL(multTransposed), true, true, 1},
    {"multCounter", EXP_CALL(multCounter), true, false, 1},
    {"multExchanged", EXP_CALL(multExchanged), false, false, 128},
    {"multBlocked2", EXP_CALL(multBlocked2), true, false, 2},
    {"multBlocked4", EXP_CALL(multBlocked4), true, false, 4},
    {"multASM", EXP_CALL(multASM), true, false, 4},
    {"multGPU", EXP_CALL(multGPU), true, false, 128},
    {"multGPUASM", EXP_CALL(multGPUASM), true, false, 256},
    {"multRegister", EXP_CALL(multRegister), false, false, 256},
    {"multIntrinLoop", EXP_CALL(multIntrinLoop), false, false, 128},
};
static const std::size_t exp_count = sizeof exp_kerns / sizeof *exp_kerns;

struct exp_block { // 64-byte aligned array of exactly n doubles
  double *raw, *p;
  std::size_t n;
#ifdef __SANITIZE_ADDRESS__
  static const std::size_t guard = 0; // the sanitizer guards the exact block
#else
  static const std::size_t guard = 64;
#endif
  exp_block(std::size_t n) : n(n) {
    void *v = nullptr;
    if (posix_memalign(&v, 64, (n + 2 * guard) * sizeof(double)))
      std::abort();
    raw = (double *)v;
    p = raw + guard;
    for (std::size_t i = 0; i < guard; i++)
      raw[i] = p[n + i] = -777.0;
  }
  ~exp_block() { std::free(raw); }
  bool intact() const {
    for (std::size_t i = 0; i < guard; i++)
      if (raw[i] != -777.0 || p[n + i] != -777.0)
        return false;
    return true;
  }
};
