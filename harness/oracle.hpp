// Independent reference product and operand generators.  Compiled without
// sanitizers; shares no code with the repository.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace oracle {

// kinds of operand content
enum kind {
  ints,      // small integers: every order of summation is exact
  wide_ints, // integers of varying magnitude, still exact
  reals,     // general values in [-1,1]
  spread,    // values of very different magnitude
  sparse,    // mostly zero, a few integers (exact)
  permuted,  // permutation matrices with weights (exact)
  one_hot,   // single non-zero in A, dense B (exact)
  scaled,    // integers times one very large or very small power of two (exact)
  banded,    // whole rows and columns are zero, the rest integers (exact)
  special,   // small integers, zeros and some infinities and NaNs (exact)
  extreme,   // integers times a power of two close to the largest or below the smallest normal number (exact)
  kinds
};
bool exact(int kind);
void fill(std::uint64_t seed, int kind, std::size_t N, double *A, double *B);
void transpose(std::size_t N, const double *in, double *out);

struct product {
  std::size_t N;
  bool exact;
  std::vector<double> value; // reference (rounded)
  std::vector<double> bound; // allowed |difference| (0 if exact)
};
// B in logical (not transposed) orientation
product multiply(std::size_t N, const double *A, const double *B, bool exact, bool single_precision = false);
// rectangle [x,x+b) x [y,y+b) of the reference against C (leading dimension ld)
// empty string if equal, otherwise a description of the first difference
std::string compare(const product &p, const double *C, std::size_t ld, std::size_t x = 0,
                    std::size_t y = 0, std::size_t b = 0);
std::string comparef(const product &p, const float *C, std::size_t ld);
std::uint64_t hash(const void *p, std::size_t bytes);
} // namespace oracle
