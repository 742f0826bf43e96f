// The rule which cycle a component of a lower rate runs in.
#pragma once
#include "ctl.hpp"
namespace vt
{
// R cycles per second nominally; dt of every cycle symbolic
inline int64_t advance(const char * name)
{
  uint8_t k = sym_u8(name);
  sym_assume(sym_and(k >= 1, k <= 80));
  int64_t dt = 500000 * (int64_t)k;
  sim::now_ns += dt;
  return dt;
}
// A component of rate r (cycle rate R) last run `a` ns ago: runs in the cycle nearest to 1/r after the last one.
// Within 1 us of the tie both are right.
inline void check_rate(bool ran, int64_t a, int64_t R, int64_t r)
{
  int64_t lhs = 2 * R * r * a, rhs = (2 * R - r) * 1000000000LL, slack = 2 * R * r * 1000;
  if (ran) sym_assert(lhs >= rhs - slack, "nothing runs more than half a cycle early");
  else sym_assert(lhs <= rhs + slack, "nothing due is left out");
}
inline const int64_t RATES[] = {50, 20, 33, 99, 1, 70};
}  // namespace vt
