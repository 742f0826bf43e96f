#pragma once
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <string>
#include <vector>
#include "sym.h"
// a bound that depends on the tier
static inline int bound(int quick, int thorough)
{
  const char * t = getenv("VERIF_TIER");
  return t && !strcmp(t, "thorough") ? thorough : quick;
}
// Symbolic doubles can be restricted to the first g_sig significand bits (52 = every double): the
// additions and multiplications of a sequence harness stay within the solver's reach that way.
static int g_sig = 52;
static inline double sym_sig(const char * n)
{
  uint64_t v = sym_var(n, 64);
  if (g_sig < 52) v &= ~((1ULL << (52 - g_sig)) - 1);
  double d;
  __builtin_memcpy(&d, &v, 8);
  return d;
}
static inline double sym_finite(const char * n, double mag = 1e300)
{
  double d = sym_sig(n);
  sym_assume(sym_and(d >= -mag, d <= mag));
  return d;
}
