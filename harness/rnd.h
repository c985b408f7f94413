#pragma once
#include <cstdlib>
// ---------------------------------------------------------------- rand ----
// The loading draws all its random numbers from rand().  This replacement stays
// away from the extreme 0.1 % at both ends (so that floating-point noise of
// 1e-12 never decides a rounding) and can be biased.
static unsigned long long g_rs = 88172645463325252ULL;
static int g_rmode = 0;
static unsigned long long
xs ()
{
  g_rs ^= g_rs << 13;
  g_rs ^= g_rs >> 7;
  g_rs ^= g_rs << 17;
  return g_rs;
}
extern "C" int
rand (void)
{
  double u = (xs () >> 11) * (1.0 / 9007199254740992.0);
  static int flip = 0;
  int m = g_rmode;
  if (m == 3)
    m = (++flip & 1) ? 1 : 2;
  if (m == 1 && (xs () & 7))
    u = u * 0.02;
  else if (m == 2 && (xs () & 7))
    u = 1.0 - u * 0.02;
  u = 0.001 + 0.998 * u;
  return (int) (u * RAND_MAX);
}
extern "C" void
srand (unsigned int)
{
}

