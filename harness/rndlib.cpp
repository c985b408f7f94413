// The random numbers of rnd.h, to be preloaded into Python: the same stream as
// that of the recorders with the same SEED and RMODE.
#include "rnd.h"
__attribute__ ((constructor)) static void
start ()
{
  const char *s = getenv ("VERIF_RS"), *m = getenv ("VERIF_RM");
  g_rs ^= 0x9E3779B97F4A7C15ULL * (atoi (s ? s : "0") + 1);
  for (int i = 0; i < 8; i++)
    xs ();
  g_rmode = atoi (m ? m : "0");
}
