// With VERIF_HEAP=n (n > 0) objects are placed in memory in an order chosen by
// n and filled with garbage, so that nothing the code does may depend on
// addresses or on the former contents of memory.
#pragma once
#ifndef VERIF_NOHEAP // left out when a sanitizer watches the memory
#include <cstdlib>
#include <cstring>
#include <new>
namespace verif_heap
{
static const size_t HDR = 16, MAXC = 64, SLOTS = 48; // classes of 64 bytes
static unsigned long long st = 0;
static int mode = -1;
inline unsigned long long
rnd ()
{
  st ^= st << 13;
  st ^= st >> 7;
  st ^= st << 17;
  return st;
}
struct Pool
{
  char *slot[SLOTS];
  size_t n;
};
static Pool pools[MAXC];
inline void *
get (size_t n)
{
  if (mode < 0)
    {
      const char *e = getenv ("VERIF_HEAP");
      mode = e ? atoi (e) : 0;
      st = 0x9E3779B97F4A7C15ULL * (unsigned long long) (mode + 1);
    }
  size_t c = n / 64;
  char *p;
  if (mode == 0 || c >= MAXC)
    p = (char *) malloc (n + HDR);
  else
    {
      Pool &q = pools[c];
      if (q.n == 0)
        {
          size_t sz = (c + 1) * 64 + HDR;
          char *b = (char *) malloc (sz * SLOTS);
          if (!b)
            throw std::bad_alloc ();
          for (size_t i = 0; i < SLOTS; ++i)
            q.slot[i] = b + i * sz;
          q.n = SLOTS;
        }
      size_t k = rnd () % q.n;
      p = q.slot[k];
      q.slot[k] = q.slot[--q.n];
    }
  if (!p)
    throw std::bad_alloc ();
  size_t cls = (mode == 0 || c >= MAXC) ? MAXC : c;
  memcpy (p, &cls, sizeof cls);
  if (mode > 0)
    memset (p + HDR, (int) (rnd () & 255), n);
  return p + HDR;
}
inline void
put (void *x)
{
  if (!x)
    return;
  char *p = (char *) x - HDR;
  size_t c;
  memcpy (&c, p, sizeof c);
  if (c >= MAXC)
    free (p);
  else if (pools[c].n < SLOTS)
    pools[c].slot[pools[c].n++] = p;
}
}
void *operator new (size_t n) { return verif_heap::get (n); }
void *operator new[] (size_t n) { return verif_heap::get (n); }
void operator delete (void *p) noexcept { verif_heap::put (p); }
void operator delete[] (void *p) noexcept { verif_heap::put (p); }
void operator delete (void *p, size_t) noexcept { verif_heap::put (p); }
void operator delete[] (void *p, size_t) noexcept { verif_heap::put (p); }
#endif
