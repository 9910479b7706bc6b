// Global operator new/delete on a seeded arena.
//
// The engine keeps its objects, events and media in std::set<T*>, so the
// order in which it visits them (and hence the order in which simultaneous
// things happen) is decided by the addresses the allocator returns.  That is
// the scheduler of this single-threaded program; here it is a PRNG.  Every
// block goes to one of LANES bump-pointer lanes picked by the seed, and no
// block is ever reused during a run, so a freed block stays poisoned and any
// later access is reported by AddressSanitizer.

#include "sim.h"
#include <execinfo.h>
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined __SANITIZE_ADDRESS__
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region ((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region ((p), (n))
#else
#define POISON(p, n) ((void) 0)
#define UNPOISON(p, n) ((void) 0)
#endif

namespace {

const size_t LANES = 64;
const size_t LANE_SIZE = 8u << 20;
const size_t REDZONE = 16;
const uint64_t MAGIC = 0x51a9e4a11c0ffee5ull;

struct Hdr
{
  uint64_t size;
  uint32_t tag;
  uint32_t pad;
  uint64_t magic;
  uint64_t pad2;
};

char *base;
size_t used[LANES];
uint64_t live_bytes, live_blocks;
uint64_t rng = 1;
int fill = 0xbe; // what fresh memory contains
int cur_tag;
bool shuffled;

// Allocation sites, for debugging leaks (see sim::arena_leaks).
const int BT_DEPTH = 16;
const size_t BT_MAX = 100000;
void *bt[BT_MAX][BT_DEPTH];
int bt_len[BT_MAX];
size_t bt_n;
bool bt_on, bt_busy;

uint64_t
next ()
{
  uint64_t z = (rng += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

void
setup ()
{
  void *p = mmap ((void *) 0x200000000000ull, LANES * LANE_SIZE, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED)
    {
      static const char m[] = "sim: cannot map arena\n";
      fwrite (m, 1, sizeof m - 1, stderr);
      _exit (97);
    }
  base = (char *) p;
}

void *
alloc (size_t n)
{
  if (!base)
    setup ();
  size_t need = (sizeof (Hdr) + n + REDZONE + 15) & ~(size_t) 15;
  size_t lane = shuffled ? next () % LANES : 0;
  size_t tries = 0;
  while (used[lane] + need > LANE_SIZE)
    {
      lane = (lane + 1) % LANES;
      if (++tries == LANES)
        {
          static const char m[] = "sim: arena exhausted\n";
          fwrite (m, 1, sizeof m - 1, stderr);
          _exit (96);
        }
    }
  char *p = base + lane * LANE_SIZE + used[lane];
  used[lane] += need;
  Hdr *h = (Hdr *) p;
  h->size = n;
  h->tag = (uint32_t) cur_tag;
  h->magic = MAGIC;
  char *u = p + sizeof (Hdr);
  memset (u, fill, n); // uninitialised reads become visible and repeatable
  POISON (h, sizeof (Hdr));
  size_t rz = need - sizeof (Hdr) - n;
  POISON (u + n, rz);
  live_bytes += n;
  live_blocks++;
  if (bt_on && !bt_busy)
    {
      bt_busy = true;
      if (bt_n < BT_MAX)
        {
          h->pad2 = bt_n;
          bt_len[bt_n] = backtrace (bt[bt_n], BT_DEPTH);
          bt_n++;
        }
      bt_busy = false;
    }
  else
    h->pad2 = ~0ull;
  return u;
}

void
dealloc (void *u)
{
  if (!u)
    return;
  Hdr *h = (Hdr *) ((char *) u - sizeof (Hdr));
  UNPOISON (h, sizeof (Hdr));
  if (h->magic != MAGIC)
    {
      static const char m[] = "SIM-ERROR: bad or double delete\n";
      fwrite (m, 1, sizeof m - 1, stderr);
      abort ();
    }
  h->magic = ~MAGIC;
  live_bytes -= h->size;
  live_blocks--;
  POISON (u, h->size);
  POISON (h, sizeof (Hdr));
}

}

namespace sim {

void
arena_begin (uint64_t seed)
{
  rng = seed * 0x2545F4914F6CDD1Dull + 77;
  shuffled = seed != 0;
  fill = (seed / 7) % 3 ? 0xbe : 0x40;
  // A common starting offset in all lanes: relative order of two blocks in
  // different lanes depends on the lane only.
}

// First call: starts recording.  Later calls: where the blocks still alive
// that were allocated since were allocated.
void
arena_leaks ()
{
  if (!bt_on)
    {
      bt_on = true;
      return;
    }
  for (size_t l = 0; l < LANES; l++)
    for (size_t o = 0; o < used[l];)
      {
        Hdr *h = (Hdr *) (base + l * LANE_SIZE + o);
        UNPOISON (h, sizeof (Hdr));
        if (h->magic == MAGIC && h->pad2 < bt_n)
          {
            fprintf (stderr, "LEAK %lu bytes\n", (unsigned long) h->size);
            fflush (stderr);
            backtrace_symbols_fd (bt[h->pad2], bt_len[h->pad2], 2);
          }
        o += (sizeof (Hdr) + h->size + REDZONE + 15) & ~(size_t) 15;
      }
}

uint64_t
arena_live_bytes ()
{
  return live_bytes;
}

uint64_t
arena_live_blocks ()
{
  return live_blocks;
}

void
arena_tag (int tag)
{
  cur_tag = tag;
}

}

void *operator new (size_t n) { return alloc (n); }
void *operator new[] (size_t n) { return alloc (n); }
void *operator new (size_t n, const std::nothrow_t &) noexcept { return alloc (n); }
void *operator new[] (size_t n, const std::nothrow_t &) noexcept { return alloc (n); }
void operator delete (void *p) noexcept { dealloc (p); }
void operator delete[] (void *p) noexcept { dealloc (p); }
void operator delete (void *p, size_t) noexcept { dealloc (p); }
void operator delete[] (void *p, size_t) noexcept { dealloc (p); }
void operator delete (void *p, const std::nothrow_t &) noexcept { dealloc (p); }
void operator delete[] (void *p, const std::nothrow_t &) noexcept { dealloc (p); }
