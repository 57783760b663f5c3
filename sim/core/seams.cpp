// Seams between the code under test and the outside world: clock, entropy, heap.
#include "sim.h"
#include <cstdlib>
#include <cstdio>
#include <new>
#include <random>
#include <dlfcn.h>
#include <link.h>
#include <malloc.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace sim
{
static int64_t c_now = 1600000000000000000ll, c_tick = 1000, c_jump = 0;
static uint64_t c_reads = 0, c_every = 0;
void Clock::reset(int64_t s, int64_t t)
{
  c_now = s;
  c_tick = t;
  c_reads = c_every = 0;
}
int64_t Clock::now() { return c_now; }
void Clock::jump(int64_t ns) { c_now += ns; }
uint64_t Clock::reads() { return c_reads; }
void Clock::jumpEvery(uint64_t n, int64_t ns)
{
  c_every = n;
  c_jump = ns;
}
static int64_t readClock()
{
  ++c_reads;
  c_now += c_tick;
  if (c_every && c_reads % c_every == 0)
    c_now += c_jump;
  return c_now;
}

static uint64_t e_state = 1, e_draws = 0;
void Entropy::reset(uint64_t s)
{
  e_state = s * 2 + 1;
  e_draws = 0;
}
uint64_t Entropy::draws() { return e_draws; }
static unsigned entropyNext()
{
  ++e_draws;
  Rng r(e_state, "entropy");
  e_state = r.u64();
  return static_cast<unsigned>(r.u64() >> 32);
}

// ---- heap
static volatile long a_fail = -1;
static volatile long a_count = 0;
static volatile bool a_armed = false, a_fired = false;
void heapLayout(uint64_t seed);  // heap.cpp
static uintptr_t lib_lo = 0, lib_hi = 0;
static int findLib(struct dl_phdr_info* i, size_t, void*)
{
  if (i->dlpi_name && strstr(i->dlpi_name, "librepo"))
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
      {
        lib_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        lib_hi = lib_lo + i->dlpi_phdr[k].p_memsz;
      }
  return 0;
}
bool inLibrary(const void* pc)
{
  if (!lib_lo)
    dl_iterate_phdr(findLib, nullptr);
  uintptr_t p = reinterpret_cast<uintptr_t>(pc);
  return p >= lib_lo && p < lib_hi;
}
void Alloc::failAt(long n)
{
  a_fail = n;
  a_count = 0;
  a_fired = false;
}
bool Alloc::fired() { return a_fired; }
long Alloc::count() { return a_count; }
void Alloc::arm(bool on)
{
  inLibrary(nullptr);
  a_armed = on;
}
void Alloc::layout(uint64_t seed)
{
  heapLayout(seed);
}
struct Head
{
  void* base;
  uint64_t magic;
};
static const uint64_t MAGIC = 0xA110CA7EDBEEF001ull;
static void* allocate(std::size_t n, std::size_t al, const void* pc, bool nothrow)
{
  if (a_armed && inLibrary(pc))
  {
    long k = a_count;
    a_count = k + 1;
    if (k == a_fail)
    {
      a_fired = true;
      if (nothrow)
        return nullptr;
      throw std::bad_alloc();
    }
  }
  if (al < 16)
    al = 16;
  char* b = static_cast<char*>(malloc(n + al + sizeof(Head) + 16));
  if (!b)
  {
    if (nothrow)
      return nullptr;
    throw std::bad_alloc();
  }
  uintptr_t u = reinterpret_cast<uintptr_t>(b) + sizeof(Head);
  u = (u + al - 1) / al * al;
  Head* h = reinterpret_cast<Head*>(u) - 1;
  h->base = b;
  h->magic = MAGIC;
  return reinterpret_cast<void*>(u);
}
static void release(void* p)
{
  if (!p)
    return;
  Head* h = static_cast<Head*>(p) - 1;
  if (h->magic != MAGIC)
  {
    const char m[] = "simulator: delete of a pointer that new never returned\n";
    if (write(2, m, sizeof m - 1) < 0) {}
    abort();
  }
  h->magic = 0;
  free(h->base);
}
}  // namespace sim

#pragma GCC visibility push(default)
#define PC __builtin_return_address(0)
void* operator new(std::size_t n) { return sim::allocate(n, 16, PC, false); }
void* operator new[](std::size_t n) { return sim::allocate(n, 16, PC, false); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, 16, PC, true); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, 16, PC, true); }
void* operator new(std::size_t n, std::align_val_t a) { return sim::allocate(n, (std::size_t)a, PC, false); }
void* operator new[](std::size_t n, std::align_val_t a) { return sim::allocate(n, (std::size_t)a, PC, false); }
void operator delete(void* p) noexcept { sim::release(p); }
void operator delete[](void* p) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::size_t) noexcept { sim::release(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::release(p); }
void operator delete(void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::release(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { sim::release(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { sim::release(p); }

extern "C" {
int clock_gettime(clockid_t, struct timespec* t)
{
  int64_t n = sim::readClock();
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  return 0;
}
int gettimeofday(struct timeval* t, void*)
{
  int64_t n = sim::readClock();
  if (t)
  {
    t->tv_sec = n / 1000000000;
    t->tv_usec = n % 1000000000 / 1000;
  }
  return 0;
}
time_t time(time_t* t)
{
  time_t n = sim::readClock() / 1000000000;
  if (t)
    *t = n;
  return n;
}
}

// std::random_device reads simulated entropy
namespace std
{
void random_device::_M_init(const std::string&) {}
void random_device::_M_init_pretr1(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return sim::entropyNext(); }
random_device::result_type random_device::_M_getval_pretr1() { return sim::entropyNext(); }
double random_device::_M_getentropy() const noexcept { return 32.0; }
}  // namespace std
