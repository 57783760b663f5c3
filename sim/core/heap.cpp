// Seam: the heap. Every allocation of the process (C and C++, library, solver and image library included) comes from an
// arena at a fixed address; each run starts with an empty arena, so addresses are a function of the run alone. A layout
// seed changes placement, order of reuse and the contents of fresh memory.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <sched.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim
{
void (*g_onFree)(uintptr_t, std::size_t) = nullptr;
struct Block
{
  uint32_t cls;
  uint32_t magic;
  uint64_t start;  // of the block's memory (behind this header when not over-aligned)
};
static const uint32_t LIVE = 0xA11CE5EDu, DEAD = 0xDEADB10Cu;
static const int NC = 64 + 4 * 34;
static std::size_t classSize(int c)
{
  if (c < 64)
    return 16 * (std::size_t)(c + 1);
  int k = (c - 64) / 4, q = (c - 64) % 4;
  return ((std::size_t)1024 << k) + (((std::size_t)256 << k) * (std::size_t)(q + 1));
}
static int classOf(std::size_t n)
{
  if (n <= 1024)
    return n ? (int)((n + 15) / 16) - 1 : 0;
  std::size_t m = n - 1;  // > 1023
  int k = 63 - __builtin_clzll(m) - 10;
  std::size_t base = (std::size_t)1024 << k;
  int q = (int)((m - base) / ((std::size_t)256 << k));
  return 64 + 4 * k + q;
}
struct Arena
{
  char *lo, *cur, *hi;
  void* freeList[NC];
};
static Arena arena[2];
static int current = 0;
static uint64_t layout = 0;
static int lockWord = 0;
struct Lock
{
  Lock()
  {
    while (__atomic_exchange_n(&lockWord, 1, __ATOMIC_ACQUIRE))
      sched_yield();
  }
  ~Lock() { __atomic_store_n(&lockWord, 0, __ATOMIC_RELEASE); }
};
static const std::size_t SIZE = (std::size_t)24 << 30;
static void openArena(int i)
{
  void* at = (void*)(i ? 0x300000000000ull : 0x200000000000ull);
  void* p = mmap(at, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p == MAP_FAILED)
  {
    const char m[] = "simulator: no heap\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(97);
  }
  arena[i].lo = arena[i].cur = (char*)p;
  arena[i].hi = (char*)p + SIZE;
}
static uint64_t draw()
{
  layout = layout * 6364136223846793005ull + 1442695040888963407ull;
  return layout >> 33;
}
static void* get(std::size_t n, std::size_t al)
{
  if (n > (SIZE >> 1))
    return nullptr;
  std::size_t want = n + (al > 16 ? al : 0);
  int c = classOf(want);
  std::size_t sz = classSize(c);
  char* start = nullptr;
  {
    Lock l;
    Arena& a = arena[current];
    if (!a.lo)
      openArena(current);
    void** f = &a.freeList[c];
    if (layout && *f)
    {
      // any of the first few blocks of that size, or new memory
      int skip = (int)(draw() % 4);
      if (skip == 3)
        f = nullptr;
      else
        while (skip-- && *(void**)*f)
          f = (void**)*f;
    }
    if (f && *f)
    {
      start = (char*)*f;
      *f = *(void**)start;
    }
    else
    {
      std::size_t gap = 0;
      if (layout)
      {
        gap = 16 * (draw() % 24);
        if (draw() % 32 == 0)
          gap += 4096;
      }
      if ((std::size_t)(a.hi - a.cur) < sz + gap + 32)
        return nullptr;
      start = a.cur + gap + 16;
      a.cur = start + sz;
    }
    if (layout)
      memset(start, (int)(draw() & 255), sz < 4096 ? sz : 4096);
  }
  uintptr_t u = (uintptr_t)start;
  if (al > 16)
    u = (u + al - 1) / al * al;
  // an over-aligned block carries two headers: the last one is found by free()
  Block* h = (Block*)u - 1;
  h->cls = (uint32_t)c;
  h->magic = LIVE;
  h->start = (uint64_t)(uintptr_t)start;
  return (void*)u;
}
static Block* head(void* p)
{
  Block* h = (Block*)p - 1;
  if (h->magic != LIVE)
  {
    const char* m = h->magic == DEAD ? "simulator: memory was freed twice\n" : "simulator: free of something that was not allocated\n";
    if (write(2, m, strlen(m))) {}
    _exit(h->magic == DEAD ? 98 : 99);
  }
  return h;
}
static std::size_t room(void* p)
{
  Block* h = head(p);
  return classSize((int)h->cls) - ((uintptr_t)p - h->start);
}
static void put(void* p)
{
  if (g_onFree)
    g_onFree((uintptr_t)p, room(p));
  Block* h = head(p);
  char* s = (char*)h->start;
  int c = (int)h->cls;
  h->magic = DEAD;
  Lock l;
  int i = s >= arena[1].lo && s < arena[1].hi ? 1 : 0;
  *(void**)s = arena[i].freeList[c];
  arena[i].freeList[c] = s;
}
void heapBeginRun()
{
  current = 1;
  layout = 0;
  if (!arena[1].lo)
    openArena(1);
}
void heapLayout(uint64_t seed) { layout = seed; }
}  // namespace sim

#pragma GCC visibility push(default)
extern "C" {
void* malloc(size_t n)
{
  void* p = sim::get(n, 16);
  if (!p)
    errno = ENOMEM;
  return p;
}
void free(void* p)
{
  if (p)
  {
    int e = errno;
    sim::put(p);
    errno = e;
  }
}
void* calloc(size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n))
    return errno = ENOMEM, nullptr;
  void* p = malloc(n);
  if (p)
    memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n)
{
  if (!p)
    return malloc(n);
  if (!n)
    return free(p), nullptr;
  size_t have = sim::room(p);
  if (n <= have && n > have / 4)
    return p;
  void* q = malloc(n);
  if (!q)
    return nullptr;
  memcpy(q, p, n < have ? n : have);
  free(p);
  return q;
}
void* reallocarray(void* p, size_t a, size_t b)
{
  size_t n;
  if (__builtin_mul_overflow(a, b, &n))
    return errno = ENOMEM, nullptr;
  return realloc(p, n);
}
int posix_memalign(void** o, size_t al, size_t n)
{
  void* p = sim::get(n, al);
  if (!p)
    return ENOMEM;
  *o = p;
  return 0;
}
void* aligned_alloc(size_t al, size_t n) { return sim::get(n, al); }
void* memalign(size_t al, size_t n) { return sim::get(n, al); }
void* valloc(size_t n) { return sim::get(n, 4096); }
void* pvalloc(size_t n) { return sim::get((n + 4095) / 4096 * 4096, 4096); }
size_t malloc_usable_size(void* p) { return p ? sim::room(p) : 0; }
int mallopt(int, int) { return 1; }
int malloc_trim(size_t) { return 0; }
}
