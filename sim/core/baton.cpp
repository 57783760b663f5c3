// Baton scheduler and happens-before race detector.
// The pthread entry points, the guards of function-local statics and the futex entry points of libstdc++ are interposed
// while the scheduler is on; the code under test is compiled with -fsanitize=thread but the run time behind it is ours:
// every instrumented memory access is a scheduling point and an event of the race detector.
#pragma GCC optimize("O3")
#include "baton.h"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <link.h>

namespace sim
{
extern void (*g_onFree)(uintptr_t, std::size_t);  // heap.cpp
enum
{
  MAXT = 160
};
static volatile bool on = false;
static Ctx* g_ctx;
struct VC
{
  uint32_t c[MAXT];
};
enum St
{
  RUN,
  BLOCKED,
  DONE
};
struct Thr
{
  int id = 0;
  int baton = 0;  // futex word
  St st = RUN;
  const void* waitOn = nullptr;
  bool timed = false, timedOut = false;
  pthread_t real{};
  bool reaped = false, detached = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  void* ret = nullptr;
  uintptr_t slo = 0, shi = 0;
  VC vc{};
  const char* why = "";
};
static Thr* T[MAXT];
static int nT = 0;
static Thr* cur = nullptr;
static __thread Thr* me = nullptr;
static Thr* unreaped = nullptr;
static uint64_t step = 0, nextPre = ~0ull, nsw = 0, hash = 0, hotCount = 0, nextHot = ~0ull, condCount = 0, nspur = 0, npre = 0, nhot = 0;
static std::vector<std::pair<uint64_t, int>> pres, hots;
static std::vector<uint64_t> spur;
static std::size_t ipre = 0, ihot = 0, ispur = 0;
static bool policy = false;
static double policyP = 0;
static Rng prng;
static bool inSched = false;  // guards against instrumented code being reached from the scheduler itself

struct Sync
{
  int owner = -1, count = 0;
  int readers = 0;
  VC vc{};
};
static std::map<const void*, Sync>* syncs;
static Sync& sy(const void* p) { return (*syncs)[p]; }
static void join(VC& a, const VC& b)
{
  for (int i = 0; i < nT + 1 && i < MAXT; ++i)
    if (b.c[i] > a.c[i])
      a.c[i] = b.c[i];
}
static void acquire(Sync& s) { join(me->vc, s.vc); }
static void releaseTo(Sync& s)
{
  join(s.vc, me->vc);
  me->vc.c[me->id]++;
}

static void fwait(int* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static void fwake(int* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

template <class F>
static F nextSym(const char* n)
{
  F f = reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
  return f;
}
#define REALFN(name, ...) \
  using T_##name = __VA_ARGS__; \
  static T_##name r_##name; /* no guarded initialisation: the guards themselves are interposed */ \
  if (!r_##name) \
  r_##name = nextSym<T_##name>(#name)

static void reap()
{
  while (unreaped)
  {
    Thr* t = unreaped;
    unreaped = nullptr;
    REALFN(pthread_join, int (*)(pthread_t, void**));
    void* r;
    r_pthread_join(t->real, &r);
    t->reaped = true;
  }
}
static void handTo(Thr* t)
{
  cur = t;
  ++nsw;
  hash = (hash ^ (step * 31 + t->id)) * 0x100000001b3ull;
  __atomic_store_n(&t->baton, 1, __ATOMIC_SEQ_CST);
  fwake(&t->baton);
}
static void waitBaton(Thr* t)
{
  while (!__atomic_load_n(&t->baton, __ATOMIC_SEQ_CST))
    fwait(&t->baton, 0);
  __atomic_store_n(&t->baton, 0, __ATOMIC_SEQ_CST);
  reap();
}
static void switchTo(Thr* t)
{
  if (t == me)
    return;
  Thr* self = me;
  handTo(t);
  waitBaton(self);
}
static int runnable(Thr** out, bool excludeMe)
{
  int n = 0;
  for (int i = 0; i < nT; ++i)
    if (T[i]->st == RUN && !(excludeMe && T[i] == me))
      out[n++] = T[i];
  return n;
}
static void deadlock()
{
  std::string s = "no thread can run: ";
  for (int i = 0; i < nT; ++i)
    if (T[i]->st == BLOCKED)
      s += fmt("thread %d waits in %s; ", i, T[i]->why);
  on = false;
  g_ctx->fail("deadlock", s);
}
// the current thread cannot go on: somebody else must
static Thr* pickNext()
{
  Thr* c[MAXT];
  int n = runnable(c, true);
  if (!n)
  {
    // time passes until the first timed wait expires
    for (int i = 0; i < nT; ++i)
      if (T[i]->st == BLOCKED && T[i]->timed)
      {
        T[i]->timedOut = true;
        T[i]->st = RUN;
        Clock::jump(1000000000);
        return T[i];
      }
    deadlock();
  }
  return c[policy ? prng.u64() % n : 0];
}
static void block(const void* obj, const char* why, bool timed = false)
{
  me->st = BLOCKED;
  me->waitOn = obj;
  me->why = why;
  me->timed = timed;
  me->timedOut = false;
  Thr* n = pickNext();
  if (n == me)
    return;
  switchTo(n);
}
static void wake(const void* obj, int count = 1 << 30)
{
  for (int i = 0; i < nT && count; ++i)
    if (T[i]->st == BLOCKED && T[i]->waitOn == obj)
    {
      T[i]->st = RUN;
      T[i]->waitOn = nullptr;
      --count;
    }
}
static void preempt(int k)
{
  Thr* c[MAXT];
  int n = runnable(c, true);
  if (n)
    switchTo(c[((k % n) + n) % n]);
}
static inline void checkPre()
{
  if (__builtin_expect(++step >= nextPre, 0))
  {
    int k = pres[ipre].second;
    ++ipre;
    nextPre = ipre < pres.size() ? std::max(pres[ipre].first, step + 1) : ~0ull;
    ++npre;
    preempt(k);
  }
}
static void syncPoint()
{
  checkPre();
  if (policy && prng.chance(policyP))
    preempt((int)(prng.u64() >> 40));
}
static bool active() { return on && me && !inSched; }

// ---------------------------------------------------------------- race detector
struct Cell
{
  uint32_t wclk, rclk[3];
  uint8_t wtid, wmask, rtid[3], rmask[3];
  uint32_t wpc, rpc[3];  // offsets in the library
};
enum
{
  PAGES = 1 << 14
};
static uintptr_t* pkey;
static Cell** pval;
static char *pool, *poolEnd;
static uintptr_t libBase = 0, libLo = 0, libHi = 0;  // writable data of the code under test
static int findData(struct dl_phdr_info* i, size_t, void*)
{
  if (i->dlpi_name && strstr(i->dlpi_name, "librepo"))
  {
    libBase = i->dlpi_addr;
    for (int k = 0; k < i->dlpi_phnum; ++k)
      if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W))
      {
        libLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        libHi = libLo + i->dlpi_phdr[k].p_memsz;
      }
  }
  return 0;
}
static uintptr_t lastKey = 0;  // one thread runs at a time
static Cell* lastPage = nullptr;
static Cell* page(uintptr_t a, bool create)
{
  uintptr_t k = (a >> 12) + 1;
  if (k == lastKey)
    return lastPage;
  std::size_t h = (k * 0x9E3779B97F4A7C15ull) >> 50;
  for (std::size_t i = 0; i < PAGES; ++i, h = (h + 1) & (PAGES - 1))
  {
    if (pkey[h] == k)
    {
      lastKey = k;
      return lastPage = pval[h];
    }
    if (!pkey[h])
    {
      if (!create || pool + 512 * sizeof(Cell) > poolEnd)
        return nullptr;
      pkey[h] = k;
      pval[h] = reinterpret_cast<Cell*>(pool);
      pool += 512 * sizeof(Cell);
      return pval[h];
    }
  }
  return nullptr;
}
static std::string symbol(uint32_t off)
{
  Dl_info d;
  void* p = reinterpret_cast<void*>(libBase + off);
  if (dladdr(p, &d) && d.dli_sname)
    return fmt("%s+0x%lx", d.dli_sname, (unsigned long)((char*)p - (char*)d.dli_saddr));
  return fmt("librepo+0x%x", off);
}
static void race(const char* a, const char* b, uintptr_t addr, uint32_t pa, uint32_t pb, int other)
{
  on = false;
  g_ctx->fail("race", fmt("thread %d %s and thread %d %s the same %s memory without synchronisation: %s / %s", other, a, me->id, b,
                          addr >= libLo && addr < libHi ? "global" : "heap or stack", symbol(pa).c_str(), symbol(pb).c_str()));
}
static inline void access(uintptr_t a, std::size_t n, bool write, void* pc)
{
  if (!active())
    return;
  bool own = a >= me->slo && a < me->shi;
  if (own)
  {
    checkPre();
    return;
  }
  checkPre();
  if (nT < 2 || !n)
    return;
  uint32_t off = (uint32_t)((uintptr_t)pc - libBase);
  bool hot = a >= libLo && a < libHi;
  uintptr_t e = a + n;
  while (a < e)
  {
    uintptr_t g = a & ~7ull;
    uint8_t mask = 0;
    for (; a < e && a < g + 8; ++a)
      mask |= (uint8_t)(1u << (a & 7));
    Cell* p = page(g, true);
    if (!p)
      continue;
    Cell& c = p[(g >> 3) & 511];
    if (c.wmask && c.wtid != me->id)
    {
      hot = true;
      if ((c.wmask & mask) && c.wclk > me->vc.c[c.wtid])
        race("writes", write ? "writes" : "reads", g, c.wpc, off, c.wtid);
    }
    int slot = 0;
    for (int i = 0; i < 3; ++i)
    {
      if (c.rmask[i] && c.rtid[i] != me->id)
      {
        hot = true;
        if (write && (c.rmask[i] & mask) && c.rclk[i] > me->vc.c[c.rtid[i]])
          race("reads", "writes", g, c.rpc[i], off, c.rtid[i]);
      }
      if (!c.rmask[i] || c.rtid[i] == me->id)
        slot = i;
    }
    if (write)
    {
      c.wmask = mask;
      c.wtid = (uint8_t)me->id;
      c.wclk = me->vc.c[me->id];
      c.wpc = off;
      if (mask == 0xff)
        memset(c.rmask, 0, sizeof c.rmask);
    }
    else
    {
      if (c.rtid[slot] != me->id)
        c.rmask[slot] = 0;
      c.rmask[slot] |= mask;
      c.rtid[slot] = (uint8_t)me->id;
      c.rclk[slot] = me->vc.c[me->id];
      c.rpc[slot] = off;
    }
  }
  if (hot && ++hotCount >= nextHot)
  {
    int k = hots[ihot].second;
    ++ihot;
    nextHot = ihot < hots.size() ? std::max(hots[ihot].first, hotCount + 1) : ~0ull;
    ++nhot;
    preempt(k);
  }
}
static void forget(uintptr_t a, std::size_t n)
{
  uintptr_t e = a + n;
  while (a < e)
  {
    uintptr_t pe = std::min<uintptr_t>(e, (a & ~4095ull) + 4096);
    if (Cell* p = page(a, false))
    {
      std::size_t f = (a >> 3) & 511, l = (pe - a + 7) / 8;
      memset(p + f, 0, sizeof(Cell) * std::min<std::size_t>(l, 512 - f));
    }
    a = pe;
  }
}

// ---------------------------------------------------------------- start / stop
static void stackOf(Thr* t)
{
  pthread_attr_t a;
  void* lo;
  size_t n;
  if (pthread_getattr_np(pthread_self(), &a) == 0)
  {
    pthread_attr_getstack(&a, &lo, &n);
    t->slo = (uintptr_t)lo;
    t->shi = t->slo + n;
    pthread_attr_destroy(&a);
  }
}
void Sched::start(const Plan& p, Ctx& ctx)
{
  g_ctx = &ctx;
  g_onFree = [](uintptr_t a, std::size_t n) {  // memory that is given back carries no history
    if (on && pkey)
      forget(a, n);
  };
  static std::map<const void*, Sync> s;
  syncs = &s;
  pkey = (uintptr_t*)mmap(nullptr, PAGES * sizeof(uintptr_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  pval = (Cell**)mmap(nullptr, PAGES * sizeof(Cell*), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  std::size_t ps = 300ull << 20;
  pool = (char*)mmap(nullptr, ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  poolEnd = pool + ps;
  dl_iterate_phdr(findData, nullptr);
  pres.clear(), hots.clear(), spur.clear();
  ipre = ihot = ispur = 0;
  for (auto* it : p.all("pre"))
    pres.push_back({ (uint64_t)it->i("at"), (int)it->i("to") });
  for (auto* it : p.all("hot"))
    hots.push_back({ (uint64_t)it->i("at"), (int)it->i("to") });
  for (auto* it : p.all("spurious"))
    spur.push_back((uint64_t)it->i("at"));
  std::sort(pres.begin(), pres.end());
  std::sort(hots.begin(), hots.end());
  std::sort(spur.begin(), spur.end());
  nextPre = pres.empty() ? ~0ull : pres[0].first;
  nextHot = hots.empty() ? ~0ull : hots[0].first;
  policy = false;
  if (const Item* it = p.find("policy"))
  {
    policy = true;
    policyP = it->d("p");
    prng = Rng((uint64_t)it->i("seed"), "policy");
  }
  me = new Thr;
  T[0] = cur = me;
  nT = 1;
  me->vc.c[0] = 1;
  stackOf(me);
  step = nsw = hotCount = condCount = nspur = npre = nhot = 0;
  hash = 1;
  on = true;
}
void Sched::stop()
{
  if (!on)
    return;
  // let every remaining thread finish
  for (int i = 1; i < nT; ++i)
    while (T[i]->st != DONE)
      block(T[i], "end of run");
  on = false;
  g_ctx->steps(step);
  g_ctx->state(hash);
  g_ctx->event64("schedule", hash);
  g_ctx->fault("forced-preemption", npre + nhot);
  g_ctx->fault("spurious-wakeup", nspur);
  g_ctx->note("context_switches", (double)nsw);
  g_ctx->note("shared_accesses", (double)hotCount);
  g_ctx->note("threads", nT);
  if (nsw)
    g_ctx->nontrivial();
}
uint64_t Sched::points() { return step; }
uint64_t Sched::switches() { return nsw; }
void Sched::gen(Rng& r, Plan& p, double maxPoint, int npre_, int nhot_)
{
  if (r.chance(0.7))
    p.add("policy", true).set("seed", (unsigned long)(r.u64() >> 24)).set("p", r.chance(0.3) ? 0.9 : r.uni(0, 0.5));
  for (int i = 0; i < npre_; ++i)
    p.add("pre", true).set("at", (unsigned long)std::exp(r.uni(0, std::log(maxPoint)))).set("to", r.range(0, 7));
  for (int i = 0; i < nhot_; ++i)
    p.add("hot", true).set("at", (unsigned long)std::exp(r.uni(0, std::log(maxPoint / 20 + 2)))).set("to", r.range(0, 7));
  int ns = r.chance(0.3) ? r.range(1, 4) : 0;
  for (int i = 0; i < ns; ++i)
    p.add("spurious", true).set("at", r.range(1, 40));
}

static void* trampoline(void* a)
{
  Thr* t = static_cast<Thr*>(a);
  waitBaton(t);
  me = t;
  stackOf(t);
  void* r = t->fn(t->arg);
  t->ret = r;
  t->st = DONE;
  Sync& s = sy(t);
  releaseTo(s);
  wake(t);
  Thr* n = pickNext();
  unreaped = t;
  me = nullptr;
  handTo(n);
  return r;
}
struct Quiet
{
  bool old;
  Quiet() : old(inSched) { inSched = true; }
  ~Quiet() { inSched = old; }
};
}  // namespace sim
using namespace sim;

#pragma GCC visibility push(default)
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
  REALFN(pthread_create, int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*));
  if (!active())
    return r_pthread_create(th, at, fn, arg);
  if (nT >= MAXT)
    return EAGAIN;
  Thr* t = new Thr;
  t->id = nT;
  t->fn = fn;
  t->arg = arg;
  t->vc = me->vc;
  t->vc.c[t->id] = 1;
  me->vc.c[me->id]++;
  int r = r_pthread_create(&t->real, nullptr, trampoline, t);
  if (r)
    return r;
  *th = t->real;
  T[nT++] = t;
  syncPoint();
  return 0;
}
static Thr* byReal(pthread_t p)
{
  for (int i = nT - 1; i >= 0; --i)
    if (pthread_equal(T[i]->real, p) && i > 0)
      return T[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** ret)
{
  REALFN(pthread_join, int (*)(pthread_t, void**));
  if (!active())
    return r_pthread_join(p, ret);
  syncPoint();
  Thr* t = byReal(p);
  if (!t)
    return r_pthread_join(p, ret);
  while (t->st != DONE)
    block(t, "join");
  join(me->vc, sy(t).vc);
  reap();
  if (ret)
    *ret = t->ret;
  // the identifier may be used again by the system
  memset(&t->real, 0, sizeof t->real);
  return 0;
}
int pthread_detach(pthread_t p)
{
  REALFN(pthread_detach, int (*)(pthread_t));
  if (!active())
    return r_pthread_detach(p);
  return 0;  // reaped by the scheduler
}
static int lockM(pthread_mutex_t* m)
{
  for (;;)
  {
    Sync& s = sy(m);
    if (s.owner < 0)
    {
      s.owner = me->id;
      s.count = 1;
      acquire(s);
      return 0;
    }
    if (s.owner == me->id)
    {
      int kind = m->__data.__kind & 3;
      if (kind == PTHREAD_MUTEX_RECURSIVE)
      {
        ++s.count;
        return 0;
      }
      if (kind == PTHREAD_MUTEX_ERRORCHECK)
        return EDEADLK;
    }
    block(m, "mutex lock");
  }
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
  REALFN(pthread_mutex_lock, int (*)(pthread_mutex_t*));
  if (!active())
    return r_pthread_mutex_lock(m);
  syncPoint();
  return lockM(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
  REALFN(pthread_mutex_trylock, int (*)(pthread_mutex_t*));
  if (!active())
    return r_pthread_mutex_trylock(m);
  syncPoint();
  Sync& s = sy(m);
  if (s.owner < 0 || (s.owner == me->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE))
    return lockM(m);
  return EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t)
{
  REALFN(pthread_mutex_timedlock, int (*)(pthread_mutex_t*, const struct timespec*));
  if (!active())
    return r_pthread_mutex_timedlock(m, t);
  return pthread_mutex_lock(m);
}
static int unlockM(pthread_mutex_t* m)
{
  Sync& s = sy(m);
  if (s.owner != me->id)
    return 0;  // locked before the scheduler was switched on
  if (--s.count == 0)
  {
    s.owner = -1;
    releaseTo(s);
    wake(m);
  }
  return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
  REALFN(pthread_mutex_unlock, int (*)(pthread_mutex_t*));
  if (!active())
    return r_pthread_mutex_unlock(m);
  int r = unlockM(m);
  syncPoint();
  return r;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
  REALFN(pthread_mutex_destroy, int (*)(pthread_mutex_t*));
  if (!active())
    return r_pthread_mutex_destroy(m);
  syncs->erase(m);
  return 0;
}
static int rdlock(pthread_rwlock_t* m)
{
  syncPoint();
  for (;;)
  {
    Sync& s = sy(m);
    if (s.owner < 0)
    {
      ++s.readers;
      acquire(s);
      return 0;
    }
    block(m, "shared lock");
  }
}
static int wrlock(pthread_rwlock_t* m)
{
  syncPoint();
  for (;;)
  {
    Sync& s = sy(m);
    if (s.owner < 0 && !s.readers)
    {
      s.owner = me->id;
      acquire(s);
      return 0;
    }
    block(m, "exclusive lock");
  }
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
  REALFN(pthread_rwlock_rdlock, int (*)(pthread_rwlock_t*));
  return active() ? rdlock(m) : r_pthread_rwlock_rdlock(m);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
  REALFN(pthread_rwlock_wrlock, int (*)(pthread_rwlock_t*));
  return active() ? wrlock(m) : r_pthread_rwlock_wrlock(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
  REALFN(pthread_rwlock_unlock, int (*)(pthread_rwlock_t*));
  if (!active())
    return r_pthread_rwlock_unlock(m);
  Sync& s = sy(m);
  if (s.owner == me->id)
    s.owner = -1;
  else if (s.readers)
    --s.readers;
  releaseTo(s);
  wake(m);
  syncPoint();
  return 0;
}
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
  syncPoint();
  unlockM(m);
  ++condCount;
  bool sp = false;
  while (ispur < spur.size() && spur[ispur] <= condCount)
  {
    sp = true;
    ++ispur;
  }
  if (sp)
  {
    ++nspur;
    preempt((int)condCount);
  }
  else
    block(c, "condition wait", timed);
  bool to = me->timedOut;
  me->timedOut = false;
  lockM(m);
  return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  REALFN(pthread_cond_wait, int (*)(pthread_cond_t*, pthread_mutex_t*));
  return active() ? condWait(c, m, false) : r_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t)
{
  REALFN(pthread_cond_timedwait, int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*));
  return active() ? condWait(c, m, true) : r_pthread_cond_timedwait(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t)
{
  REALFN(pthread_cond_clockwait, int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*));
  return active() ? condWait(c, m, true) : r_pthread_cond_clockwait(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t* c)
{
  REALFN(pthread_cond_signal, int (*)(pthread_cond_t*));
  if (!active())
    return r_pthread_cond_signal(c);
  if (policy && prng.chance(0.5))
  {
    // any waiter may be the one that wakes
    int w[MAXT], n = 0;
    for (int i = 0; i < nT; ++i)
      if (T[i]->st == BLOCKED && T[i]->waitOn == c)
        w[n++] = i;
    if (n)
    {
      Thr* t = T[w[prng.u64() % n]];
      t->st = RUN;
      t->waitOn = nullptr;
    }
  }
  else
    wake(c, 1);
  syncPoint();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
  REALFN(pthread_cond_broadcast, int (*)(pthread_cond_t*));
  if (!active())
    return r_pthread_cond_broadcast(c);
  wake(c);
  syncPoint();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
  REALFN(pthread_once, int (*)(pthread_once_t*, void (*)(void)));
  if (!active() || *o == 2)
    return r_pthread_once(o, fn);
  syncPoint();
  for (;;)
  {
    Sync& s = sy(o);
    if (*o == 2)
    {
      acquire(s);
      return 0;
    }
    if (s.owner < 0)
      break;
    block(o, "once");
  }
  sy(o).owner = me->id;
  try
  {
    fn();
  }
  catch (...)
  {
    sy(o).owner = -1;
    wake(o);
    throw;
  }
  *o = 2;
  Sync& s = sy(o);
  s.owner = -1;
  releaseTo(s);
  wake(o);
  return 0;
}
int sched_yield()
{
  if (active())
  {
    ++step;
    preempt((int)step);
  }
  return 0;
}
int __cxa_guard_acquire(long long* g)
{
  char* b = reinterpret_cast<char*>(g);
  if (b[0])
    return 0;
  if (!active())
  {
    REALFN(__cxa_guard_acquire, int (*)(long long*));
    return r___cxa_guard_acquire(g);
  }
  syncPoint();
  for (;;)
  {
    Sync& s = sy(g);
    if (b[0])
    {
      acquire(s);
      return 0;
    }
    if (s.owner < 0)
    {
      s.owner = me->id;
      return 1;
    }
    block(g, "initialisation of a static");
  }
}
void __cxa_guard_release(long long* g)
{
  if (!active() || sy(g).owner < 0)
  {
    REALFN(__cxa_guard_release, void (*)(long long*));
    r___cxa_guard_release(g);
    return;
  }
  Sync& s = sy(g);
  reinterpret_cast<char*>(g)[0] = 1;
  s.owner = -1;
  releaseTo(s);
  wake(g);
  syncPoint();
}
void __cxa_guard_abort(long long* g)
{
  if (!active() || sy(g).owner < 0)
  {
    REALFN(__cxa_guard_abort, void (*)(long long*));
    r___cxa_guard_abort(g);
    return;
  }
  sy(g).owner = -1;
  wake(g);
}
// ---- instrumentation callbacks
#define CALLER __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                        \
  void __tsan_read##n(void* a) { access((uintptr_t)a, n, false, CALLER); }                           \
  void __tsan_write##n(void* a) { access((uintptr_t)a, n, true, CALLER); }                           \
  void __tsan_unaligned_read##n(void* a) { access((uintptr_t)a, n, false, CALLER); }                 \
  void __tsan_unaligned_write##n(void* a) { access((uintptr_t)a, n, true, CALLER); }                 \
  void __tsan_volatile_read##n(void* a) { access((uintptr_t)a, n, false, CALLER); }                  \
  void __tsan_volatile_write##n(void* a) { access((uintptr_t)a, n, true, CALLER); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* a, size_t n) { access((uintptr_t)a, n, false, CALLER); }
void __tsan_write_range(void* a, size_t n) { access((uintptr_t)a, n, true, CALLER); }
void __tsan_vptr_update(void** a, void*) { access((uintptr_t)a, 8, true, CALLER); }
void __tsan_vptr_read(void** a) { access((uintptr_t)a, 8, false, CALLER); }
static void atomicOp(const volatile void* a)
{
  if (!active())
    return;
  syncPoint();
  Sync& s = sy((const void*)a);
  acquire(s);
  releaseTo(s);
}
// a load acquires only
static void atomicLoad(const volatile void* a)
{
  if (!active())
    return;
  syncPoint();
  auto it = syncs->find((const void*)a);
  if (it != syncs->end())
    acquire(it->second);
}
#define AT(bits, type)                                                                               \
  type __tsan_atomic##bits##_load(const volatile type* a, int)                                       \
  {                                                                                                  \
    atomicLoad(a);                                                                                   \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                  \
  void __tsan_atomic##bits##_store(volatile type* a, type v, int)                                    \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                        \
  }                                                                                                  \
  type __tsan_atomic##bits##_exchange(volatile type* a, type v, int)                                 \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                              \
  }                                                                                                  \
  type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int)                                \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                  \
  type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int)                                \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                  \
  type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int)                                \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                  \
  type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int)                                 \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                \
  }                                                                                                  \
  type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int)                                \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                               \
  }                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type d, int, int)     \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
  }                                                                                                  \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type d, int, int)       \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    return __atomic_compare_exchange_n(a, e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);          \
  }                                                                                                  \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type d, int, int)        \
  {                                                                                                  \
    atomicOp(a);                                                                                     \
    __atomic_compare_exchange_n(a, &e, d, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                \
    return e;                                                                                        \
  }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int)
{
  static int fence;
  atomicOp(&fence);
}
void __tsan_atomic_signal_fence(int) {}
int nanosleep(const struct timespec* q, struct timespec*)
{
  Clock::jump(q->tv_sec * 1000000000ll + q->tv_nsec);
  sched_yield();
  return 0;
}
int clock_nanosleep(clockid_t, int flags, const struct timespec* q, struct timespec*)
{
  int64_t t = q->tv_sec * 1000000000ll + q->tv_nsec;
  if (flags & TIMER_ABSTIME)
    t = t > Clock::now() ? t - Clock::now() : 0;
  Clock::jump(t);
  sched_yield();
  return 0;
}
}
// std::future and friends block in the library through these two
#include <atomic>
#include <bits/atomic_futex.h>
namespace std
{
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds, chrono::nanoseconds)
{
  while (__atomic_load_n(a, __ATOMIC_SEQ_CST) == v)
  {
    if (!active())
    {
      syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0);
      continue;
    }
    block(a, "future wait", timed);
    if (me->timedOut)
      return false;
  }
  if (active())
    acquire(sy(a));
  return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
  if (!active())
  {
    syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1 << 30, nullptr, nullptr, 0);
    return;
  }
  releaseTo(sy(a));
  wake(a);
  syncPoint();
}
}  // namespace std
