// C07: a call's result depends on its arguments only: histories of calls, failures, clocks, entropy and heaps
#include "jobs.h"
#include <opencv2/core/utility.hpp>
using namespace sim;

static int pick(Rng& r, bool images)
{
  for (;;)
  {
    int k = r.range(0, jobs::kinds() - 1);
    if (jobs::image(k) && !(images && r.chance(0.5)))
      continue;
    if (jobs::threads(k))
      continue;  // its worker threads are scheduled in C06, not here
    return k;
  }
}
static void gen(Rng& r, Plan& p, int tier)
{
  bool images = r.chance(0.3);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("images", (int)images);
  int n = r.range(2, tier ? 10 : 6), nj = r.range(1, 3);
  std::vector<int> kind(nj);
  std::vector<unsigned long> seed(nj);
  for (int i = 0; i < nj; ++i)
    kind[i] = pick(r, images), seed[i] = r.u64() >> 24;
  for (int i = 0; i < n; ++i)
  {
    switch (r.range(0, 9))
    {
      case 0:
        // within the 30 years that the solver allows a solution to take
        if (r.chance(0.5))
          p.add("clock", true).set("jump", r.uni(-1, 1) * 3e17).set("every", 0);
        else
          p.add("clock", true).set("jump", r.uni(-1, 1) * 1e12).set("every", r.range(1, 50));
        break;
      case 1:
        p.add("entropy", true).set("seed", (unsigned long)(r.u64() >> 40));
        break;
      case 2:
        p.add("heap", true).set("seed", (unsigned long)(r.u64() >> 40) + 1);
        break;
      case 3:
      case 4: {
        int k = r.chance(0.5) ? kind[r.range(0, nj - 1)] : pick(r, images);
        p.add("call", true).set("kind", k).set("seed", (unsigned long)(r.u64() >> 24)).set("bad", 0).set("failat", (int)std::floor(std::exp(r.uni(0, 7))) - 1);
        break;
      }
      case 5: {
        int k = r.chance(0.5) ? kind[r.range(0, nj - 1)] : pick(r, images);
        p.add("call", true).set("kind", k).set("seed", (unsigned long)(r.u64() >> 24)).set("bad", r.range(1, 3));
        break;
      }
      default: {
        int j = r.range(0, nj - 1);
        bool same = r.chance(0.7);
        p.add("call", true).set("kind", same ? kind[j] : pick(r, images)).set("seed", same ? seed[j] : (unsigned long)(r.u64() >> 24)).set("bad", 0);
      }
    }
  }
  int j = r.range(0, nj - 1);
  p.add("call").set("kind", kind[j]).set("seed", seed[j]).set("bad", 0);
}
static void run(const Plan& p, Ctx& ctx)
{
  cv::setNumThreads(1);
  const Item& s = p.need("setup");
  bool images = s.i("images");
  uint64_t ws = (uint64_t)s.i("seed");
  auto w = jobs::makeWorld(ws, images);
  Digest dg;
  int n = 0, ok = 0;
  // references: each call alone in a process that has called nothing before it, under another heap layout, clock and
  // entropy. They are taken before this process makes its first call
  struct Alone
  {
    jobs::Out out;
    bool crashed = false;
    std::string how;
  };
  std::vector<Alone> alone;
  for (auto& it : p.items)
    if (it.op == "call")
    {
      alone.emplace_back();
      int kind = (int)it.i("kind");
      if (jobs::image(kind) && !images)
        continue;
      alone.back().out = jobs::pristine(
          [&] {
            Alloc::layout(0);
            Clock::reset(1500000000000000000ll, 500);
            Entropy::reset(77);
            return jobs::prepare(w, kind, (uint64_t)it.i("seed"), (int)it.i("bad"))->run();
          },
          alone.back().crashed, alone.back().how);
    }
  for (auto& it : p.items)
  {
    if (it.op == "clock")
    {
      Clock::jump((int64_t)it.d("jump"));
      Clock::jumpEvery((uint64_t)it.i("every"), (int64_t)it.d("jump"));
      ctx.fault("clock-jump");
    }
    else if (it.op == "entropy")
    {
      Entropy::reset((uint64_t)it.i("seed"));
      ctx.fault("entropy-changed");
    }
    else if (it.op == "heap")
    {
      Alloc::layout((uint64_t)it.i("seed"));
      ctx.fault("heap-layout-changed");
    }
    else if (it.op == "call")
    {
      ++n;
      int kind = (int)it.i("kind"), bad = (int)it.i("bad");
      uint64_t seed = (uint64_t)it.i("seed");
      if (jobs::image(kind) && !images)
        continue;
      long failat = (long)it.i("failat", -1);
      if (jobs::threads(kind) && failat >= 0)
        failat = -1;  // memory exhaustion inside a worker thread of the solver is Ceres' business
      const Alone& al = alone[(std::size_t)(n - 1)];
      const jobs::Out& want = al.out;
      bool crashed = al.crashed;
      const std::string& how = al.how;
      std::string what = fmt("call %d (%s%s, seed %llu)", n, jobs::name(kind), bad ? ", unusable input" : "", (unsigned long long)seed);
      if (crashed)
        ctx.fail("crash-alone", what + " ended the process: " + how);
      if (want.modified)
        ctx.fail("input-modified", what + " modified its input");
      auto j = jobs::prepare(w, kind, seed, bad);
      jobs::Out got;
      bool fired = false;
      if (failat >= 0)
      {
        Alloc::failAt(failat);
        Alloc::arm(true);
        got = j->run();
        Alloc::arm(false);
        fired = Alloc::fired();
        Alloc::failAt(-1);
      }
      else
        got = j->run();
      if (fired)
      {
        ctx.fault("allocation-failed");
        if (got.modified)
          ctx.fail("input-modified", what + " modified its input after a failed allocation");
        ctx.event(got.threw ? "error" : "result");
        if (!got.threw)
        {
          std::string d = jobs::diff(want, got, jobs::threads(kind) ? 2e-5 : 0);
          if (!d.empty())
            ctx.fail("wrong-after-failed-allocation", what + " with a failed allocation returned another result: " + d);
        }
        dg.u(kind).u(2);
        continue;
      }
      if (bad)
        ctx.fault(want.threw ? "bad-input-refused" : "bad-input-accepted");
      std::string d = jobs::diff(want, got, jobs::threads(kind) ? 2e-5 : 0);
      if (!d.empty())
        ctx.fail("depends-on-history", what + " after " + fmt("%d other calls: ", n - 1) + d);
      ++ok;
      dg.u(kind).u(bad ? 1 : 0);
      ctx.event64("call", got.num.size());
      ctx.note(std::string("calls ") + jobs::name(kind), 1);
    }
  }
  if (ok > 1)
    ctx.nontrivial();
  ctx.state(dg.h);
  ctx.simTime(0.1 * n);
}
static Registrar reg({ "C07", gen, run, "distinct histories of calls (kinds, failures)" });
