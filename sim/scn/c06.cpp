// C06: concurrent callers: every interleaving of several threads gives each call what it gives alone
#include "jobs.h"
#include "../core/baton.h"
#include <opencv2/core/utility.hpp>
#include <thread>
using namespace sim;

static void gen(Rng& r, Plan& p, int tier)
{
  bool images = r.chance(0.12);
  int nt = r.range(2, 4);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("images", (int)images).set("threads", nt);
  // a few kinds per run, so that the same code meets itself
  int nk = r.range(1, 3);
  std::vector<int> kinds;
  bool workers = r.chance(0.08);
  while ((int)kinds.size() < nk)
  {
    int k = r.range(0, jobs::kinds() - 1);
    if (jobs::image(k) != (images && r.chance(0.7)) || jobs::threads(k))
      continue;
    kinds.push_back(k);
  }
  int n = r.range(nt, tier ? 8 : 6);
  unsigned long sd = r.u64() >> 24;
  for (int i = 0; i < n; ++i)
  {
    int k = kinds[r.range(0, nk - 1)];
    if (i == 0 && workers)
      k = 20;
    p.add("call", i >= 2).set("t", i % nt).set("kind", k).set("seed", r.chance(0.3) ? sd : (unsigned long)(r.u64() >> 24)).set("bad", r.chance(0.12) ? r.range(1, 3) : 0);
  }
  if (r.chance(0.5))
    p.add("heap", true).set("seed", (unsigned long)(r.u64() >> 40) + 1);
  Sched::gen(r, p, r.chance(0.5) ? 2e4 : 1e6, r.range(0, 12), r.range(0, 6));
}
static void run(const Plan& p, Ctx& ctx)
{
  cv::setNumThreads(1);
  const Item& s = p.need("setup");
  auto w = jobs::makeWorld((uint64_t)s.i("seed"), s.i("images"));
  int nt = (int)s.i("threads");
  auto calls = p.all("call");
  int n = (int)calls.size();
  std::vector<jobs::Out> want(n), got(n);
  std::vector<std::unique_ptr<jobs::Job>> job(n);
  auto what = [&](int i) { return fmt("call %d (%s%s) of thread %d", i, jobs::name((int)calls[i]->i("kind")), calls[i]->i("bad") ? ", unusable input" : "", (int)calls[i]->i("t")); };
  if (const Item* h = p.find("heap"))
    ctx.fault("heap-layout-changed");
  for (int i = 0; i < n; ++i)
  {
    int kind = (int)calls[i]->i("kind"), bad = (int)calls[i]->i("bad");
    uint64_t seed = (uint64_t)calls[i]->i("seed");
    bool crashed;
    std::string how;
    want[i] = jobs::pristine([&] { return jobs::prepare(w, kind, seed, bad)->run(); }, crashed, how);
    if (crashed)
      ctx.fail("crash-alone", what(i) + " ended the process when run alone: " + how);
    if (const Item* h = p.find("heap"))  // the call alone has met an ordinary heap
      Alloc::layout((uint64_t)h->i("seed") + i);
    job[i] = jobs::prepare(w, kind, seed, bad);
    Alloc::layout(0);
    ctx.note(std::string("calls ") + jobs::name(kind), 1);
    if (bad)
      ctx.fault("unusable-input");
  }
  if (const Item* h = p.find("heap"))
    Alloc::layout((uint64_t)h->i("seed") + 77);
  Sched::start(p, ctx);
  std::vector<std::thread> th;
  for (int t = 0; t < nt; ++t)
    th.emplace_back([&, t] {
      for (int i = 0; i < n; ++i)
        if ((int)calls[i]->i("t") == t)
          got[i] = job[i]->run();
    });
  for (auto& x : th)
    x.join();
  Sched::stop();
  for (int i = 0; i < n; ++i)
  {
    int kind = (int)calls[i]->i("kind");
    std::string d = jobs::diff(want[i], got[i], jobs::threads(kind) ? 2e-5 : 0);
    if (!d.empty())
      ctx.fail("disturbed", what(i) + " differs from the same call alone: " + d);
    ctx.event64("call", got[i].num.size());
  }
  ctx.simTime(0.1 * n);
}
static Registrar reg({ "C06", gen, run, "distinct interleavings (order of thread switches)" });
