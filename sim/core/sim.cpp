#include "sim.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cerrno>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <sys/syscall.h>

namespace sim
{
void heapBeginRun();  // heap.cpp
std::string fmt(const char* f, ...)
{
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// ---------------------------------------------------------------- plan
Item& Item::set(const std::string& k, const std::string& v)
{
  for (auto& p : kv)
    if (p.first == k)
    {
      p.second = v;
      return *this;
    }
  kv.emplace_back(k, v);
  return *this;
}
Item& Item::set(const std::string& k, double v)
{
  char b[64];
  snprintf(b, sizeof b, "%.17g", v);
  return set(k, std::string(b));
}
bool Item::has(const std::string& k) const
{
  for (auto& p : kv)
    if (p.first == k)
      return true;
  return false;
}
const std::string& Item::str(const std::string& k) const
{
  for (auto& p : kv)
    if (p.first == k)
      return p.second;
  throw std::logic_error("plan: '" + op + "' lacks " + k);
}
std::string Item::str(const std::string& k, const std::string& def) const { return has(k) ? str(k) : def; }
long long Item::i(const std::string& k) const { return strtoll(str(k).c_str(), nullptr, 10); }
long long Item::i(const std::string& k, long long def) const { return has(k) ? i(k) : def; }
double Item::d(const std::string& k) const { return strtod(str(k).c_str(), nullptr); }
double Item::d(const std::string& k, double def) const { return has(k) ? d(k) : def; }

const Item* Plan::find(const std::string& op) const
{
  for (auto& i : items)
    if (i.op == op)
      return &i;
  return nullptr;
}
const Item& Plan::need(const std::string& op) const
{
  const Item* i = find(op);
  if (!i)
    throw std::logic_error("plan lacks " + op);
  return *i;
}
std::vector<const Item*> Plan::all(const std::string& op) const
{
  std::vector<const Item*> r;
  for (auto& i : items)
    if (i.op == op)
      r.push_back(&i);
  return r;
}
std::string Plan::print() const
{
  std::ostringstream o;
  o << "scenario " << scenario << "\nseed " << seed << "\n";
  for (auto& i : items)
  {
    o << (i.drop ? "? " : ". ") << i.op;
    for (auto& p : i.kv)
      o << ' ' << p.first << '=' << p.second;
    o << '\n';
  }
  return o.str();
}
Plan Plan::parse(const std::string& text)
{
  Plan p;
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line))
  {
    if (line.empty() || line[0] == '#')
      continue;
    std::istringstream l(line);
    std::string w;
    l >> w;
    if (w == "scenario")
      l >> p.scenario;
    else if (w == "seed")
      l >> p.seed;
    else if (w == "." || w == "?")
    {
      Item it;
      it.drop = w == "?";
      l >> it.op;
      while (l >> w)
      {
        auto e = w.find('=');
        if (e == std::string::npos)
          throw std::runtime_error("bad plan line: " + line);
        it.kv.emplace_back(w.substr(0, e), w.substr(e + 1));
      }
      p.items.push_back(it);
    }
    else
      throw std::runtime_error("bad plan line: " + line);
  }
  return p;
}

// ---------------------------------------------------------------- shared result area (child -> parent)
struct Shared
{
  int status;  // 0 running, 1 ok, 2 violation, 3 skip, 4 internal error
  int nontrivial;
  uint64_t hash;
  uint64_t events;
  uint64_t steps;
  double sim_time;
  int nstates;
  uint64_t states[512];
  int nfaults;
  struct
  {
    char name[40];
    uint64_t n;
  } faults[48];
  int nnotes;
  struct
  {
    char name[40];
    double v;
  } notes[32];
  int nfind;
  struct
  {
    char id[80];
    char msg[400];
  } finds[8];
  char cls[160];
  char msg[4000];
  int tail_len;
  char tail[24000];
};
static Shared* g_sh = nullptr;

static void addTail(const std::string& s)
{
  // keep the newest part of the history
  int n = static_cast<int>(s.size()) + 1;
  if (n >= static_cast<int>(sizeof g_sh->tail))
    return;
  if (g_sh->tail_len + n >= static_cast<int>(sizeof g_sh->tail))
  {
    int keep = static_cast<int>(sizeof g_sh->tail) / 2;
    memmove(g_sh->tail, g_sh->tail + g_sh->tail_len - keep, keep);
    g_sh->tail_len = keep;
    if (g_sh->tail_len + n >= static_cast<int>(sizeof g_sh->tail))
      return;
  }
  memcpy(g_sh->tail + g_sh->tail_len, s.data(), s.size());
  g_sh->tail[g_sh->tail_len + s.size()] = '\n';
  g_sh->tail_len += n;
}
void Ctx::event(const std::string& s)
{
  g_sh->hash = fnv(s.data(), s.size(), g_sh->hash * 1099511628211ull + 7);
  g_sh->events++;
  addTail(s);
}
void Ctx::eventD(const char* name, double v)
{
  Digest d;
  d.d(v);
  g_sh->hash = fnv(&d.h, 8, g_sh->hash * 1099511628211ull + 7);
  g_sh->events++;
  addTail(fmt("%s=%.17g", name, v));
}
void Ctx::event64(const char* name, uint64_t v)
{
  g_sh->hash = fnv(&v, 8, g_sh->hash * 1099511628211ull + 7);
  g_sh->events++;
  addTail(fmt("%s=%016llx", name, (unsigned long long)v));
}
void Ctx::fault(const std::string& kind, uint64_t n)
{
  if (!n)
    return;
  g_sh->nontrivial = 1;
  for (int i = 0; i < g_sh->nfaults; ++i)
    if (kind == g_sh->faults[i].name)
    {
      g_sh->faults[i].n += n;
      return;
    }
  if (g_sh->nfaults < 48)
  {
    snprintf(g_sh->faults[g_sh->nfaults].name, 40, "%s", kind.c_str());
    g_sh->faults[g_sh->nfaults++].n = n;
  }
}
void Ctx::note(const std::string& k, double v)
{
  for (int i = 0; i < g_sh->nnotes; ++i)
    if (k == g_sh->notes[i].name)
    {
      g_sh->notes[i].v += v;
      return;
    }
  if (g_sh->nnotes < 32)
  {
    snprintf(g_sh->notes[g_sh->nnotes].name, 40, "%s", k.c_str());
    g_sh->notes[g_sh->nnotes++].v = v;
  }
}
void Ctx::finding(const std::string& id, const std::string& msg)
{
  event("finding " + id);
  for (int i = 0; i < g_sh->nfind; ++i)
    if (id == g_sh->finds[i].id)
      return;
  if (g_sh->nfind < 8)
  {
    snprintf(g_sh->finds[g_sh->nfind].id, 80, "%s", id.c_str());
    snprintf(g_sh->finds[g_sh->nfind++].msg, 400, "%s", msg.c_str());
  }
}
void Ctx::state(uint64_t h)
{
  if (g_sh->nstates < 512)
    g_sh->states[g_sh->nstates++] = h;
}
void Ctx::nontrivial() { g_sh->nontrivial = 1; }
void Ctx::simTime(double s) { g_sh->sim_time += s; }
void Ctx::steps(uint64_t n) { g_sh->steps += n; }

[[noreturn]] static void leave(int status, const std::string& cls, const std::string& msg)
{
  snprintf(g_sh->cls, sizeof g_sh->cls, "%s", cls.c_str());
  snprintf(g_sh->msg, sizeof g_sh->msg, "%s", msg.c_str());
  std::string e = cls + "|" + msg;
  g_sh->hash = fnv(e.data(), e.size(), g_sh->hash);
  g_sh->status = status;
  fflush(stdout);
  fflush(stderr);
  _exit(0);
}
void Ctx::fail(const std::string& cls, const std::string& msg) { leave(2, cls, msg); }
void Ctx::skip(const std::string& why) { leave(3, "skip:" + why, why); }

// ---------------------------------------------------------------- scenarios
static std::map<std::string, Scenario>& reg()
{
  static std::map<std::string, Scenario> r;
  return r;
}
void registerScenario(const Scenario& s) { reg()[s.id] = s; }
const Scenario* findScenario(const std::string& id)
{
  auto it = reg().find(id);
  return it == reg().end() ? nullptr : &it->second;
}

// ---------------------------------------------------------------- one run in a child process
struct Result
{
  int status = 0;
  Shared sh;
  std::string log;  // captured output (tail)
};

static double wall()
{
  struct timespec t;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
  return t.tv_sec + 1e-9 * t.tv_nsec;
}

static int g_cpu_limit = 120;
static int g_logfd = -1;

static std::set<std::string> g_known;
static void runPlan(const Plan& plan, Result& res)
{
  memset(g_sh, 0, offsetof(Shared, tail));
  g_sh->hash = 0xcbf29ce484222325ull;
  if (ftruncate(g_logfd, 0) != 0) {}
  lseek(g_logfd, 0, SEEK_SET);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0)
  {
    dup2(g_logfd, 1);
    dup2(g_logfd, 2);
    struct rlimit rl = { static_cast<rlim_t>(g_cpu_limit), static_cast<rlim_t>(g_cpu_limit + 5) };
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit nocore = { 0, 0 };
    setrlimit(RLIMIT_CORE, &nocore);
    heapBeginRun();
    Clock::reset(1600000000000000000ll, 1000);
    Entropy::reset(plan.seed);
    Alloc::failAt(-1);
    Alloc::arm(false);
    const Scenario* s = findScenario(plan.scenario);
    Ctx ctx;
    try
    {
      if (!s)
        throw std::logic_error("unknown scenario " + plan.scenario);
      s->run(plan, ctx);
    }
    catch (const std::exception& e)
    {
      // a call that every run of the scenario makes with valid arguments was refused; only a plan that names no scenario
      // is the simulator's own mistake
      std::string what = e.what();
      if (!s)
        leave(4, "internal", what);
      leave(2, "unexpected-exception", "a call with valid arguments threw: " + what);
    }
    catch (...)
    {
      leave(2, "unexpected-exception", "a call with valid arguments threw something that is no std::exception");
    }
    leave(1, "", "");
  }
  int st = 0;
  // a run that stops making progress is ended by CPU limit; a blocked one by this wall-clock watchdog
  double t0 = wall();
  for (;;)
  {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid)
      break;
    double el = wall() - t0;
    if (el > 4 * g_cpu_limit)
    {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      g_sh->status = 2;
      snprintf(g_sh->cls, sizeof g_sh->cls, "hang");
      snprintf(g_sh->msg, sizeof g_sh->msg, "the run blocked outside the simulator");
      break;
    }
    struct timespec ts = { 0, el < 0.05 ? 200000 : 2000000 };
    syscall(SYS_nanosleep, &ts, nullptr);
  }
  res.sh = *g_sh;
  res.status = g_sh->status;
  // tail of captured output
  off_t len = lseek(g_logfd, 0, SEEK_END);
  off_t want = std::min<off_t>(len, 3000);
  res.log.resize(want);
  if (want > 0 && pread(g_logfd, &res.log[0], want, len - want) != want)
    res.log.clear();
  if (res.status == 1 || res.status == 3)
    for (int i = 0; i < res.sh.nfind; ++i)
      if (!g_known.count(res.sh.finds[i].id))
      {
        res.status = res.sh.status = 2;
        snprintf(res.sh.cls, sizeof res.sh.cls, "%s", res.sh.finds[i].id);
        snprintf(res.sh.msg, sizeof res.sh.msg, "%s", res.sh.finds[i].msg);
        break;
      }
  if (res.status == 0)
  {
    // died without a verdict: the code under test crashed the process
    res.status = 2;
    std::string why;
    int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    if (sig == SIGXCPU || (sig == SIGKILL && wall() - t0 > g_cpu_limit / 2))
      why = "no-progress";
    else if (sig)
      why = fmt("crash:%s", sigabbrev_np(sig) ? sigabbrev_np(sig) : "?");
    else
      why = fmt("exit:%d", WEXITSTATUS(st));
    snprintf(res.sh.cls, sizeof res.sh.cls, "%s", why.c_str());
    std::string m = "the process ended (" + why + ") inside a call; output tail: " +
                    res.log.substr(res.log.size() > 700 ? res.log.size() - 700 : 0);
    snprintf(res.sh.msg, sizeof res.sh.msg, "%s", m.c_str());
    res.sh.hash = fnv(why.data(), why.size(), res.sh.hash);
    res.sh.status = 2;
  }
}

static Plan genPlan(const std::string& scn, uint64_t base, uint64_t idx, int tier)
{
  const Scenario* s = findScenario(scn);
  if (!s)
  {
    fprintf(stderr, "unknown scenario %s\n", scn.c_str());
    _exit(3);
  }
  Plan p;
  p.scenario = scn;
  Rng mix(base * 1000003ull + idx, "seed");
  p.seed = mix.u64() >> 16;
  Rng r(p.seed, scn.c_str());
  s->gen(r, p, tier);
  return p;
}

static std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if (c == '\n')
      o += "\\n";
    else if (c < 32 || c > 126)
      o += fmt("\\u%04x", c);
    else
      o += c;
  }
  return o + "\"";
}

static std::string slurp(const std::string& f)
{
  std::ifstream i(f);
  std::ostringstream o;
  o << i.rdbuf();
  return o.str();
}

static uint64_t planDigest(const Plan& p)
{
  std::string t;
  for (auto& i : p.items)
  {
    t += i.op;
    for (auto& k : i.kv)
      t += k.first + k.second;
  }
  return fnv(t.data(), t.size());
}

// minimise: remove droppable lines while the violation class stays the same (ddmin, bounded)
static Plan minimise(Plan p, const std::string& cls, const std::string& want, double budget, int& tries)
{
  double t0 = wall();
  tries = 0;
  Result r;
  for (std::size_t chunk = std::max<std::size_t>(1, p.items.size() / 2); chunk >= 1;)
  {
    bool any = false;
    std::size_t i = 0;
    while (i < p.items.size() && wall() - t0 < budget)
    {
      Plan q = p;
      q.items.clear();
      bool removed = false;
      for (std::size_t k = 0; k < p.items.size(); ++k)
      {
        if (k >= i && k < i + chunk && p.items[k].drop)
        {
          removed = true;
          continue;
        }
        q.items.push_back(p.items[k]);
      }
      if (!removed)
      {
        i += chunk;
        continue;
      }
      ++tries;
      runPlan(q, r);
      // (an exception with another text may come from a plan that lost what the scenario needs)
      if (r.status == 2 && cls == r.sh.cls && (cls != "unexpected-exception" || want == r.sh.msg))
      {
        p = q;
        any = true;
      }
      else
        i += chunk;
    }
    if (wall() - t0 >= budget)
      break;
    if (chunk == 1)
    {
      if (!any)
        break;
    }
    else
      chunk /= 2;
  }
  return p;
}
}  // namespace sim

using namespace sim;

static const char* opt(int argc, char** argv, const char* name, const char* def)
{
  for (int i = 2; i + 1 < argc; ++i)
    if (!strcmp(argv[i], name))
      return argv[i + 1];
  return def;
}

int main(int argc, char** argv)
{
  // fixed address layout and single-threaded numeric back ends, so that one seed is one execution
  if (!getenv("SIM_EXEC"))
  {
    setenv("SIM_EXEC", "1", 1);
    setenv("OMP_NUM_THREADS", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    setenv("OPENCV_OPENCL_RUNTIME", "disabled", 1);
    setenv("OPENCV_IPP", "disabled", 1);
    setenv("GLOG_logtostderr", "1", 1);
    setenv("LC_ALL", "C", 1);
    personality(ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  if (argc < 2)
    return 3;
  std::string mode = argv[1];
  g_sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  g_logfd = memfd_create("log", 0);
  g_cpu_limit = atoi(opt(argc, argv, "--cpu", "120"));
  int tier = atoi(opt(argc, argv, "--tier", "0"));
  std::string scn = opt(argc, argv, "--scn", "");

  {
    std::istringstream k(opt(argc, argv, "--known", ""));
    std::string w;
    while (std::getline(k, w, ','))
      g_known.insert(w);
  }
  if (mode == "gen")
  {
    Plan p = genPlan(scn, strtoull(opt(argc, argv, "--seed", "1"), 0, 10), strtoull(opt(argc, argv, "--idx", "0"), 0, 10), tier);
    fputs(p.print().c_str(), stdout);
    return 0;
  }
  if (mode == "replay")
  {
    // replay FILE: executes the plan once; exit 1 if it violates, 0 if not
    std::string text = slurp(argv[2]);
    Plan p = Plan::parse(text);
    Result r;
    runPlan(p, r);
    printf("{\"status\":%d,\"hash\":\"%016llx\",\"class\":%s,\"message\":%s,\"history\":%s,\"log\":%s}\n", r.status,
           (unsigned long long)r.sh.hash, jstr(r.sh.cls).c_str(), jstr(r.sh.msg).c_str(),
           jstr(std::string(r.sh.tail, r.sh.tail_len)).c_str(), jstr(r.log).c_str());
    return r.status == 2 ? 1 : r.status == 4 ? 3 : 0;
  }
  if (mode == "min")
  {
    // min IN OUT: minimise and write replay file
    Plan p = Plan::parse(slurp(argv[2]));
    Result r;
    runPlan(p, r);
    if (r.status != 2)
      return 3;
    std::string cls = r.sh.cls;
    int tries = 0;
    Plan q = minimise(p, cls, std::string(r.sh.msg), atof(opt(argc, argv, "--budget", "60")), tries);
    runPlan(q, r);
    std::ofstream o(argv[3]);
    o << "# class " << cls << "\n# hash " << fmt("%016llx", (unsigned long long)r.sh.hash) << "\n";
    std::string m = r.sh.msg;
    for (auto& c : m)
      if (c == '\n')
        c = ' ';
    o << "# message " << m << "\n";
    o << "# minimised from " << p.items.size() << " to " << q.items.size() << " lines in " << tries << " runs\n";
    o << q.print();
    o << "# ---- history of the minimised run ----\n";
    std::istringstream h(std::string(r.sh.tail, r.sh.tail_len));
    std::string l;
    while (std::getline(h, l))
      o << "# " << l << "\n";
    return 0;
  }
  if (mode == "batch")
  {
    // batch --scn X --seed S --from I --stride K --secs T --max N : runs seeds until the budget is used
    uint64_t seed = strtoull(opt(argc, argv, "--seed", "1"), 0, 10);
    uint64_t from = strtoull(opt(argc, argv, "--from", "0"), 0, 10);
    uint64_t stride = strtoull(opt(argc, argv, "--stride", "1"), 0, 10);
    uint64_t maxn = strtoull(opt(argc, argv, "--max", "1000000000"), 0, 10);
    double secs = atof(opt(argc, argv, "--secs", "10"));
    std::string viol_dir = opt(argc, argv, "--viol", "");
    int maxv = atoi(opt(argc, argv, "--maxviol", "3"));
    double t0 = wall();
    uint64_t runs = 0, ok = 0, skipped = 0, nontriv = 0, events = 0, steps = 0, viol = 0;
    double simt = 0;
    std::map<std::string, uint64_t> faults, skips, finds;
    std::map<std::string, double> notes;
    std::set<uint64_t> states, plans;
    std::vector<std::string> samples, violations;
    std::map<std::string, int> vclasses;
    for (uint64_t i = from; runs < maxn && wall() - t0 < secs; i += stride)
    {
      Plan p = genPlan(scn, seed, i, tier);
      Result r;
      runPlan(p, r);
      ++runs;
      for (int k = 0; k < r.sh.nfaults; ++k)
        faults[r.sh.faults[k].name] += r.sh.faults[k].n;
      for (int k = 0; k < r.sh.nnotes; ++k)
        notes[r.sh.notes[k].name] += r.sh.notes[k].v;
      for (int k = 0; k < r.sh.nstates; ++k)
        states.insert(r.sh.states[k]);
      for (int k = 0; k < r.sh.nfind; ++k)
        finds[r.sh.finds[k].id]++;
      events += r.sh.events;
      steps += r.sh.steps;
      simt += r.sh.sim_time;
      if (r.status == 1)
      {
        ++ok;
        if (r.sh.nontrivial)
        {
          ++nontriv;
          plans.insert(planDigest(p));
          if (samples.size() < 2)
          {
            std::string t = p.print();
            if (t.size() > 1500)
              t = t.substr(0, 1500) + "...";
            samples.push_back(t);
          }
        }
      }
      else if (r.status == 3)
      {
        ++skipped;
        skips[r.sh.cls]++;
      }
      else if (r.status == 4)
      {
        printf("{\"internal\":%s,\"plan\":%s}\n", jstr(r.sh.msg).c_str(), jstr(p.print()).c_str());
        return 3;
      }
      else
      {
        ++viol;
        int& n = vclasses[r.sh.cls];
        if (n++ < 2)
        {
          std::string f = viol_dir + fmt("/v_%s_%llu.plan", scn.c_str(), (unsigned long long)i);
          std::ofstream o(f);
          o << p.print();
          violations.push_back(fmt("{\"idx\":%llu,\"seed\":%llu,\"class\":%s,\"hash\":\"%016llx\",\"file\":%s,\"message\":%s}",
                                   (unsigned long long)i, (unsigned long long)p.seed, jstr(r.sh.cls).c_str(),
                                   (unsigned long long)r.sh.hash, jstr(f).c_str(),
                                   jstr(std::string(r.sh.msg).substr(0, 600)).c_str()));
        }
        if (static_cast<int>(violations.size()) >= maxv)
          break;
      }
    }
    std::ostringstream o;
    auto m = [&](auto& mp) {
      std::string s = "{";
      for (auto& kv : mp)
        s += (s.size() > 1 ? "," : "") + jstr(kv.first) + ":" + fmt("%.17g", (double)kv.second);
      return s + "}";
    };
    auto l = [&](auto& v, bool q) {
      std::string s = "[";
      for (auto& x : v)
        s += (s.size() > 1 ? "," : "") + (q ? jstr(x) : x);
      return s + "]";
    };
    auto hs = [&](auto& v) {
      std::string s = "[";
      for (auto& x : v)
        s += (s.size() > 1 ? "," : "") + fmt("\"%llx\"", (unsigned long long)x);
      return s + "]";
    };
    const Scenario* s = findScenario(scn);
    o << "{\"runs\":" << runs << ",\"ok\":" << ok << ",\"skipped\":" << skipped << ",\"nontrivial\":" << nontriv
      << ",\"events\":" << events << ",\"steps\":" << steps << ",\"sim_time\":" << fmt("%.9g", simt) << ",\"viol\":" << viol
      << ",\"wall\":" << fmt("%.3f", wall() - t0) << ",\"measure\":" << jstr(s->measure) << ",\"faults\":" << m(faults)
      << ",\"skips\":" << m(skips) << ",\"findings\":" << m(finds) << ",\"notes\":" << m(notes) << ",\"violations\":" << l(violations, false)
      << ",\"samples\":" << l(samples, true) << ",\"states\":" << hs(states) << ",\"plans\":" << hs(plans) << "}\n";
    fputs(o.str().c_str(), stdout);
    return 0;
  }
  return 3;
}
