// Deterministic simulation core: seeds, plans, run context, scenario registry and the seams.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace sim
{
// ---------------------------------------------------------------- randomness
// One seed -> named independent streams. Only plan generation and world building draw from it.
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 0, const char* stream = "")
  {
    s = seed * 0x9E3779B97F4A7C15ull + 0x1234567ull;
    for (const char* c = stream; *c; ++c)
      s = (s ^ static_cast<unsigned char>(*c)) * 0x100000001B3ull;
    u64();
    u64();
  }
  uint64_t u64()
  {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  double u01() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u01(); }
  // inclusive range
  int range(int a, int b) { return b <= a ? a : a + static_cast<int>(u64() % static_cast<uint64_t>(b - a + 1)); }
  bool chance(double p) { return u01() < p; }
  double gauss()
  {
    double u = u01(), v = u01();
    if (u < 1e-300)
      u = 1e-300;
    return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  template <class V>
  void shuffle(V& v)
  {
    for (std::size_t i = v.size(); i > 1; --i)
      std::swap(v[i - 1], v[u64() % i]);
  }
};

// ---------------------------------------------------------------- plan (= replay file)
struct Item
{
  std::string op;
  std::vector<std::pair<std::string, std::string>> kv;
  bool drop = false;  // the minimiser may remove this line
  Item() {}
  Item(const std::string& o, bool d = false) : op(o), drop(d) {}
  Item& set(const std::string& k, const std::string& v);
  Item& set(const std::string& k, const char* v) { return set(k, std::string(v)); }
  Item& set(const std::string& k, long long v) { return set(k, std::to_string(v)); }
  Item& set(const std::string& k, unsigned long long v) { return set(k, std::to_string(v)); }
  Item& set(const std::string& k, unsigned long v) { return set(k, std::to_string(v)); }
  Item& set(const std::string& k, long v) { return set(k, std::to_string(v)); }
  Item& set(const std::string& k, int v) { return set(k, std::to_string(v)); }
  Item& set(const std::string& k, unsigned v) { return set(k, std::to_string(v)); }
  Item& set(const std::string& k, double v);
  bool has(const std::string& k) const;
  const std::string& str(const std::string& k) const;  // throws if missing
  std::string str(const std::string& k, const std::string& def) const;
  long long i(const std::string& k) const;
  long long i(const std::string& k, long long def) const;
  double d(const std::string& k) const;
  double d(const std::string& k, double def) const;
};

struct Plan
{
  std::string scenario;
  uint64_t seed = 0;
  std::vector<Item> items;
  Item& add(const std::string& op, bool drop = false)
  {
    items.emplace_back(op, drop);
    return items.back();
  }
  const Item* find(const std::string& op) const;
  const Item& need(const std::string& op) const;
  std::vector<const Item*> all(const std::string& op) const;
  std::string print() const;
  static Plan parse(const std::string& text);
};

// ---------------------------------------------------------------- run context
struct Violation
{
  std::string cls, msg;
};

class Ctx
{
public:
  // history: every observable event is folded into the run digest, and kept as text for the failure report
  void event(const std::string& s);
  void eventD(const char* name, double v);
  void event64(const char* name, uint64_t v);
  // invariants
  [[noreturn]] void fail(const std::string& cls, const std::string& msg);
  void check(bool ok, const std::string& cls, const std::string& msg)
  {
    if (!ok)
      fail(cls, msg);
  }
  // a defect that is on the list of known findings is reported (once per run) without ending the run; the driver turns
  // it into a violation unless the committed list names it
  void finding(const std::string& id, const std::string& msg);
  // coverage bookkeeping
  void fault(const std::string& kind, uint64_t n = 1);
  void state(uint64_t h);   // a distinct interleaving / state reached (hash)
  void nontrivial();        // the run injected at least one fault / schedule decision that mattered
  void simTime(double s);   // advance simulated time accounting
  void steps(uint64_t n);
  void note(const std::string& k, double v);  // extra counters, summed over runs
  [[noreturn]] void skip(const std::string& why);  // premise of the property does not hold for this plan
};

struct Scenario
{
  const char* id;
  void (*gen)(Rng&, Plan&, int tier);  // tier 0 quick 1 thorough
  void (*run)(const Plan&, Ctx&);
  const char* measure;  // what state() counts
};
void registerScenario(const Scenario& s);
struct Registrar
{
  Registrar(const Scenario& s) { registerScenario(s); }
};
const Scenario* findScenario(const std::string& id);

// ---------------------------------------------------------------- digests
inline uint64_t fnv(const void* p, std::size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
  const unsigned char* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i)
    h = (h ^ c[i]) * 0x100000001b3ull;
  return h;
}
struct Digest
{
  uint64_t h = 0xcbf29ce484222325ull;
  Digest& bytes(const void* p, std::size_t n)
  {
    h = fnv(p, n, h);
    return *this;
  }
  Digest& u(uint64_t v) { return bytes(&v, 8); }
  Digest& d(double v)
  {
    if (v == 0)
      v = 0;  // -0 == 0
    if (std::isnan(v))
      return u(0x7ff8dead);
    return bytes(&v, 8);
  }
  Digest& s(const std::string& v)
  {
    u(v.size());
    return bytes(v.data(), v.size());
  }
};

// ---------------------------------------------------------------- seams (process wide, reset in every run)
// clock: clock_gettime/gettimeofday/time are interposed; virtual time only
struct Clock
{
  static void reset(int64_t start_ns, int64_t tick_ns);
  static int64_t now();
  static void jump(int64_t ns);  // may be negative
  static uint64_t reads();
  static void jumpEvery(uint64_t nreads, int64_t ns);  // inject a jump each n reads
};
// entropy: std::random_device is interposed
struct Entropy
{
  static void reset(uint64_t seed);
  static uint64_t draws();
};
// allocation: operator new is interposed
struct Alloc
{
  // fail the n-th (0 based) allocation requested from library code from now on; -1: never
  static void failAt(long n);
  static bool fired();
  static long count();        // library-code allocations since arm()
  static void arm(bool on);   // count / fail only while armed
  static void layout(uint64_t seed);  // 0: plain malloc; else seeded padding / placement / fill of heap blocks
};
bool inLibrary(const void* pc);

// output of the code under test is captured; last part is kept for reports
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
}  // namespace sim
