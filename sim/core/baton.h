// Deterministic scheduler: real threads, one of which runs at a time; every switch is decided by the plan.
#pragma once
#include "sim.h"
namespace sim
{
// Plan lines understood:
//   . threads ...            (owned by the scenario)
//   ? pre at=N to=K          preempt at the N-th scheduling point (synchronisation or instrumented memory access)
//   ? hot at=N to=K          preempt at the N-th access to memory another thread has touched, or to a global
//   ? policy seed=S p=P      at synchronisation points switch with probability P; choose who runs next at random
//   ? spurious at=N          the N-th condition wait wakes up without a signal
struct Sched
{
  static void start(const Plan& p, Ctx& ctx);
  static void stop();
  static uint64_t points();
  static uint64_t switches();
  static void gen(Rng& r, Plan& p, double maxPoint, int npre, int nhot);  // adds schedule lines to a plan
};
}  // namespace sim
