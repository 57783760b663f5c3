// C08: reported convergence and cost are honest, whatever the measurements look like
#include "est.h"
#include "../core/baton.h"
using namespace sim;
using namespace world;

static void gen(Rng& r, Plan& p, int tier)
{
  est::Opt o;
  o.guessAng = 0.3, o.guessTrans = 0.2, o.wild = 0.2, o.corrupt = 1, o.noiseMax = 4, o.lost = 0.03;
  int k = r.range(0, est::KINDS - 1);
  est::gen(r, p, o, k);
}
static void run(const Plan& p, Ctx& ctx)
{
  est::Prob pr = est::build(p, ctx);
  // the kinematic calibrations have worker threads: they run under the scheduler, so that a plan is one execution
  bool threads = pr.kind == est::DH2 || pr.kind == est::DH6;
  if (threads)
    Sched::start(p, ctx);
  est::Out o = pr.solve();
  if (threads)
    Sched::stop();
  ctx.simTime(1);
  ctx.event(o.threw ? "error" : "answer");
  if (o.threw)
  {
    ctx.note("errors", 1);
    return;
  }
  std::string what = pr.what + fmt(": converged %d, reported cost %.9g -> %.9g", (int)o.conv, o.c0, o.c1);
  ctx.eventD("c1", o.c1);
  if (pr.nmeas == 0)
  {
    ctx.note("no_measurements", 1);
    ctx.check(!(o.conv && std::isfinite(o.c1)), "converged-on-nothing", "an answer without any measurement is reported as a converged calibration; " + what);
    return;
  }
  if (o.shape == "views")
  {
    ctx.note("other_views_used", 1);  // a view whose pose could not be solved was left out: not this property
    return;
  }
  ctx.check(o.shape.empty(), "shape", o.shape + "; " + what);
  if (!o.x.allFinite())
  {
    ctx.check(!o.conv, "converged-not-finite", "the answer is not finite but reported as converged; " + what);
    return;
  }
  // solver gave up before it had evaluated anything
  bool evaluated = o.c0 >= 0 && o.c1 >= 0 && std::isfinite(o.c0);
  ctx.check(evaluated || !o.conv, "converged-without-cost", what);
  if (!evaluated)
    return;
  ctx.check(o.c1 <= o.c0 * (1 + 1e-9) + 1e-300, "cost-increased", what);
  const double floor = std::pow(1e-9 * pr.unit, 2);
  auto same = [&](double a, double b) { return std::abs(a - b) <= 1e-6 * std::max(std::abs(a), std::abs(b)) + floor; };
  // a point in the plane of the camera has no image: costs there are not comparable
  double dg = pr.depth(pr.guess, true), da = pr.depth(o.x, true);
  if (pr.guessKnown && dg > 1e-4)
  {
    double c = pr.cost(pr.guess);
    ctx.note("initial_costs", 1);
    ctx.check(same(c, o.c0), "initial-cost", fmt("the cost per residual of the caller's guess is %.9g; ", c) + what);
  }
  if (pr.start)
  {
    VectorXd x0 = pr.start();
    if (x0.size() && pr.depth(x0, true) > 1e-2)
    {
      double c = pr.cost(x0);
      ctx.note("first_steps", 1);
      ctx.check(std::abs(c - o.c0) <= 0.02 * c + floor, "first-step-cost", fmt("the cost per residual of the caller's camera with every view located by it is %.9g; ", c) + what);
    }
  }
  if (da < 1e-4)
    return;
  double c = pr.cost(o.x);
  ctx.note("final_costs", 1);
  ctx.check(same(c, o.c1), "final-cost", fmt("the cost per residual of the returned answer is %.9g; ", c) + what);
  if (!o.conv)
  {
    ctx.note("not_converged", 1);
    return;
  }
  if (pr.depth(o.x, false) < 0.02)
    ctx.note("answers_behind_a_camera", 1);
  if (da < 0.02)
    return;
  // no small change of the answer lowers the sum: damped Gauss-Newton steps of the reference model
  std::vector<int> f = pr.free();
  if (f.empty())
    return;
  VectorXd x = o.x;
  auto at = [&](const VectorXd& d) {
    VectorXd y = x;
    for (std::size_t i = 0; i < f.size(); ++i)
      y[f[i]] += d[i];
    return y;
  };
  double best = pr.resid(x).squaredNorm(), first = best;
  std::vector<bool> isRot(x.size(), false);
  for (auto& q : pr.rot)
    for (int i = 0; i < 3; ++i)
      isRot[q.first + i] = true;
  double moved = 0;
  for (int it = 0; it < 3; ++it)
  {
    VectorXd r0 = pr.resid(x);
    MatrixXd J = numJac([&](const VectorXd& d) { return pr.resid(at(d)); }, VectorXd::Zero(f.size()), 1e-6);
    MatrixXd N = J.transpose() * J;
    VectorXd g = J.transpose() * r0;
    VectorXd D = N.diagonal().array() + 1e-12 * N.diagonal().maxCoeff() + 1e-300;
    bool got = false;
    VectorXd keep = x;
    for (double lam : { 1e-9, 1e-6, 1e-4, 1e-2, 1.0 })
    {
      MatrixXd M = N;
      M.diagonal() += lam * D;
      VectorXd d = -M.ldlt().solve(g);
      if (!d.allFinite())
        continue;
      // small: no angle by more than 0.01, nothing else by more than 1 % of its size (or 1 cm)
      double big = 0;
      for (std::size_t i = 0; i < f.size(); ++i)
        big = std::max(big, std::abs(d[i]) / (isRot[f[i]] ? 0.01 : 0.01 * std::max(1.0, std::abs(x[f[i]]))));
      if (big > 1)
        d /= big;
      VectorXd y = at(d);
      double c2 = pr.resid(y).squaredNorm();
      if (c2 < best)
      {
        best = c2;
        keep = y;
        got = true;
        moved = std::max(moved, d.norm());
      }
    }
    x = keep;
    if (!got)
      break;
  }
  double gain = first > 0 ? 1 - best / first : 0;
  ctx.note("optimality_checks", 1);
  if (getenv("C08_SHOW") || gain > 1e-3)
    ctx.note("gain_over_1e-3", 1);
  double absFloor = pr.resid(o.x).size() * std::pow(1e-6 * pr.unit, 2);
  if (first - best > absFloor)
    ctx.check(gain < 0.02, "not-a-minimum", fmt("reported as converged, but moving the answer by %.3g lowers the sum of squares from %.9g to %.9g (%.2g); ", moved, first, best, gain) + what);
}
static Registrar reg({ "C08", gen, run, "distinct delivered histories (order, surviving views and features)" });
