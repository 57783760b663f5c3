// C15: noise qualification over recorded sessions of which some are unusable, in any order
#include "world.h"
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/noise_qualification.h>
using namespace world;
using namespace sim;
using Eigen::Quaterniond;

static void gen(Rng& r, Plan& p, int tier)
{
  int n = r.chance(0.15) ? r.range(0, 3) : r.chance(0.05) ? r.range(50, 300) : r.range(3, tier ? 40 : 16);
  static const char* rot[] = { "any", "flip", "identity", "wide" };
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("n", n).set("three", (int)r.chance(0.5)).set("rot", rot[r.range(0, 3)]).set("spread", r.chance(0.2) ? 0.0 : std::pow(10.0, r.uni(-4, -1.2))).set("noise", r.chance(0.5) ? 0.0 : r.uni(0.05, 0.6)).set("order", (unsigned long)(r.u64() >> 40));
  static const char* bad[] = { "empty", "nan", "inf", "one", "two", "nanguess", "garbage" };
  double k = r.chance(0.3) ? 0 : r.chance(0.2) ? 0.9 : r.uni(0.05, 0.5);
  for (int i = 0; i < n; ++i)
    if (r.chance(k))
      p.add("bad", true).set("session", i).set("mode", bad[r.range(0, 6)]).set("a", r.range(0, 30));
}
// direct statement of the statistics
struct Ref
{
  Vector3d mean = Vector3d::Zero(), var = Vector3d::Zero();
  Quaterniond q;
  double qvar = 0, gap = 0;
  int n = 0;
};
static Ref reference(const std::vector<Isometry3d>& ps)
{
  Ref r;
  r.n = (int)ps.size();
  if (!r.n)
    return r;
  Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
  for (auto& p : ps)
  {
    r.mean += p.translation() / r.n;
    Quaterniond q(p.linear());
    Eigen::Vector4d v(q.w(), q.x(), q.y(), q.z());
    M += v * v.transpose() / r.n;
  }
  for (auto& p : ps)
    r.var += (p.translation() - r.mean).cwiseAbs2();
  Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(M);
  Eigen::Vector4d v = es.eigenvectors().col(3);
  r.q = Quaterniond(v[0], v[1], v[2], v[3]);
  r.gap = es.eigenvalues()[3] - es.eigenvalues()[2];
  for (auto& p : ps)
    r.qvar += std::pow(angleBetween(p.linear(), r.q.toRotationMatrix()), 2);
  return r;
}
static bool sd(double got, double sumsq, int n, double tol)
{
  // either normalisation of a standard deviation is one
  double a = std::sqrt(sumsq / n), b = std::sqrt(sumsq / (n - 1));
  return std::isfinite(got) && got >= a - tol - 1e-6 * a && got <= b + tol + 1e-6 * b && (std::abs(got - a) < tol + 1e-6 * a || std::abs(got - b) < tol + 1e-6 * b);
}
static void compare(Ctx& ctx, const char* tag, const rct::PnPNoiseStat& s, const Ref& r, double tol, const std::string& what)
{
  std::string t = tag;
  for (int i = 0; i < 3; ++i)
  {
    ctx.check(std::abs(s.p_stat.mean[i] - r.mean[i]) < tol, t + "-position-mean", fmt("component %d: %.12g, expected %.12g; ", i, s.p_stat.mean[i], r.mean[i]) + what);
    ctx.check(sd(s.p_stat.stdev[i], r.var[i], r.n, tol), t + "-position-stdev", fmt("component %d: %.12g, expected %.12g or %.12g; ", i, s.p_stat.stdev[i], std::sqrt(r.var[i] / r.n), std::sqrt(r.var[i] / (r.n - 1))) + what);
  }
  if (r.gap < 0.05)
    return;
  double a = angleBetween(s.q_stat.mean.toRotationMatrix(), r.q.toRotationMatrix());
  ctx.check(std::abs(s.q_stat.mean.norm() - 1) < 1e-6 && a < tol + 1e-6, t + "-orientation-mean", fmt("off by %.3g rad; ", a) + what);
  ctx.check(sd(s.q_stat.stdev, r.qvar, r.n, tol + 2e-6), t + "-orientation-stdev", fmt("%.12g, expected %.12g or %.12g; ", s.q_stat.stdev, std::sqrt(r.qvar / r.n), std::sqrt(r.qvar / (r.n - 1))) + what);
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  Rng r((uint64_t)s.i("seed"), "world");
  int n = (int)s.i("n");
  bool three = s.i("three");
  double noise = s.d("noise"), spread = s.d("spread");
  std::string rot = s.str("rot");
  Camera cam = randCamera(r);
  TargetGeom tgt = randTarget(r, true, 6, 8);
  Isometry3d base = lookAt(r, cam, tgt);
  if (three || rot == "flip")
  {
    // orientations about which the quaternion of a pose changes sign
    if (rot == "identity")
      base.linear().setIdentity();
    else if (rot == "flip" && three)
      base.linear() = rotVec(unit(r) * (M_PI + r.uni(-0.02, 0.02)));
  }
  std::vector<Isometry3d> truth(n);
  std::vector<rct::PnPProblem> p2(n);
  std::vector<rct::PnPProblem3D> p3(n);
  for (int i = 0; i < n; ++i)
  {
    Rng q((uint64_t)s.i("seed") + 1000 + i, "session");
    double ang = rot == "wide" && three ? q.uni(0, 0.8) : q.uni(0, 1) * spread * 3;
    truth[i] = base * randPose(q, ang, q.uni(0, 1) * spread);
    Isometry3d g = truth[i] * randPose(q, 0.03, 0.01);
    p2[i].intr = cam.intr();
    p2[i].camera_to_target_guess = p3[i].camera_to_target_guess = g;
    for (auto& x : tgt.pts)
    {
      Vector3d c = truth[i] * x;
      Vector2d u = cam.project(c);
      if (noise > 0)
      {
        u += noise * Vector2d(q.gauss(), q.gauss());
        c += 0.002 * noise * Vector3d(q.gauss(), q.gauss(), q.gauss());
      }
      p2[i].correspondences.push_back({ u, x });
      p3[i].correspondences.push_back({ c, x });
    }
  }
  std::vector<int> isBad(n, 0);
  for (auto* b : p.all("bad"))
  {
    int i = (int)b->i("session"), a = (int)b->i("a");
    if (i >= n)
      continue;
    std::string m = b->str("mode");
    auto keep = [&](std::size_t k) {
      rct::Correspondence2D3D::Set a2;
      rct::Correspondence3D3D::Set a3;
      for (std::size_t j = 0; j < k; ++j)
      {
        a2.push_back(p2[i].correspondences[(a + 3 * j) % tgt.pts.size()]);
        a3.push_back(p3[i].correspondences[(a + 3 * j) % tgt.pts.size()]);
      }
      p2[i].correspondences = a2;
      p3[i].correspondences = a3;
    };
    std::size_t nf = p2[i].correspondences.size();
    if (m == "empty")
      keep(0);
    else if (m == "one")
      keep(1);
    else if (m == "two")
      keep(2);
    else if (nf)
    {
      if (m == "nan" || m == "inf")
      {
        double v = m == "nan" ? std::nan("") : INFINITY;
        p2[i].correspondences[a % nf].in_image.x() = v;
        p3[i].correspondences[a % nf].in_image.x() = v;
      }
      else if (m == "nanguess")
        p2[i].camera_to_target_guess.translation().x() = p3[i].camera_to_target_guess.translation().x() = std::nan("");
      else
        for (std::size_t j = 0; j < nf; ++j)
        {
          Rng q((uint64_t)a + j, "garbage");
          p2[i].correspondences[j].in_image = Vector2d(q.uni(0, cam.w), q.uni(0, cam.h));
          p3[i].correspondences[j].in_image = Vector3d(q.uni(-1, 1), q.uni(-1, 1), q.uni(0.1, 2));
        }
    }
    isBad[i] = 1;
    ctx.fault("session-" + m);
  }
  // which sessions can be solved: each one alone
  std::vector<Isometry3d> solved;
  bool exact = noise == 0;
  std::vector<Isometry3d> exactTruth;
  Digest dg;
  for (int i = 0; i < n; ++i)
  {
    bool ok = true;
    rct::PnPResult res;
    try
    {
      res = three ? rct::optimize(p3[i]) : rct::optimize(p2[i]);
      ok = res.converged;
    }
    catch (const std::exception&)
    {
      ok = false;
    }
    dg.u(ok).u(isBad[i]);
    if (ok)
    {
      if (!res.camera_to_target.matrix().allFinite())
        ctx.skip("session-solved-to-nonsense");
      solved.push_back(res.camera_to_target);
      exactTruth.push_back(truth[i]);
      exact = exact && !isBad[i];
    }
    else if (!isBad[i] && noise == 0)
      ctx.fail("exact-session-unsolved", fmt("session %d of %d", i, n));
  }
  ctx.state(dg.u((uint64_t)s.i("seed")).h);
  int m = (int)solved.size();
  auto qualify = [&](const std::vector<int>& order) {
    std::vector<rct::PnPProblem> a;
    std::vector<rct::PnPProblem3D> b;
    for (int i : order)
      a.push_back(p2[i]), b.push_back(p3[i]);
    return three ? rct::qualifyNoise3D(b) : rct::qualifyNoise2D(a);
  };
  std::vector<int> order(n);
  for (int i = 0; i < n; ++i)
    order[i] = i;
  std::string what = fmt("%s, %d of %d sessions solved, noise %.2g, spread %.2g, rot %s", three ? "3D" : "2D", m, n, noise, spread, rot.c_str());
  ctx.event(fmt("sessions %d solved %d", n, m));
  rct::PnPNoiseStat st;
  bool ok = true;
  std::string err;
  try
  {
    st = qualify(order);
  }
  catch (const std::exception& e)
  {
    ok = false;
    err = e.what();
  }
  ctx.simTime(n * 1.0);
  if (m < 2)
  {
    ctx.check(!ok, "made-up-statistics", "statistics were returned from too few solved sessions; " + what);
    ctx.note("too_few", 1);
  }
  else
  {
    ctx.check(ok, "usable-sessions-refused", err + "; " + what);
    for (int i = 0; i < 3; ++i)
      ctx.eventD("m", st.p_stat.mean[i]), ctx.eventD("s", st.p_stat.stdev[i]);
    ctx.eventD("qs", st.q_stat.stdev);
    double scale = 1 + base.translation().norm();
    compare(ctx, "recovered", st, reference(solved), 1e-7 * scale, what);
    if (exact)
    {
      compare(ctx, "true", st, reference(exactTruth), 5e-4 * scale, what);
      ctx.note("checked_against_truth", 1);
    }
    // recorded in another order
    Rng ro((uint64_t)s.i("order"), "order");
    ro.shuffle(order);
    compare(ctx, "reordered", qualify(order), reference(solved), 1e-7 * scale, what);
    ctx.fault("sessions-reordered");
    // the same orientations, encoded with the other sign
    std::vector<Quaterniond> qa, qb;
    for (auto& x : solved)
    {
      Quaterniond q(x.linear());
      qa.push_back(q);
      if (ro.chance(0.5))
        q.coeffs() *= -1;
      qb.push_back(q);
    }
    ro.shuffle(qb);
    auto a = rct::computeQuaternionStats(qa), b = rct::computeQuaternionStats(qb);
    Ref rf = reference(solved);
    if (rf.gap > 0.05)
    {
      double d1 = angleBetween(a.mean.toRotationMatrix(), rf.q.toRotationMatrix()), d2 = angleBetween(b.mean.toRotationMatrix(), rf.q.toRotationMatrix()), d3 = angleBetween(rct::computeQuaternionMean(qb).toRotationMatrix(), rf.q.toRotationMatrix());
      ctx.check(d1 < 1e-6 && d2 < 1e-6 && d3 < 1e-6, "encoding-mean", fmt("means of the same orientations encoded differently are off by %.3g %.3g %.3g rad; ", d1, d2, d3) + what);
      ctx.check(sd(a.stdev, rf.qvar, rf.n, 3e-6) && sd(b.stdev, rf.qvar, rf.n, 3e-6) && std::abs(a.stdev - b.stdev) < 3e-6, "encoding-stdev", fmt("spread %.9g and %.9g, expected %.9g; ", a.stdev, b.stdev, std::sqrt(rf.qvar / (rf.n - 1))) + what);
    }
  }
  // statistics of fewer than two orientations do not exist
  std::vector<Quaterniond> few;
  if (m == 1)
    few.push_back(Quaterniond(solved[0].linear()));
  if (m < 2)
  {
    bool threw = false;
    try
    {
      rct::computeQuaternionStats(few);
    }
    catch (const std::exception&)
    {
      threw = true;
    }
    ctx.check(threw, "made-up-orientation-statistics", what);
  }
  ctx.nontrivial();
}
static Registrar reg({ "C15", gen, run, "distinct patterns of solved and lost sessions" });
