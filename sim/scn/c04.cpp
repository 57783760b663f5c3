// C04: intrinsic calibration over sessions with unusable views
#include "world.h"
#include <rct_optimizations/experimental/camera_intrinsic.h>
using namespace world;
using namespace sim;

static void gen(Rng& r, Plan& p, int tier)
{
  int n = r.chance(0.03) ? r.range(18, 40) : r.range(6, 14);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("views", n).set("planar", (int)r.chance(0.8)).set("dist", (int)r.chance(0.8)).set("seeded", (int)r.chance(0.35));
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("rel", r.chance(0.15) ? 0.0 : r.uni(0.002, 0.02));
  double k = r.uni(0, 0.8);
  genFaults(r, p, 1, n, 36, k, 20);
  // views with few features left, still enough to locate the target
  if (r.chance(0.35))
    for (int v = 0; v < n; ++v)
      if (r.chance(0.3))
        p.add("few", true).set("view", v).set("keep", r.range(5, 14)).set("key", (unsigned long)(r.u64() >> 40));
  // views whose target cannot be located
  double kb = r.chance(0.3) ? 0 : r.uni(0.05, 0.35);
  for (int v = 0; v < n; ++v)
    if (r.chance(kb))
    {
      static const char* m[] = { "empty", "one", "two", "line", "nan", "inf" };
      p.add("bad", true).set("at", r.range(0, n)).set("of", r.range(0, n - 1)).set("mode", m[r.range(0, 5)]).set("a", r.range(0, 60));
    }
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  Rng r((uint64_t)s.i("seed"), "world");
  int n = (int)s.i("views");
  Camera cam = randCamera(r);
  cam.fx = r.uni(0.8, 1.2) * cam.w;
  cam.fy = cam.fx * r.uni(0.96, 1.04);
  if (s.i("dist"))
  {
    cam.dist[0] = r.uni(-0.2, 0.2);
    cam.dist[1] = r.uni(-0.1, 0.1);
    cam.dist[2] = r.uni(-0.004, 0.004);
    cam.dist[3] = r.uni(-0.004, 0.004);
    cam.dist[4] = r.uni(-0.05, 0.05);
  }
  bool seeded = s.i("seeded");
  TargetGeom tgt;
  tgt.rows = r.range(6, 9);
  tgt.cols = r.range(6, 10);
  tgt.spacing = r.uni(0.03, 0.05);
  bool planar = s.i("planar");
  for (int i = 0; i < tgt.rows; ++i)
    for (int j = 0; j < tgt.cols; ++j)
      tgt.pts.push_back(Vector3d((j - (tgt.cols - 1) * 0.5) * tgt.spacing, (i - (tgt.rows - 1) * 0.5) * tgt.spacing, planar ? 0 : r.uni(-1, 1) * tgt.spacing));
  int nf = (int)tgt.pts.size();
  std::vector<Isometry3d> pose(n), pg(n);
  std::vector<std::vector<Vector2d>> px(n);
  Matrix3d face = Eigen::Vector3d(1, -1, -1).asDiagonal();
  const Item& g = p.need("guess");
  Rng rg((uint64_t)g.i("seed"), "guess");
  Matrix3d any = seeded ? rotVec(unit(r) * r.uni(0, M_PI)) : Matrix3d::Identity();
  (void)any;
  for (int i = 0; i < n; ++i)
  {
    // the target faces the camera, as the calibration assumes; with a caller's guess it may be rolled anyhow
    double tilt = r.uni(0.25, 0.65), dir = r.uni(-M_PI, M_PI), roll = seeded ? r.uni(-M_PI, M_PI) : r.uni(-0.4, 0.4);
    Matrix3d R = rotVec(Vector3d(std::cos(dir), std::sin(dir), 0) * tilt) * face * rotVec(Vector3d(0, 0, roll));
    double half = 0.5 * std::min(cam.w, cam.h) / cam.fx;
    double d = tgt.radius() / half * r.uni(0.85, 1.15) + 0.2 * tgt.radius();
    Vector3d t(r.uni(-0.4, 0.4) * half * d, r.uni(-0.4, 0.4) * half * d, d);
    pose[i] = makePose(R, t);
    pg[i] = pose[i] * randPose(rg, 0.05, 0.02);
    for (auto& q : tgt.pts)
      px[i].push_back(cam.project(pose[i] * q));
  }
  auto q = deliver(p, ctx, 0, n, nf, 20);
  for (auto* it : p.all("few"))
    for (auto& d : q)
    {
      if (d.view != it->i("view") || !(seeded || !planar) || (int)d.feats.size() <= it->i("keep"))
        continue;
      Rng rf((uint64_t)it->i("key"), "few");
      auto f = d.feats;
      rf.shuffle(f);
      f.resize((std::size_t)it->i("keep"));
      // spread out, not in a line
      MatrixXd X(f.size(), 2);
      for (std::size_t i = 0; i < f.size(); ++i)
        X.row((long)i) = tgt.pts[f[i]].head<2>().transpose();
      X.rowwise() -= X.colwise().mean().eval();
      Eigen::SelfAdjointEigenSolver<MatrixXd> sp(MatrixXd(X.transpose() * X / double(f.size())));
      if (std::sqrt(sp.eigenvalues()[0]) < 0.25 * tgt.radius())
        continue;
      ctx.fault("feature-occluded", d.feats.size() - f.size());
      ctx.note("views_with_few_features", 1);
      d.feats = f;
    }
  std::vector<rct::Correspondence2D3D::Set> obs, good;
  std::vector<Isometry3d> eg;
  std::vector<int> src;  // view of each usable entry
  struct E
  {
    rct::Correspondence2D3D::Set s;
    int view;
    bool bad;
  };
  std::vector<E> list;
  for (auto& d : q)
    list.push_back({ corr2(d, px[d.view], tgt), d.view, false });
  for (auto* b : p.all("bad"))
  {
    std::string m = b->str("mode");
    int v = (int)b->i("of"), a = (int)b->i("a");
    if (v >= n)
      continue;
    Delivery d{ v, {} };
    if (m == "one")
      d.feats = { a % nf };
    else if (m == "two")
      d.feats = { a % nf, (a * 7 + 3) % nf };
    else if (m == "line")
    {
      if (!planar)
        continue;
      for (int j = 0; j < tgt.cols; ++j)
        d.feats.push_back((a % tgt.rows) * tgt.cols + j);
    }
    else if (m != "empty")
      d.feats = allFeats(nf);
    E e{ corr2(d, px[v], tgt), v, true };
    if (m == "nan")
      e.s[a % nf].in_image.x() = std::nan("");
    if (m == "inf")
      e.s[a % nf].in_image.y() = INFINITY;
    list.insert(list.begin() + std::min<std::size_t>(list.size(), (std::size_t)b->i("at")), e);
    ctx.fault("unusable-view-" + m);
  }
  // premise: the usable views determine the camera
  int m = 0;
  for (auto& e : list)
    m += !e.bad;
  double cond = 0;
  if (m >= 3)
  {
    int dim = 9 + 6 * m, k = 0;
    MatrixXd N = MatrixXd::Zero(dim, dim);
    for (auto& e : list)
    {
      if (e.bad)
        continue;
      auto f = [&](const VectorXd& x) {
        Camera c = cam;
        c.fx += x[0], c.fy += x[1], c.cx += x[2], c.cy += x[3];
        for (int i = 0; i < 5; ++i)
          c.dist[i] += x[4 + i];
        Isometry3d T = retract(pose[e.view], x, 9);
        VectorXd o(2 * e.s.size());
        for (std::size_t i = 0; i < e.s.size(); ++i)
          o.segment<2>(2 * i) = c.project(T * e.s[i].in_target);
        return o;
      };
      MatrixXd J = numJac(f, VectorXd::Zero(15));
      MatrixXd A = J.transpose() * J;
      int o = 9 + 6 * k++;
      N.block(0, 0, 9, 9) += A.block(0, 0, 9, 9);
      N.block(0, o, 9, 6) = A.block(0, 9, 9, 6);
      N.block(o, 0, 6, 9) = A.block(9, 0, 6, 9);
      N.block(o, o, 6, 6) = A.block(9, 9, 6, 6);
    }
    {
      // the report of the covariance (part of the answer) needs the information matrix itself to be invertible in
      // double precision
      Eigen::SelfAdjointEigenSolver<MatrixXd> raw(N);
      if (!(raw.eigenvalues()[0] > 2e-13 * raw.eigenvalues()[dim - 1]))
        ctx.skip("covariance-not-representable");
    }
    VectorXd sc = N.diagonal().cwiseMax(1e-30).cwiseSqrt();
    MatrixXd M = sc.cwiseInverse().asDiagonal() * N * sc.cwiseInverse().asDiagonal();
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(M);
    double lo = es.eigenvalues()[0], hi = es.eigenvalues()[dim - 1];
    cond = lo > 0 ? std::sqrt(lo / hi) : 0;
  }
  bool determined = cond > 2e-3;
  // a flat target seen partially from the calibration's built-in starting pose has a second, mirrored solution within
  // reach, and so have a few points in space: the answer is not promised
  if (!seeded)
    for (auto& e : list)
      if (!e.bad && e.s.size() < (planar ? 0.7 * nf : 9))
        determined = false;
  rct::IntrinsicEstimationProblem pr;
  double rel = g.d("rel");
  pr.intrinsics_guess.fx() = cam.fx * (1 + rg.uni(-rel, rel));
  pr.intrinsics_guess.fy() = cam.fy * (1 + rg.uni(-rel, rel));
  pr.intrinsics_guess.cx() = cam.cx + cam.w * rg.uni(-rel, rel);
  pr.intrinsics_guess.cy() = cam.cy + cam.h * rg.uni(-rel, rel);
  pr.use_extrinsic_guesses = seeded;
  for (auto& e : list)
  {
    pr.image_observations.push_back(e.s);
    if (seeded)
      pr.extrinsic_guesses.push_back(pg[e.view]);
  }
  rct::IntrinsicEstimationResult res;
  try
  {
    res = rct::optimize(pr);
  }
  catch (const std::exception& e)
  {
    ctx.event("error");
    if (determined)
      ctx.fail("exception", fmt("%d usable of %zu views, cond %.2e: threw %s", m, list.size(), cond, e.what()));
    ctx.note("errors_on_undetermined", 1);
    return;
  }
  ctx.simTime(n * 0.5);
  double worst = 0;
  double v[9] = { res.intrinsics.fx(), res.intrinsics.fy(), res.intrinsics.cx(), res.intrinsics.cy(), res.distortions[0], res.distortions[1], res.distortions[2], res.distortions[3], res.distortions[4] };
  double tr[9] = { cam.fx, cam.fy, cam.cx, cam.cy, cam.dist[0], cam.dist[1], cam.dist[2], cam.dist[3], cam.dist[4] };
  for (int i = 0; i < 9; ++i)
  {
    ctx.eventD("p", v[i]);
    worst = std::max(worst, std::abs(v[i] - tr[i]) / (i < 4 ? 1000 : 1));
    if (!std::isfinite(v[i]))
      worst = INFINITY;
  }
  std::string what = fmt("%d usable of %zu views, cond %.2e, cost %.3g, converged %d, got fx %.6f/%.6f cx %.6f/%.6f k1 %.6f/%.6f, worst %.3g", m, list.size(), cond,
                         res.final_cost_per_obs, (int)res.converged, v[0], tr[0], v[2], tr[2], v[4], tr[4], worst);
  if (!determined)
  {
    ctx.note("undetermined_survived", 1);
    return;
  }
  ctx.note("determined", 1);
  ctx.check(res.converged, "not-converged", what);
  ctx.check(res.final_cost_per_obs < 1e-6, "cost", what);
  ctx.check(worst < 2e-3, "wrong-intrinsics", what);
  ctx.check(res.target_transforms.size() == (std::size_t)m, "poses-missing", fmt("%zu target poses for %d usable views; ", res.target_transforms.size(), m) + what);
  int k = 0;
  for (auto& e : list)
    if (!e.bad)
    {
      PoseErr pe = poseErr(res.target_transforms[k], pose[e.view]);
      ctx.check(rigid(res.target_transforms[k]) && pe.ang < 2e-3 && pe.trans < 2e-3, "wrong-view-pose", fmt("usable view %d off by %.3g rad %.3g m; ", k, pe.ang, pe.trans) + what);
      ++k;
    }
}
static Registrar reg({ "C04", gen, run, "distinct delivered histories (order, surviving views and features)" });
