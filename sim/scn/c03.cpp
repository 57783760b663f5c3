// C03: single-shot estimators under occlusion: PnP (2D, 3D, multi-camera), circle fit
#include "world.h"
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
using namespace world;
using namespace sim;

// kinds: 0 one camera, 1 3D points, 2 several cameras, 3 circle
static void gen(Rng& r, Plan& p, int tier)
{
  int kind = r.range(0, 3);
  int nc = kind == 2 ? (r.chance(0.25) ? 1 : r.range(2, 5)) : 1;
  bool big = r.chance(0.07);  // many features
  int nf = kind == 3 ? (big ? r.range(60, 500) : r.range(5, 60)) : 16;
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("kind", kind).set("cams", nc).set("planar", (int)r.chance(0.7)).set("nf", nf)
      .set("pose", r.range(0, 7)).set("big", (int)big).set("scale", r.chance(0.3) ? std::pow(10, r.uni(-1.5, 1)) : 1.0).set("agree", (int)r.chance(0.5));
  // the guess: exact now and then, often with no rotation error at all
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("ang", r.chance(0.25) ? 0.0 : r.uni(0.005, 0.15)).set("trans", r.chance(0.15) ? 0.0 : r.uni(0.002, 0.08));
  genFaults(r, p, nc, 1, nf, r.chance(0.1) ? 0.0 : r.uni(0.5, 2.5), 3);
  if (kind == 2)
    for (int c = 0; c < nc; ++c)
      if (r.chance(0.2))
        p.add("blackout", true).set("cam", c);
}
static std::vector<Delivery> view(const Plan& p, Ctx& ctx, int cam, int nf, int keepMin)
{
  auto q = deliver(p, ctx, cam, 1, nf, keepMin);
  return q;
}

static void circle(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  Rng r((uint64_t)s.i("seed"), "circle");
  int nf = (int)s.i("nf");
  double scale = std::pow(10.0, r.uni(-1, 2.3));
  double rad = scale * r.uni(0.3, 3), cx = scale * r.uni(-4, 4), cy = scale * r.uni(-4, 4);
  double arc = r.uni(0.9, 2 * M_PI), a0 = r.uni(-M_PI, M_PI);
  std::vector<Vector2d> pts;
  for (int i = 0; i < nf; ++i)
  {
    double a = a0 + arc * r.u01();
    pts.push_back(Vector2d(cx + rad * std::cos(a), cy + rad * std::sin(a)));
  }
  auto q = view(p, ctx, 0, nf, 3);
  if (q.empty())
    ctx.skip("lost");
  MatrixXd J(q[0].feats.size() * q.size(), 3);
  int k = 0;
  rct::CircleFitProblem pr;
  for (auto& d : q)
  {
    for (int f : d.feats)
    {
      pr.observations.push_back(pts[f]);
      if (k < J.rows())
        J.row(k++) << (pts[f].x() - cx) / rad, (pts[f].y() - cy) / rad, 1;
    }
  }
  double cond = k < 3 ? 0 : conditioning(J.topRows(k));
  if (cond < 2e-2)
    ctx.skip("undetermined");
  const Item& g = p.need("guess");
  Rng rg((uint64_t)g.i("seed"), "guess");
  double e = g.d("ang");
  pr.x_center_initial = cx + rad * rg.uni(-2, 2) * e;
  pr.y_center_initial = cy + rad * rg.uni(-2, 2) * e;
  pr.radius_initial = rad * (1 + rg.uni(-2, 2) * e);
  rct::CircleFitResult res;
  try
  {
    res = rct::optimize(pr);
  }
  catch (const std::exception& x)
  {
    ctx.fail("exception", std::string("fitting a determined circle threw: ") + x.what());
  }
  double err = std::max({ std::abs(res.x_center - cx), std::abs(res.y_center - cy), std::abs(res.radius - rad) }) / rad;
  ctx.eventD("x", res.x_center);
  ctx.eventD("y", res.y_center);
  ctx.eventD("r", res.radius);
  std::string what = fmt("circle %.6g %.6g r %.6g, %d points on %.2f rad: got %.9g %.9g r %.9g, cost %.3g, converged %d", cx, cy, rad, k, arc, res.x_center, res.y_center,
                         res.radius, res.final_cost_per_obs, (int)res.converged);
  ctx.note("circle_runs", 1);
  ctx.simTime(0.03);
  // the two forms of the residual (three parameters in one block, or in three) are the same function
  for (int i = 0; i < 4 && i < (int)pts.size(); ++i)
  {
    rct::CircleDistCost c(pts[i].x(), pts[i].y());
    double x[3] = { cx + rad * rg.uni(-2, 2), cy + rad * rg.uni(-2, 2), std::sqrt(rad * rg.uni(0.2, 3)) }, one = 0, three = 0;
    double want = x[2] * x[2] * x[2] * x[2] - (Vector2d(x[0], x[1]) - pts[i]).squaredNorm();
    bool ok = c(x, &one) && c(x, x + 1, x + 2, &three);
    double tol = 1e-9 * (rad * rad * 10 + want);
    ctx.check(ok && std::abs(one - want) < std::abs(tol) && std::abs(three - want) < std::abs(tol), "circle-residual",
              fmt("the residual of a point is %.9g, with the parameters in one block %.9g, in three %.9g", want, one, three));
  }
  ctx.check(res.converged, "circle-not-converged", what);
  ctx.check(err < 1e-4, "circle-wrong", what);
  ctx.check(res.final_cost_per_obs < 1e-8 * std::pow(rad, 4), "circle-cost", what);
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  int kind = (int)s.i("kind"), nc = (int)s.i("cams");
  if (kind == 3)
    return circle(p, ctx);
  Rng r((uint64_t)s.i("seed"), "world");
  TargetGeom tgt = s.i("big") ? randTarget(r, s.i("planar"), 14, 20) : randTarget(r, s.i("planar"));
  double sc = s.d("scale", 1.0);  // the same scene, smaller or larger
  tgt.spacing *= sc;
  for (auto& t : tgt.pts)
    t *= sc;
  int nf = (int)tgt.pts.size();
  std::vector<Camera> cam(nc);
  std::vector<Isometry3d> b2c(nc);
  Isometry3d b2t;
  for (int c = 0; c < nc; ++c)
  {
    cam[c] = randCamera(r);
    Isometry3d ct = lookAt(r, cam[c], tgt, 0.8);
    // nearly one of the two below
    int pose = (int)s.i("pose");
    double off = pose == 2 || pose == 3 ? std::pow(10, r.uni(-9, -1)) : 0;
    if (off > 0 && c == 0)
    {
      Matrix3d R = pose == 2 ? Matrix3d(Matrix3d::Identity()) : Matrix3d(Eigen::Vector3d(1, -1, -1).asDiagonal());
      R = R * rotVec(unit(r) * off);
      ct = makePose(R, Vector3d(0, 0, 1) * ct.translation().norm() - R * tgt.center());
    }
    if (s.i("pose") == 0 && c == 0)  // the target exactly parallel to the image, no rotation at all
      ct.linear() = Matrix3d::Identity(), ct.translation() = Vector3d(0, 0, 1) * ct.translation().norm() - tgt.center();
    if (s.i("pose") == 1 && c == 0)  // exactly facing the camera
      ct.linear() = Eigen::Vector3d(1, -1, -1).asDiagonal(), ct.translation() = Vector3d(0, 0, 1) * ct.translation().norm() - ct.linear() * tgt.center();
    if (c == 0)
    {
      if (kind < 2 || (nc == 1 && r.chance(0.5)))
        b2c[0] = Isometry3d::Identity();
      else
        b2c[0] = randPose(r, M_PI, 2);
      b2t = b2c[0] * ct;
    }
    else
      b2c[c] = b2t * ct.inverse();
  }
  const Item& g = p.need("guess");
  Rng rg((uint64_t)g.i("seed"), "guess");
  Isometry3d ctr = makePose(Matrix3d::Identity(), tgt.center());
  Isometry3d guess = b2t * ctr * randPose(rg, g.d("ang"), g.d("trans") * sc) * ctr.inverse();
  std::vector<std::vector<Vector2d>> px(nc);
  std::vector<Vector3d> p3;
  std::vector<std::vector<Delivery>> q(nc);
  std::vector<bool> black(nc, false);
  for (auto* it : p.all("blackout"))
    if (it->i("cam") < nc)
      black[it->i("cam")] = true;
  for (int c = 0; c < nc; ++c)
  {
    for (auto& t : tgt.pts)
    {
      Vector3d x = b2c[c].inverse() * b2t * t;
      if (x.z() < 0.05 * sc)
        ctx.skip("behind");
      px[c].push_back(cam[c].project(x));
      if (c == 0)
        p3.push_back(x);
    }
    q[c] = view(p, ctx, c, nf, kind == 1 ? 3 : 4);
    if (black[c])
    {
      q[c].clear();
      ctx.fault("camera-blackout");
    }
  }
  auto f = [&](const VectorXd& x) {
    Isometry3d T = retract(b2t, x, 0);
    std::vector<double> o;
    for (int c = 0; c < nc; ++c)
      for (auto& d : q[c])
        for (int k : d.feats)
        {
          Vector3d v = b2c[c].inverse() * T * tgt.pts[k];
          if (kind == 1)
            o.insert(o.end(), { v.x(), v.y(), v.z() });
          else
          {
            Vector2d u = cam[c].project(v);
            o.insert(o.end(), { u.x(), u.y() });
          }
        }
    return VectorXd(Eigen::Map<VectorXd>(o.data(), (long)o.size()));
  };
  double cond = 0;
  int total = 0;
  for (auto& l : q)
    for (auto& d : l)
      total += (int)d.feats.size();
  double cond2 = 0;
  if (total > 2)
  {
    MatrixXd J = numJac(f, VectorXd::Zero(6));
    cond = conditioning(J);
    // column scaling hides a direction along one parameter to which the measurements are insensitive: rotations and
    // translations are also compared at the target's own size
    J.rightCols(3) *= tgt.radius();
    cond2 = conditioning(J, false);
  }
  bool determined = cond > 2e-3 && cond2 > 1e-3;
  for (int c = 0; c < nc; ++c)
    for (auto& d : q[c])
      for (int k : d.feats)
        if (kind != 1 && (b2c[c].inverse() * guess * tgt.pts[k]).z() < 0.05 * sc)
          determined = false;
  // a flat target seen almost frontally, or by few of its features, has a mirrored second solution: the start is near
  // enough to the true one when the cost falls all the way towards it, and a plain reference solver gets there
  if (determined && kind != 1 && s.i("planar") && (total < 12 || (int)s.i("pose") == 2 || (int)s.i("pose") == 3))
  {
    VectorXd x = poseVec(b2t.inverse() * guess);
    double last = -1;
    for (int i = 0; i <= 20 && determined; ++i)
    {
      double c = f(x * (i / 20.0)).squaredNorm();
      determined = c >= last - 1e-15;
      last = c;
    }
    double lambda = 1e-4;
    for (int i = 0; i < 60 && determined; ++i)
    {
      VectorXd r0 = f(x);
      MatrixXd J = numJac(f, x), N = J.transpose() * J;
      VectorXd g = J.transpose() * r0;
      bool better = false;
      for (int k = 0; k < 12 && !better; ++k, lambda *= 4)
      {
        MatrixXd D = N;
        D.diagonal() *= 1 + lambda;
        VectorXd y = x - D.ldlt().solve(g);
        if (f(y).squaredNorm() < r0.squaredNorm())
          better = true, x = y, lambda /= 16;
      }
      if (!better)
        break;
    }
    determined = determined && x.norm() < 1e-4 * std::max(1.0, sc);
    if (!determined)
      ctx.note("mirrored_solution_in_reach", 1);
  }
  bool conv = false;
  double cost = 0;
  Isometry3d est, est2;
  auto mp = [&]() {
    rct::MultiCameraPnPProblem pr;
    pr.base_to_target_guess = guess;
    for (int c = 0; c < nc; ++c)
    {
      pr.intr.push_back(cam[c].intr());
      pr.base_to_camera.push_back(b2c[c]);
      pr.image_observations.emplace_back();
      for (auto& d : q[c])
        for (auto& x : corr2(d, px[c], tgt))
          pr.image_observations.back().push_back(x);
    }
    return pr;
  };
  try
  {
    if (kind == 2)
    {
      auto o = rct::optimize(mp());
      conv = o.converged, cost = o.final_cost_per_obs, est = o.base_to_target;
    }
    else if (kind == 0)
    {
      rct::PnPProblem pr;
      pr.intr = cam[0].intr();
      pr.camera_to_target_guess = guess;
      for (auto& d : q[0])
        for (auto& x : corr2(d, px[0], tgt))
          pr.correspondences.push_back(x);
      auto o = rct::optimize(pr);
      conv = o.converged, cost = o.final_cost_per_obs, est = o.camera_to_target;
    }
    else
    {
      rct::PnPProblem3D pr;
      pr.camera_to_target_guess = guess;
      for (auto& d : q[0])
        for (auto& x : corr3(d, p3, tgt))
          pr.correspondences.push_back(x);
      auto o = rct::optimize(pr);
      conv = o.converged, cost = o.final_cost_per_obs, est = o.camera_to_target;
    }
  }
  catch (const std::exception& e)
  {
    ctx.event("error");
    if (determined)
      ctx.fail("exception", fmt("kind %d: a determined problem threw: %s", kind, e.what()));
    ctx.note("errors_on_undetermined", 1);
    return;
  }
  ctx.simTime(0.03);
  eventPose(ctx, "pose", est);
  ctx.eventD("cost", cost);
  if (!determined)
  {
    ctx.note("undetermined_survived", 1);
    return;
  }
  PoseErr e = poseErr(est, b2t);
  std::string what = fmt("kind %d, %d cameras, %d features, cond %.2e %.2e, cost %.3g, converged %d, error %.3g rad %.3g m", kind, nc, total, cond, cond2, cost, (int)conv, e.ang, e.trans);
  ctx.note("determined", 1);
  ctx.check(rigid(est), "not-rigid", what);
  ctx.check(conv, "not-converged", what);
  ctx.check(cost < (kind == 1 ? 1e-10 : 1e-6), "cost", what);
  ctx.check(e.ang < 2e-4 && e.trans < 2e-4 * std::max(sc, 0.1), "wrong-pose", what);
  if (kind == 0 && s.i("agree"))
  {
    auto o = rct::optimize(mp());
    PoseErr d = poseErr(est, o.base_to_target);
    ctx.check(o.converged && d.ang < 2e-4 && d.trans < 2e-4 * std::max(sc, 0.1), "single-multi-disagree", fmt("multi-camera solver differs by %.3g rad %.3g m; ", d.ang, d.trans) + what);
  }
}
static Registrar reg({ "C03", gen, run, "distinct delivered feature histories per camera" });
