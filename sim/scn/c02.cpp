// C02: networks of static cameras with independent losses per camera
#include "world.h"
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
using namespace world;
using namespace sim;

static void gen(Rng& r, Plan& p, int tier)
{
  int kind = r.range(0, 2);
  int nc = r.chance(0.15) ? 1 : r.chance(0.05) ? r.range(6, 12) : r.range(2, 5), n = nc <= 5 && r.chance(0.04) ? r.range(15, 40) : r.range(4, 10);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("kind", kind).set("cams", nc).set("views", n).set("fix", (int)r.chance(0.6)).set("near", r.chance(0.2) ? std::pow(10, r.uni(-9, -1.5)) : 0.0).set("which", r.range(0, nc - 1));
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("ang", r.chance(0.1) ? 0.0 : r.uni(0.003, 0.06)).set("trans", r.chance(0.1) ? 0.0 : r.uni(0.002, 0.03));
  genFaults(r, p, nc, n, 16, r.uni(0, 1.2), kind == 1 ? 4 : 1, true, true);
  for (int c = 0; c < nc; ++c)
    if (r.chance(0.12))
      p.add("blackout", true).set("cam", c);
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  Rng r((uint64_t)s.i("seed"), "world");
  int n = (int)s.i("views"), nc = (int)s.i("cams"), kind = (int)s.i("kind");
  bool fix = s.i("fix");
  TargetGeom tgt = randTarget(r, r.chance(0.7), 5, 6);
  int nf = (int)tgt.pts.size();
  double ws = tgt.radius() * 1.5;  // the target's centre moves in this radius
  std::vector<Camera> cam(nc);
  std::vector<Isometry3d> b2c(nc), b2t(n);
  Vector3d centre = unit(r) * r.uni(0, 1.5);
  for (int c = 0; c < nc; ++c)
  {
    cam[c] = randCamera(r);
    TargetGeom blob = tgt;
    double half = std::min({ cam[c].cx / cam[c].fx, (cam[c].w - cam[c].cx) / cam[c].fx, cam[c].cy / cam[c].fy, (cam[c].h - cam[c].cy) / cam[c].fy });
    double reach = ws + tgt.radius() * 2.1;
    double d = reach / half * r.uni(0.9, 1.4) + reach;
    Vector3d dir = (Vector3d(0, 0, -1) + 1.1 * unit(r)).normalized();
    Matrix3d R;
    Vector3d z = -dir;
    Vector3d x = z.cross(Vector3d(0.3, 1, 0.2)).normalized();
    R.col(0) = x;
    R.col(1) = z.cross(x);
    R.col(2) = z;
    b2c[c] = makePose(R * rotVec(Vector3d(0, 0, r.uni(-M_PI, M_PI))), centre + dir * d);
  }
  Isometry3d w2t = mountPose(r, 0.4);
  Isometry3d basis = mountPose(r, 0);
  for (int i = 0; i < n; ++i)
  {
    Matrix3d R = rotVec(unit(r) * r.uni(0.05, 0.9)) * basis.linear();
    if (i && r.chance(0.15))
      R = b2t[i - 1].linear();
    Vector3d at = centre + unit(r) * r.uni(0, ws);
    if (i && r.chance(0.15))
      at = b2t[i - 1] * tgt.center();
    b2t[i] = makePose(R, at - R * tgt.center());
  }
  // the same cell described in a base frame which is turned only very little from one of the cameras
  if (s.d("near", 0.0) > 0)
  {
    int c = std::min(nc - 1, (int)s.i("which"));
    Isometry3d W = makePose(rotVec(unit(r) * s.d("near")) * b2c[c].linear().transpose(), unit(r) * 0.3);
    for (auto& b : b2c)
      b = W * b;
    for (auto& b : b2t)
      b = W * b;
    centre = W * centre;
  }
  // deliveries
  std::vector<std::vector<Delivery>> q(nc);
  std::vector<bool> black(nc, false);
  for (auto* it : p.all("blackout"))
    if (it->i("cam") < nc)
      black[it->i("cam")] = true;
  std::vector<std::vector<std::vector<Vector2d>>> px(nc, std::vector<std::vector<Vector2d>>(n));
  for (int c = 0; c < nc; ++c)
  {
    for (int i = 0; i < n; ++i)
      for (auto& t : tgt.pts)
      {
        Vector3d x = b2c[c].inverse() * b2t[i] * t;
        if (x.z() < 0.05)
          ctx.skip("behind");
        px[c][i].push_back(cam[c].project(x));
      }
    q[c] = deliver(p, ctx, c, n, nf, kind == 1 ? 4 : 1);
    if (black[c])
    {
      q[c].clear();
      ctx.fault("camera-blackout");
    }
  }
  if (kind != 0)
    for (auto& l : q)  // one slot per (camera, view): duplicates collapse onto the slot
    {
      std::vector<Delivery> u;
      for (auto& d : l)
      {
        bool dup = false;
        for (auto& e : u)
          dup |= e.view == d.view;
        if (!dup)
          u.push_back(d);
      }
      l = u;
    }
  // order in which views are listed (kinds 1, 2): order of first arrival anywhere, then the rest
  std::vector<int> order;
  for (auto& l : q)
    for (auto& d : l)
      if (std::find(order.begin(), order.end(), d.view) == order.end())
        order.push_back(d.view);
  for (int i = 0; i < n; ++i)
    if (std::find(order.begin(), order.end(), i) == order.end())
      order.push_back(i);

  const Item& g = p.need("guess");
  Rng rg((uint64_t)g.i("seed"), "guess");
  double ga = g.d("ang"), gt = g.d("trans");
  // rotate guesses about the workspace centre so that the target stays in view
  auto about = [&](const Isometry3d& P, const Vector3d& c0) {
    Isometry3d C = makePose(Matrix3d::Identity(), c0);
    return C * randPose(rg, ga, gt) * C.inverse() * P;
  };
  std::vector<Isometry3d> cg(nc), tg(n);
  for (int c = 0; c < nc; ++c)
    cg[c] = about(b2c[c], centre);
  for (int i = 0; i < n; ++i)
    tg[i] = about(b2t[i], b2t[i] * tgt.center());
  Isometry3d wg = w2t * makePose(Matrix3d::Identity(), tgt.center()) * randPose(rg, ga, gt) * makePose(Matrix3d::Identity(), -tgt.center());
  std::vector<Isometry3d> wrist(n);
  for (int i = 0; i < n; ++i)
    wrist[i] = b2t[i] * w2t.inverse();
  Isometry3d corr = about(Isometry3d::Identity(), centre);
  if (kind == 2)
    for (int c = 0; c < nc; ++c)
      cg[c] = corr.inverse() * b2c[c];
  if (kind == 1 && fix)
    cg[0] = b2c[0];

  // premise: determined (normal matrix assembled block by block from the reference model)
  std::vector<bool> seenC(nc, false), seenV(n, false);
  int total = 0;
  for (int c = 0; c < nc; ++c)
    for (auto& d : q[c])
    {
      if (d.feats.empty())
        continue;
      seenC[c] = true;
      seenV[d.view] = true;
      total += (int)d.feats.size();
    }
  int dim, offT;
  std::vector<int> ci(nc, -1), ti(n, -1);
  if (kind == 0)
  {
    int k = 0;
    for (int c = 0; c < nc; ++c)
      if (seenC[c])
        ci[c] = 6 * k++;
    offT = 6 * k;
    dim = offT + 6;
  }
  else if (kind == 1)
  {
    int k = 0;
    for (int c = 0; c < nc; ++c)
      if (seenC[c] && !(fix && c == 0))
        ci[c] = 6 * k++;
    for (int i = 0; i < n; ++i)
      if (seenV[i])
        ti[i] = 6 * k++;
    dim = 6 * k;
    offT = -1;
  }
  else
    dim = 12, offT = 6;
  double cond = 0;
  if (total > 0)
  {
    MatrixXd N = MatrixXd::Zero(dim, dim);
    for (int c = 0; c < nc; ++c)
      for (auto& d : q[c])
      {
        auto f = [&](const VectorXd& x) {
          Isometry3d T;
          Isometry3d C = b2c[c];
          if (kind == 0)
          {
            C = retract(b2c[c], x, 0);
            T = wrist[d.view] * retract(w2t, x, 6);
          }
          else if (kind == 1)
          {
            C = retract(b2c[c], x, 0);
            T = retract(b2t[d.view], x, 6);
          }
          else
          {
            C = makePose(Matrix3d::Identity(), centre) * vecPose(x, 0) * makePose(Matrix3d::Identity(), -centre) * b2c[c];
            T = wrist[d.view] * retract(w2t, x, 6);
          }
          VectorXd o(2 * d.feats.size());
          for (std::size_t k = 0; k < d.feats.size(); ++k)
            o.segment<2>(2 * k) = cam[c].project(C.inverse() * T * tgt.pts[d.feats[k]]);
          return o;
        };
        MatrixXd J = numJac(f, VectorXd::Zero(12));
        int oc = kind == 2 ? 0 : ci[c], ot = kind == 1 ? ti[d.view] : offT;
        MatrixXd A = J.transpose() * J;
        int o2[2] = { oc, ot };
        for (int a = 0; a < 2; ++a)
          for (int b = 0; b < 2; ++b)
            if (o2[a] >= 0 && o2[b] >= 0)
              N.block<6, 6>(o2[a], o2[b]) += A.block<6, 6>(6 * a, 6 * b);
      }
    if (kind == 1 && !fix && dim > 0)  // gauge: pin the first free block
      N.topLeftCorner<6, 6>().diagonal().array() += N.topLeftCorner<6, 6>().diagonal().array().abs() + 1;
    VectorXd sc = N.diagonal().cwiseMax(0).cwiseSqrt();
    bool zero = sc.minCoeff() < 1e-9;
    if (!zero)
    {
      MatrixXd M = sc.cwiseInverse().asDiagonal() * N * sc.cwiseInverse().asDiagonal();
      Eigen::SelfAdjointEigenSolver<MatrixXd> es(M);
      double lo = es.eigenvalues()[0], hi = es.eigenvalues()[dim - 1];
      cond = lo > 0 ? std::sqrt(lo / hi) : 0;
    }
  }
  bool determined = total > 0 && cond > 3e-3;
  // premise of the guess: features in front of every camera
  for (int c = 0; c < nc; ++c)
    for (auto& d : q[c])
      for (int f : d.feats)
      {
        Isometry3d T = kind == 1 ? tg[d.view] : wrist[d.view] * wg;
        if ((cg[c].inverse() * T * tgt.pts[f]).z() < 0.05)
          ctx.skip("guess-behind-camera");
      }

  bool conv = false;
  double fcost = 0;
  std::vector<Isometry3d> rc, rt(n, Isometry3d::Identity());
  Isometry3d rw = Isometry3d::Identity();
  try
  {
    if (kind == 0)
    {
      rct::ExtrinsicMultiStaticCameraMovingTargetProblem pr;
      for (int c = 0; c < nc; ++c)
      {
        pr.intr.push_back(cam[c].intr());
        pr.base_to_camera_guess.push_back(cg[c]);
        pr.wrist_poses.emplace_back();
        pr.image_observations.emplace_back();
        for (auto& d : q[c])
        {
          pr.wrist_poses[c].push_back(wrist[d.view]);
          pr.image_observations[c].push_back(corr2(d, px[c][d.view], tgt));
        }
      }
      pr.wrist_to_target_guess = wg;
      auto o = rct::optimize(pr);
      conv = o.converged;
      fcost = o.final_cost_per_obs;
      rc = o.base_to_camera;
      rw = o.wrist_to_target;
    }
    else if (kind == 1)
    {
      rct::ExtrinsicMultiStaticCameraOnlyProblem pr;
      pr.fix_first_camera = fix;
      for (int v : order)
        pr.base_to_target_guess.push_back(tg[v]);
      for (int c = 0; c < nc; ++c)
      {
        pr.intr.push_back(cam[c].intr());
        pr.base_to_camera_guess.push_back(cg[c]);
        pr.image_observations.emplace_back(n);
        for (auto& d : q[c])
          pr.image_observations[c][std::find(order.begin(), order.end(), d.view) - order.begin()] = corr2(d, px[c][d.view], tgt);
      }
      auto o = rct::optimize(pr);
      conv = o.converged;
      fcost = o.final_cost_per_obs;
      rc = o.base_to_camera;
      ctx.check((int)o.base_to_target.size() == n, "result-size", "one target pose per view expected");
      for (int i = 0; i < n; ++i)
        rt[order[i]] = o.base_to_target[i];
    }
    else
    {
      rct::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem pr;
      for (int v : order)
        pr.wrist_poses.push_back(wrist[v]);
      pr.wrist_to_target_guess = wg;
      for (int c = 0; c < nc; ++c)
      {
        pr.intr.push_back(cam[c].intr());
        pr.base_to_camera_guess.push_back(cg[c]);
        pr.image_observations.emplace_back(n);
        for (auto& d : q[c])
          pr.image_observations[c][std::find(order.begin(), order.end(), d.view) - order.begin()] = corr2(d, px[c][d.view], tgt);
      }
      auto o = rct::optimize(pr);
      conv = o.converged;
      fcost = o.final_cost_per_obs;
      rc = o.base_to_camera;
      rw = o.wrist_to_target;
    }
  }
  catch (const std::exception& e)
  {
    ctx.event(std::string("error"));
    if (determined)
      ctx.fail("exception", std::string("calibration of a determined network threw: ") + e.what());
    ctx.note("errors_on_undetermined", 1);
    return;
  }
  ctx.simTime(n * nc);
  for (auto& x : rc)
    eventPose(ctx, "camera", x);
  eventPose(ctx, "wrist", rw);
  ctx.eventD("cost", fcost);
  std::string what = fmt("kind %d, %d cameras, %d views, cond %.2e, final cost %.3g, converged %d", kind, nc, n, cond, fcost, (int)conv);
  ctx.check((int)rc.size() == nc, "result-size", "one pose per camera expected; " + what);
  for (int c = 0; c < nc; ++c)
    ctx.check(rigid(rc[c]), "not-rigid", fmt("camera %d; ", c) + what);
  // guarantees that hold whether or not the network is determined
  if (kind != 2)
    for (int c = 0; c < nc; ++c)
      if (!seenC[c])
      {
        PoseErr e = poseErr(rc[c], cg[c]);
        ctx.check(e.ang < 1e-8 && e.trans < 1e-8, "blind-camera-moved", fmt("camera %d saw nothing but moved by %.3g rad %.3g m; ", c, e.ang, e.trans) + what);
      }
  if (kind == 1 && fix)
  {
    PoseErr e = poseErr(rc[0], cg[0]);
    ctx.check(e.ang < 1e-8 && e.trans < 1e-8, "fixed-camera-moved", fmt("the fixed first camera moved by %.3g rad %.3g m; ", e.ang, e.trans) + what);
  }
  if (kind == 1)
    for (int i = 0; i < n; ++i)
      if (!seenV[i])
      {
        PoseErr e = poseErr(rt[i], tg[i]);
        ctx.check(e.ang < 1e-8 && e.trans < 1e-8, "unseen-target-moved", fmt("target pose %d was never seen but moved; ", i) + what);
      }
  if (kind == 2)
    for (int c = 1; c < nc; ++c)
    {
      PoseErr e = poseErr(rc[0].inverse() * rc[c], cg[0].inverse() * cg[c]);
      ctx.check(e.ang < 1e-8 && e.trans < 1e-8, "rig-deformed", fmt("the rigid camera set changed shape by %.3g rad %.3g m; ", e.ang, e.trans) + what);
    }
  if (!determined)
  {
    ctx.note("undetermined_survived", 1);
    return;
  }
  ctx.check(conv, "not-converged", what);
  ctx.check(fcost < 1e-6, "cost", what);
  double worst = 0;
  auto upd = [&](const Isometry3d& a, const Isometry3d& b) {
    PoseErr e = poseErr(a, b);
    worst = std::max({ worst, e.ang, e.trans });
  };
  if (kind == 1 && !fix)
  {
    int ref = -1;
    for (int c = 0; c < nc; ++c)
      if (seenC[c])
      {
        if (ref < 0)
          ref = c;
        upd(rc[ref].inverse() * rc[c], b2c[ref].inverse() * b2c[c]);
      }
    for (int i = 0; i < n; ++i)
      if (seenV[i])
        upd(rc[ref].inverse() * rt[i], b2c[ref].inverse() * b2t[i]);
  }
  else
  {
    for (int c = 0; c < nc; ++c)
      if (seenC[c] || kind == 2)
        upd(rc[c], b2c[c]);
    if (kind == 1)
    {
      for (int i = 0; i < n; ++i)
        if (seenV[i])
          upd(rt[i], b2t[i]);
    }
    else
      upd(rw, w2t);
  }
  ctx.note("max_log10_err_sum", std::log10(worst + 1e-18));
  ctx.check(worst < 3e-4, "wrong-answer", fmt("worst pose error %.3g; ", worst) + what);
}
static Registrar reg({ "C02", gen, run, "distinct delivered histories per camera (order, surviving views and features)" });
