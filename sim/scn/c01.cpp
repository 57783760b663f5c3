// C01: hand-eye calibration over a lossy session
#include "world.h"
#include <rct_optimizations/extrinsic_hand_eye.h>
using namespace world;
using namespace sim;

static void gen(Rng& r, Plan& p, int tier)
{
  int n = r.chance(0.04) ? r.range(20, 70) : r.range(6, 16);  // now and then a long session
  bool is2d = r.chance(0.65);
  bool planar = r.chance(0.7);
  int kind = r.range(0, 2);  // 0 camera on wrist, 1 static camera, 2 both mounts move
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("dim", is2d ? 2 : 3).set("planar", (int)planar).set("mount", kind).set("views", n).set("moves", r.range(0, 3)).set("micro", r.chance(0.25) ? r.uni(0.1, 0.9) : 0.0);
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("ang", r.chance(0.15) ? 0.0 : r.uni(0.005, 0.10)).set("trans", r.chance(0.15) ? 0.0 : r.uni(0.002, 0.05));
  genFaults(r, p, 1, n, 16, r.uni(0, 1.3), 1, true, true);
  // a start from which one feature lies behind the camera
  if (is2d && r.chance(0.08))
    p.add("behind", true).set("view", r.range(0, n - 1)).set("feat", r.range(0, 15)).set("by", std::pow(10, r.uni(-3, -0.5)));
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  Rng r((uint64_t)s.i("seed"), "world");
  int n = (int)s.i("views");
  bool is2d = s.i("dim") == 2;
  int mount = (int)s.i("mount");
  Camera cam = randCamera(r);
  TargetGeom tgt = randTarget(r, s.i("planar"));
  int nf = (int)tgt.pts.size();
  // the true mounts: anything, including large rotations
  Isometry3d camMount = mountPose(r, 0.6), tgtMount = mountPose(r, 0.8);
  std::vector<rct::Observation2D3D> v2(n);
  std::vector<rct::Observation3D3D> v3(n);
  std::vector<std::vector<Vector2d>> px(n);
  std::vector<std::vector<Vector3d>> p3(n);
  Isometry3d base = randPose(r, M_PI, 2.0), fixedTgt = randPose(r, M_PI, 1.0), fixedCam = randPose(r, M_PI, 1.0);
  std::vector<Isometry3d> toCam(n), toTgt(n);
  double micro = s.d("micro", 0.0);
  Isometry3d ctPrev;
  for (int i = 0; i < n; ++i)
  {
    Isometry3d ct = lookAt(r, cam, tgt, 0.7);  // camera -> target
    if (micro > 0 && i && r.chance(micro))     // hardly moved since the capture before
    {
      double step = std::pow(10, r.uni(-6, -1.5));
      ct = ctPrev * randPose(r, step, step);
      ctx.note("micro_moves", 1);
    }
    ctPrev = ct;
    // to_camera_mount * camMount * ct == to_target_mount * tgtMount
    if (mount == 0)
    {
      toTgt[i] = r.chance(0.5) || i ? (i ? toTgt[0] : fixedTgt) : Isometry3d::Identity();
      toCam[i] = toTgt[i] * tgtMount * ct.inverse() * camMount.inverse();
    }
    else if (mount == 1)
    {
      toCam[i] = i ? toCam[0] : (r.chance(0.5) ? Isometry3d::Identity() : fixedCam);
      toTgt[i] = toCam[i] * camMount * ct * tgtMount.inverse();
    }
    else
    {
      // structured motions: the camera mount only rotates, only translates, or repeats earlier poses
      Isometry3d mv = randPose(r, 2.0, 0.5);
      int moves = (int)s.i("moves", 0);
      if (moves == 1)
        mv.translation().setZero();
      else if (moves == 2)
        mv.linear().setIdentity();
      else if (moves == 3 && i && r.chance(0.5))
        mv = base.inverse() * toCam[r.range(0, i - 1)];
      toCam[i] = base * mv;
      toTgt[i] = toCam[i] * camMount * ct * tgtMount.inverse();
    }
    for (auto& q : tgt.pts)
    {
      Vector3d c = ct * q;
      px[i].push_back(cam.project(c));
      p3[i].push_back(c);
    }
  }
  auto q = deliver(p, ctx, 0, n, nf, 1);
  const Item& g = p.need("guess");
  Rng rg((uint64_t)g.i("seed"), "guess");
  Isometry3d camGuess = perturb(camMount, rg, g.d("ang"), g.d("trans"));
  // perturb the target mount about the target's centre, so that it stays in view
  Isometry3d ctr = makePose(Matrix3d::Identity(), tgt.center());
  Isometry3d tgtGuess = tgtMount * ctr * randPose(rg, g.d("ang"), g.d("trans")) * ctr.inverse();

  for (auto* b : p.all("behind"))
    if (is2d)
    {
      // the start is moved along the viewing direction until feature `feat` of view `view` lies behind the image plane
      int v = (int)b->i("view"), f = std::min((int)b->i("feat"), nf - 1);
      double z = (camGuess.inverse() * toCam[v].inverse() * toTgt[v] * tgtGuess * tgt.pts[f]).z();
      camGuess = camGuess * makePose(Matrix3d::Identity(), Vector3d(0, 0, z + b->d("by")));
      ctx.fault("start-beyond-target");
    }

  // premise: the surviving measurements determine both mounts (reference Jacobian at the truth)
  auto resid = [&](const VectorXd& x) {
    Isometry3d C = retract(camMount, x, 0), T = retract(tgtMount, x, 6);
    std::vector<double> o;
    for (auto& d : q)
    {
      Isometry3d ct = C.inverse() * toCam[d.view].inverse() * toTgt[d.view] * T;
      for (int f : d.feats)
      {
        Vector3d c = ct * tgt.pts[f];
        if (is2d)
        {
          Vector2d u = cam.project(c) - px[d.view][f];
          o.push_back(u.x());
          o.push_back(u.y());
        }
        else
        {
          Vector3d e = c - p3[d.view][f];
          for (int k = 0; k < 3; ++k)
            o.push_back(e[k]);
        }
      }
    }
    return VectorXd(Eigen::Map<VectorXd>(o.data(), (long)o.size()));
  };
  // a 2D start with a delivered feature behind the camera is refused
  double minz = 1e9;
  for (auto& d : q)
    for (int f : d.feats)
      minz = std::min(minz, (camGuess.inverse() * toCam[d.view].inverse() * toTgt[d.view] * tgtGuess * tgt.pts[f]).z());
  bool refuse = is2d && minz < -1e-4;
  std::size_t used = 0;
  for (auto& d : q)
    used += !d.feats.empty();
  double cond = 0;
  if (!refuse)
  {
    if (used < 4)
      ctx.skip("too-few-views");
    cond = conditioning(numJac(resid, VectorXd::Zero(12)));
    if (cond < 2e-3)
      ctx.skip("undetermined");
    // premise of the initial guess: every feature in front of the camera
    if (minz < 0.05)
      ctx.skip("guess-behind-camera");
  }

  rct::ExtrinsicHandEyeResult res;
  try
  {
    if (is2d)
    {
      rct::ExtrinsicHandEyeProblem2D3D pr;
      pr.intr = cam.intr();
      pr.camera_mount_to_camera_guess = camGuess;
      pr.target_mount_to_target_guess = tgtGuess;
      for (auto& d : q)
      {
        rct::Observation2D3D o(toCam[d.view], toTgt[d.view]);
        o.correspondence_set = corr2(d, px[d.view], tgt);
        pr.observations.push_back(o);
      }
      res = rct::optimize(pr);
    }
    else
    {
      rct::ExtrinsicHandEyeProblem3D3D pr;
      pr.camera_mount_to_camera_guess = camGuess;
      pr.target_mount_to_target_guess = tgtGuess;
      for (auto& d : q)
      {
        rct::Observation3D3D o(toCam[d.view], toTgt[d.view]);
        o.correspondence_set = corr3(d, p3[d.view], tgt);
        pr.observations.push_back(o);
      }
      res = rct::optimize(pr);
    }
  }
  catch (const std::exception& e)
  {
    if (refuse)
    {
      ctx.event("refused");
      ctx.note("refused_starts", 1);
      return;
    }
    ctx.fail("exception", std::string("calibration of a determined session threw: ") + e.what());
  }
  if (refuse)
    ctx.fail("start-not-refused", fmt("a delivered feature starts %.3g m behind the camera, but the start was accepted", -minz));
  eventPose(ctx, "camera", res.camera_mount_to_camera);
  eventPose(ctx, "target", res.target_mount_to_target);
  ctx.eventD("final", res.final_cost_per_obs);
  ctx.simTime(n * 2.0);
  PoseErr ec = poseErr(res.camera_mount_to_camera, camMount), et = poseErr(res.target_mount_to_target, tgtMount);
  double worst = std::max({ ec.ang, ec.trans, et.ang, et.trans });
  std::string what = fmt("cond %.2e, %zu views, final cost %.3g, camera error %.3g rad %.3g m, target error %.3g rad %.3g m", cond, q.size(),
                         res.final_cost_per_obs, ec.ang, ec.trans, et.ang, et.trans);
  ctx.note("max_log10_err_sum", std::log10(worst + 1e-18));
  ctx.check(rigid(res.camera_mount_to_camera) && rigid(res.target_mount_to_target), "not-rigid", what);
  ctx.check(res.converged, "not-converged", what);
  ctx.check(res.final_cost_per_obs < (is2d ? 1e-6 : 1e-10), "cost", what);
  ctx.check(worst < 2e-4, "wrong-answer", what);
}
static Registrar reg({ "C01", gen, run, "distinct delivered histories (order, surviving views and features)" });
