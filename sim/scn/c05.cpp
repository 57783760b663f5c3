// C05: kinematic calibration of dual joint chains under loss, masks and every schedule of its worker threads
#include "world.h"
#include "jobs.h"
#include "dh.h"
#include "adapt/adapt.h"
#include "../core/baton.h"
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
using namespace world;
using namespace dh;
using namespace sim;

// modes: 0 true offsets hardly constrained by the prior, 1 true robot = nominal robot under the default prior,
//        2 noisy data (only schedule independence and fixed parameters), 3 refused requests
static void gen(Rng& r, Plan& p, int tier)
{
  int mode = r.chance(0.1) ? 3 : r.chance(0.2) ? 2 : r.chance(0.3) ? 1 : 0;
  bool pix = r.chance(0.5);
  int nv = pix ? r.range(6, 14) : r.range(10, 24);
  int n1 = r.chance(0.08) ? r.range(4, 7) : r.range(0, 3), n2 = r.chance(0.5) ? 0 : r.range(0, 3);
  if (n1 + n2 == 0)
    n1 = 1;
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("mode", mode).set("pix", (int)pix).set("views", nv).set("n1", n1).set("n2", n2)
      .set("weight", r.chance(0.5) ? 1.0 : r.chance(0.5) ? 100.0 : r.uni(0.1, 10)).set("threads", r.range(1, 4)).set("loose", (int)r.chance(0.3));
  // identity guesses of small rotations are common
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("ang", r.chance(0.2) ? 0.0 : r.uni(0.001, 0.03)).set("trans", r.chance(0.15) ? 0.0 : r.uni(0.001, 0.02)).set("ident", r.range(0, 15) * (int)r.chance(0.4));
  p.add("masks").set("seed", (unsigned long)(r.u64() >> 24)).set("style", r.range(0, 3));
  if (mode == 3)
  {
    int k = r.range(0, 4);
    if (k == 0)
      p.add("none");
    else if (k == 4)
      p.add("morejoints").set("view", r.range(0, nv - 1)).set("chain", r.range(0, 1)).set("by", r.range(1, 3));
    else
      p.add("badmask").set("block", r.range(0, 7)).set("kind", k).set("by", r.range(0, 3));
  }
  genFaults(r, p, 1, nv, pix ? 12 : 1, r.chance(0.2) ? 0.0 : r.uni(0.2, 1.2), pix ? 3 : 1, true, pix);
  if (pix || r.chance(0.4))
    Sched::gen(r, p, 3e5, r.range(0, 10), r.range(0, 5));
  if (r.chance(0.5))
    p.add("heap", true).set("seed", (unsigned long)(r.u64() >> 40) + 1);
}
static void run(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  Rng r((uint64_t)s.i("seed"), "world");
  int mode = (int)s.i("mode"), nv = (int)s.i("views");
  bool pix = s.i("pix");
  Chain c1 = randChain(r, (int)s.i("n1")), c2 = randChain(r, (int)s.i("n2"));
  Camera cam = randCamera(r);
  TargetGeom tgt;
  tgt.spacing = r.uni(0.02, 0.06);
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      tgt.pts.push_back(Vector3d(j * tgt.spacing, i * tgt.spacing, r.chance(0.5) ? 0 : r.uni(-1, 1) * tgt.spacing));
  // ---- fixed parameters
  Rng rm((uint64_t)p.need("masks").i("seed"), "masks");
  int style = (int)p.need("masks").i("style");
  Eigen::Array<bool, Eigen::Dynamic, 4> m1(c1.n(), 4), m2(c2.n(), 4);
  double pm = style == 0 ? 0.0 : style == 1 ? 0.3 : style == 2 ? 0.7 : rm.u01();
  for (int i = 0; i < m1.size(); ++i)
    m1(i) = rm.chance(pm);
  for (int i = 0; i < m2.size(); ++i)
    m2(i) = rm.chance(pm);
  if (rm.chance(0.15))
    m1.setConstant(true);
  if (rm.chance(0.15))
    m2.setConstant(true);
  std::array<std::vector<int>, 8> mask;
  mask[0] = rct_sim_adapt::mask(m1);
  mask[1] = rct_sim_adapt::mask(m2);
  for (int b = 2; b < 8; ++b)
    if (rm.chance(0.35))
      mask[b] = { 0, 1, 2 };
    else
      for (int k = 0; k < 3; ++k)
        if (rm.chance(pm * 0.5))
          mask[b].push_back(k);
  for (auto& m : mask)
  {
    if (!m.empty() && rm.chance(0.2))
      m.push_back(m[0]);  // named twice
    rm.shuffle(m);
  }
  auto fixedAt = [&](int b, int k) { return std::find(mask[b].begin(), mask[b].end(), k) != mask[b].end(); };
  // ---- the truth and the guess
  Unknowns T;
  T.o1 = Eigen::MatrixX4d::Zero(c1.n(), 4), T.o2 = Eigen::MatrixX4d::Zero(c2.n(), 4);
  if (mode == 0)
  {
    for (int i = 0; i < T.o1.size(); ++i)
      if (!m1(i))
        T.o1(i) = r.uni(-1, 1) * 0.01;
    for (int i = 0; i < T.o2.size(); ++i)
      if (!m2(i))
        T.o2(i) = r.uni(-1, 1) * 0.01;
  }
  const Item& g = p.need("guess");
  Rng rg((uint64_t)g.i("seed"), "guess");
  int ident = (int)g.i("ident");
  Isometry3d P0 = smallMount(r, 0.2), P1 = smallMount(r, 0.2), P2;
  VectorXd mid1 = joints(r, c1, 1.5, VectorXd::Zero(c1.n())), mid2 = joints(r, c2, 1.5, VectorXd::Zero(c2.n()));
  Isometry3d first = lookAt(r, cam, tgt, 0.5, 1.6, 2.5);
  if (ident & 1)
    P0.linear() = rotVec(unit(r) * r.uni(0, 0.02));
  if (ident & 2)
    P1.linear() = rotVec(unit(r) * r.uni(0, 0.02));
  // the base of the target chain goes where the first view sees the target well
  for (int i = 0; i < 30; ++i)
  {
    P2 = c1.fk(mid1, T.o1) * P0 * first * P1.inverse() * c2.fk(mid2, T.o2).inverse();
    if (aaOf(P2).norm() < 2.8)
      break;
    first = lookAt(r, cam, tgt, 0.5, 1.6, 2.5);
    mid2 = joints(r, c2, 1.5, VectorXd::Zero(c2.n())), mid1 = joints(r, c1, 1.5, VectorXd::Zero(c1.n()));
  }
  T.t[0] = P0.translation(), T.a[0] = aaOf(P0);
  T.t[1] = P1.translation(), T.a[1] = aaOf(P1);
  T.t[2] = P2.translation(), T.a[2] = aaOf(P2);
  if (T.a[2].norm() > 2.8)
    ctx.skip("base-near-half-turn");
  Unknowns G = T;
  for (int k = 0; k < 3; ++k)
    for (int i = 0; i < 3; ++i)
    {
      if (!fixedAt(2 + 2 * k, i))
        G.t[k][i] += rg.uni(-1, 1) * g.d("trans");
      if (!fixedAt(3 + 2 * k, i))
        G.a[k][i] += rg.uni(-1, 1) * g.d("ang");
    }
  for (int k = 0; k < 2; ++k)
    if ((ident >> k) & 1 && mask[3 + 2 * k].empty())
    {
      G.a[k].setZero();  // no rotation at all
      ctx.fault("guess-without-rotation");
    }
  G.o1.setZero(), G.o2.setZero();
  // what the guess means after the solver has read its rotation matrices
  Isometry3d gp[3];
  for (int k = 0; k < 3; ++k)
  {
    gp[k] = G.pose(k);
    if (G.a[k].norm() == 0)
      gp[k].linear().setIdentity();
  }
  // ---- views
  bool all = !pix;
  std::vector<VectorXd> q1, q2;
  std::vector<Isometry3d> ct;
  std::vector<std::vector<Vector2d>> px;
  for (int v = 0, tries = 0; v < nv && tries < 400; ++tries)
  {
    VectorXd a = joints(r, c1, all ? 3.0 : 0.35, mid1), b = joints(r, c2, all ? 3.0 : 0.35, mid2);
    Isometry3d c = (c1.fk(a, T.o1) * P0).inverse() * P2 * c2.fk(b, T.o2) * P1;
    if (pix)
    {
      bool ok = true;
      for (auto& x : tgt.pts)
        ok = ok && cam.sees(c * x) && (c * x).z() > 0.15;
      if (!ok)
        continue;
      px.emplace_back();
      for (auto& x : tgt.pts)
        px.back().push_back(cam.project(c * x));
    }
    q1.push_back(a), q2.push_back(b), ct.push_back(c);
    ++v;
  }
  nv = (int)ct.size();
  if (nv < 3 && mode != 3)
    ctx.skip("target-rarely-in-view");
  Rng rn((uint64_t)s.i("seed"), "noise");
  if (mode == 2)
    for (int v = 0; v < nv; ++v)
    {
      ct[v] = ct[v] * randPose(rn, 0.002, 0.001);
      if (pix)
        for (auto& u : px[v])
          u += 0.2 * Vector2d(rn.gauss(), rn.gauss());
    }
  auto q = deliver(p, ctx, 0, nv, pix ? (int)tgt.pts.size() : 1, pix ? 3 : 1);
  // ---- the requests
  double sd = mode == 0 ? 1e5 : 1e-3, weight = s.d("weight");
  rct::DHChain k1 = c1.make("c", 10), k2 = c2.make("t", 50);
  bool none = p.find("none");
  if (const Item* bm = p.find("badmask"))
  {
    int b = (int)bm->i("block");
    int size = b == 0 ? std::max(1, c1.n()) * 4 : b == 1 ? std::max(1, c2.n()) * 4 : 3;
    if (bm->i("kind") == 1)
      mask[b].push_back(size + (int)bm->i("by"));
    else if (bm->i("kind") == 2)
      mask[b].push_back(-1 - (int)bm->i("by"));
    else
      mask[b] = { -1 - (int)bm->i("by") };
    ctx.fault("mask-out-of-range");
  }
  const Item* more = p.find("morejoints");
  bool tooMany = false;
  auto excess = [&](int view, auto& o) {
    if (!more || more->i("view") != view)
      return;
    VectorXd& j = more->i("chain") ? o.target_chain_joints : o.camera_chain_joints;
    int n = (int)j.size();
    j.conservativeResize(n + more->i("by"));
    for (int i = n; i < j.size(); ++i)
      j[i] = 0.1 * i;
    tooMany = true;
    ctx.fault("joints-too-many");
  };
  auto common = [&](auto& pr) {
    pr.camera_mount_to_camera_guess = gp[0], pr.target_mount_to_target_guess = gp[1], pr.camera_base_to_target_base_guess = gp[2];
    pr.mask = mask;
    pr.camera_chain_offset_stdev = pr.target_chain_offset_stdev = sd;
  };
  rct::KinematicCalibrationProblem2D3D pa(k1, k2);
  rct::KinematicCalibrationProblemPose6D pb(k1, k2);
  int nres = 0;
  if (pix)
  {
    common(pa);
    pa.intr = cam.intr();
    for (auto& d : q)
    {
      if (none)
        continue;
      rct::KinObservation2D3D o;
      o.camera_chain_joints = q1[d.view], o.target_chain_joints = q2[d.view];
      o.correspondence_set = corr2(d, px[d.view], tgt);
      nres += 2 * (int)d.feats.size();
      if (!d.feats.empty())
        excess(d.view, o);
      pa.observations.push_back(o);
    }
  }
  else
  {
    common(pb);
    for (auto& d : q)
    {
      if (none)
        continue;
      rct::KinematicMeasurement o;
      o.camera_chain_joints = q1[d.view], o.target_chain_joints = q2[d.view], o.camera_to_target = ct[d.view];
      excess(d.view, o);
      pb.observations.push_back(o);
      nres += 6;
    }
  }
  ceres::Solver::Options opt;
  opt.num_threads = (int)s.i("threads");
  if (!s.i("loose"))
    opt.max_num_iterations = 300, opt.function_tolerance = 1e-14;
  opt.logging_type = ceres::SILENT;
  // ---- is the answer determined, and well enough for the numbers to mean something?
  std::vector<int> free;
  {
    int n = 0;
    for (int i = 0; i < m1.size(); ++i, ++n)
      if (!m1(i))
        free.push_back(n);
    for (int i = 0; i < m2.size(); ++i, ++n)
      if (!m2(i))
        free.push_back(n);
    for (int k = 0; k < 3; ++k)
      for (int i = 0; i < 6; ++i, ++n)
        if (!fixedAt(2 + 2 * k + i / 3, i % 3))
          free.push_back(n);
  }
  std::vector<VectorXd> u1, u2;  // unseen joint positions
  for (int i = 0; i < 6; ++i)
    u1.push_back(joints(r, c1, all ? 3.0 : 0.5, mid1)), u2.push_back(joints(r, c2, all ? 3.0 : 0.5, mid2));
  auto predict = [&](const Unknowns& u, const VectorXd& a, const VectorXd& b) { return Isometry3d((c1.fk(a, u.o1) * u.pose(0)).inverse() * u.pose(2) * c2.fk(b, u.o2) * u.pose(1)); };
  double amplify = 0;
  if (mode != 3)
  {
    if (free.empty())
      ctx.skip("nothing-to-estimate");
    if (nres == 0)
      ctx.skip("everything-lost");
    VectorXd x0 = flat(T);
    auto put = [&](const VectorXd& f) {
      VectorXd x = x0;
      for (std::size_t i = 0; i < free.size(); ++i)
        x[free[i]] += f[i];
      return unflat(x, T);
    };
    std::vector<Isometry3d> at, un;
    for (auto& d : q)
      at.push_back(predict(T, q1[d.view], q2[d.view]));
    for (std::size_t i = 0; i < u1.size(); ++i)
      un.push_back(predict(T, u1[i], u2[i]));
    auto res = [&](const VectorXd& f) {
      Unknowns u = put(f);
      std::vector<double> o;
      for (std::size_t k = 0; k < q.size(); ++k)
      {
        Isometry3d c = predict(u, q1[q[k].view], q2[q[k].view]);
        if (pix)
          for (int ft : q[k].feats)
          {
            Vector2d w = cam.project(c * tgt.pts[ft]) / cam.fx * 0.3;
            o.push_back(w.x()), o.push_back(w.y());
          }
        else
        {
          VectorXd e = poseVec(at[k].inverse() * c);
          for (int i = 0; i < 6; ++i)
            o.push_back(e[i]);
        }
      }
      if (mode != 0)  // the prior counts as a measurement
      {
        double w = 1e3 * (pix ? 0.3 / cam.fx : 1.0);
        for (int i = 0; i < u.o1.size(); ++i)
          o.push_back(w * u.o1(i));
        for (int i = 0; i < u.o2.size(); ++i)
          o.push_back(w * u.o2(i));
      }
      return VectorXd(Eigen::Map<VectorXd>(o.data(), o.size()));
    };
    auto pred = [&](const VectorXd& f) {
      Unknowns u = put(f);
      VectorXd o(6 * un.size());
      for (std::size_t i = 0; i < un.size(); ++i)
        o.segment<6>(6 * i) = poseVec(un[i].inverse() * predict(u, u1[i], u2[i]));
      return o;
    };
    VectorXd z = VectorXd::Zero(free.size());
    MatrixXd J = numJac4(res, z), Q = numJac4(pred, z);
    Eigen::JacobiSVD<MatrixXd> svd(J, Eigen::ComputeFullV);
    double s0 = svd.singularValues()[0];
    int rank = 0;
    for (int i = 0; i < svd.singularValues().size(); ++i)
    {
      double v = svd.singularValues()[i] / s0;
      if (v > (mode == 0 ? 3e-3 : pix ? 3e-5 : 3e-4))
        ++rank;
      else if (v > 1e-8)
        ctx.skip("badly-determined");
    }
    if (!pix && nres < 2 * rank)
      ctx.skip("few-measurements");
    int nf = (int)free.size();
    if (rank < nf && (Q * svd.matrixV().rightCols(nf - rank)).norm() > 1e-6)
      ctx.skip("prediction-undetermined");
    amplify = 1 / (3e-3 * s0);
  }
  // ---- run it under the plan's schedule
  auto solve = [&](jobs::Out& o) {
    rct::KinematicCalibrationResult x = pix ? rct::optimize(pa) : rct::optimize(pb, weight, opt);
    o.num = { (double)x.converged, x.initial_cost_per_obs, x.final_cost_per_obs, (double)x.camera_chain_dh_offsets.rows(), (double)x.target_chain_dh_offsets.rows() };
    for (int i = 0; i < x.camera_chain_dh_offsets.size(); ++i)
      o.num.push_back(x.camera_chain_dh_offsets(i));
    for (int i = 0; i < x.target_chain_dh_offsets.size(); ++i)
      o.num.push_back(x.target_chain_dh_offsets(i));
    for (auto* ps : { &x.camera_mount_to_camera, &x.target_mount_to_target, &x.camera_base_to_target_base })
      for (int i = 0; i < 12; ++i)
        o.num.push_back(ps->matrix()(i / 4, i % 4));
    for (auto& e : x.covariance.standard_deviations)
      o.str.push_back(e.names.first);
  };
  struct J : jobs::Job
  {
    std::function<void(jobs::Out&)> f;
    void call(jobs::Out& o) override { f(o); }
    uint64_t input() const override { return 0; }
  } job;
  job.f = solve;
  bool crashed;
  std::string how;
  bool sched = p.find("policy") || p.find("pre") || p.find("hot");
  // the same request alone, in whatever order its threads like to run
  jobs::Out ref;
  if (sched || mode == 3)
  {
    ref = jobs::pristine([&] { return job.run(); }, crashed, how);
    std::string w = mode == 3 ? (none ? "a calibration without observations" : p.find("morejoints") ? "a calibration with too many joint values" : "a calibration with a fixed parameter that does not exist") : "the calibration";
    ctx.check(!crashed, "crash", w + " ended the process: " + how);
  }
  jobs::Out got;
  if (const Item* h = p.find("heap"))
  {
    Alloc::layout((uint64_t)h->i("seed"));
    ctx.fault("heap-layout-changed");
  }
  if (sched)
  {
    Sched::start(p, ctx);
    got = job.run();
    Sched::stop();
  }
  else
    got = job.run();
  ctx.simTime(nv * 0.5);
  ctx.nontrivial();
  std::string what = fmt("%s calibration, %d + %d joints, %zu views of which some fixed/lost, %zu unknowns", pix ? "pixel" : "pose", c1.n(), c2.n(), q.size(), free.size());
  if (mode == 3)
  {
    ctx.note("refusals", 1);
    ctx.event(got.threw ? "refused" : "answered");
    if (none)
    {
      ctx.check(got.threw, "no-data-accepted", "a calibration without any observation was answered instead of refused");
      return;
    }
    if (nres == 0)
      return;
    if (more)
    {
      ctx.check(got.threw || !tooMany, "joints-accepted", "an observation with more joint values than the chain has joints was accepted");
      return;
    }
    ctx.check(got.threw, "bad-mask-accepted", "a fixed parameter that does not exist was accepted");
    return;
  }
  ctx.check(!got.threw, "exception", what + " threw: " + got.err);
  const double* n = got.num.data();
  double conv = n[0], c0 = n[1], cf = n[2];
  ctx.event64("converged", (uint64_t)conv);
  ctx.check((int)n[3] == c1.n() && (int)n[4] == c2.n(), "offset-shape", fmt("offsets for %g and %g joints instead of %d and %d", n[3], n[4], c1.n(), c2.n()));
  n += 5;
  Unknowns R = G;
  for (int i = 0; i < R.o1.size(); ++i)
    R.o1(i) = *n++;
  for (int i = 0; i < R.o2.size(); ++i)
    R.o2(i) = *n++;
  Isometry3d rp[3];
  for (int k = 0; k < 3; ++k)
  {
    rp[k] = Isometry3d::Identity();
    for (int i = 0; i < 12; ++i)
      rp[k].matrix()(i / 4, i % 4) = *n++;
    ctx.check(rigid(rp[k]), "not-a-pose", what + fmt(": pose %d of the answer is not a rigid pose", k));
    R.t[k] = rp[k].translation(), R.a[k] = aaOf(rp[k]);
  }
  // fixed parameters
  for (int i = 0; i < R.o1.size(); ++i)
    if (m1(i))
      ctx.check(R.o1(i) == 0, "fixed-moved", what + fmt(": fixed DH parameter %d of the camera chain moved by %.3g", i, R.o1(i)));
  for (int i = 0; i < R.o2.size(); ++i)
    if (m2(i))
      ctx.check(R.o2(i) == 0, "fixed-moved", what + fmt(": fixed DH parameter %d of the target chain moved by %.3g", i, R.o2(i)));
  static const char* nm[] = { "camera mount", "target mount", "base" };
  for (int k = 0; k < 3; ++k)
  {
    Vector3d ga = aaOf(gp[k]);
    for (int i = 0; i < 3; ++i)
    {
      if (fixedAt(2 + 2 * k, i))
        ctx.check(rp[k].translation()[i] == gp[k].translation()[i], "fixed-moved", what + fmt(": fixed position %d of the %s moved by %.3g", i, nm[k], rp[k].translation()[i] - gp[k].translation()[i]));
      if (fixedAt(3 + 2 * k, i) && R.a[k].norm() < 3)
        ctx.check(std::abs(R.a[k][i] - ga[i]) < 1e-9, "fixed-moved", what + fmt(": fixed rotation %d of the %s moved by %.3g", i, nm[k], R.a[k][i] - ga[i]));
    }
  }
  std::string st = what + fmt(", initial cost %.3g, final cost %.3g, converged %d", c0, cf, (int)conv);
  double worst = 0, worstT = 0;
  for (std::size_t i = 0; i < u1.size(); ++i)
  {
    Isometry3d a = (c1.fk(u1[i], R.o1) * rp[0]).inverse() * rp[2] * c2.fk(u2[i], R.o2) * rp[1];
    PoseErr e = poseErr(a, predict(T, u1[i], u2[i]));
    worst = std::max(worst, e.ang), worstT = std::max(worstT, e.trans);
  }
  if (mode < 2)
  {
    ctx.check(conv, "not-converged", st);
    double lim = pix ? 1e-7 : 1e-11 * std::max(1.0, weight * weight);
    ctx.check(cf < lim, "cost", st);
    double tol = std::max(1e-5, 10 * amplify * std::sqrt(2 * cf * nres) / (pix ? cam.fx / 0.3 : std::min(1.0, weight)));
    ctx.note("predictions", (double)u1.size());
    ctx.check(worst < tol && worstT < tol, "prediction-wrong", st + fmt(": prediction off by %.3g rad, %.3g m (tolerance %.2g)", worst, worstT, tol));
  }
  if (sched && mode != 0)
  {
    // under the prior the parameters themselves are determined
    if (mode == 2)
      ctx.note("schedule-compared", 1);
    if (ref.threw || ref.num.size() != got.num.size())
      ctx.fail("schedule", what + ": alone it gave " + (ref.threw ? "error " + ref.err : "something else"));
    ctx.check(ref.str == got.str, "schedule-names", what + ": the covariance names parameters in an order that depends on the schedule or on the heap");
    ctx.check(ref.num[0] == got.num[0] || std::abs(ref.num[2] - got.num[2]) < 1e-3 * ref.num[2], "schedule", what + ": converged or not depends on the schedule");
    for (int i = 1; i < 3; ++i)
      ctx.check(std::abs(ref.num[i] - got.num[i]) <= 1e-4 * std::abs(ref.num[i]) + (mode == 1 ? 1e-9 : 1e-12), "schedule", what + fmt(": cost %.12g under this schedule, %.12g otherwise", got.num[i], ref.num[i]));
  }
}
static Registrar reg({ "C05", gen, run, "distinct interleavings and delivery orders" });
