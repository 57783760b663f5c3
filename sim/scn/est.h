// Every estimator of the library as one kind of object: an unknown vector x in the parameters the library reports, an
// independent residual model of the measurements that were delivered, and a call into the real code.
#pragma once
#include "world.h"
#include "dh.h"
#include "adapt/adapt.h"
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/covariance_types.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <rct_optimizations/pnp.h>

namespace est
{
using namespace world;
enum Kind
{
  HE2,      // hand-eye, pixels
  HE3,      // hand-eye, points
  MSC,      // several static cameras, target on the wrist
  MSCO,     // several static cameras, target poses unknown
  MSCW,     // several static cameras in one rigid set
  MPNP,     // target pose from several cameras
  PNP2,     // target pose, pixels
  PNP3,     // target pose, points
  CIRCLE,
  INTR,     // intrinsic calibration
  DH2,      // kinematic calibration, pixels
  DH6,      // kinematic calibration, poses
  KINDS
};
inline const char* kindName(int k)
{
  static const char* n[] = { "hand-eye 2D", "hand-eye 3D", "multi-camera", "camera-only", "wrist-only", "multi-camera PnP", "PnP", "PnP 3D", "circle fit", "intrinsics", "kinematics 2D", "kinematics 6D" };
  return n[k];
}
struct Out
{
  bool threw = false;
  std::string err;
  bool conv = false;
  double c0 = 0, c1 = 0;
  VectorXd x;
  bool hasCov = false;
  rct::CovarianceResult cov;
  std::string shape;  // what is wrong with the form of the answer, if anything
};
struct Prob
{
  int kind = 0;
  bool guessKnown = true;             // the starting point of the solver is the caller's guess
  VectorXd truth, guess;
  std::vector<std::string> names;     // name of each unknown in the covariance report
  std::vector<bool> active;           // unknown appears in the problem (has measurements, is not fixed)
  std::vector<std::pair<int, bool>> rot;  // offsets of the rotation vectors in x
  std::function<VectorXd(const VectorXd&)> resid;
  std::function<double(const VectorXd&, bool)> depth;  // smallest distance in front of a camera (pixel kinds); or smallest distance from the camera's plane on either side
  std::function<Out()> solve;
  std::function<VectorXd()> start;    // where a solver with a first step of its own starts (empty: cannot be told)
  int nmeas = 0;
  double unit = 1;       // size of a residual that is numerically nothing: about 1e-9 of it
  std::string what;
  bool ready = true;     // the simulated world could be built
  double cost(const VectorXd& x) const
  {
    VectorXd r = resid(x);
    return 0.5 * r.squaredNorm() / double(r.size());
  }
  std::vector<int> free() const
  {
    std::vector<int> f;
    for (std::size_t i = 0; i < active.size(); ++i)
      if (active[i])
        f.push_back((int)i);
    return f;
  }
};
static const char* const POSE[6] = { "rx", "ry", "rz", "x", "y", "z" };

// ---------------------------------------------------------------- plan
struct Opt
{
  double guessAng = 0.1, guessTrans = 0.05, wild = 0;  // wild: chance of a far-off guess
  double corrupt = 0;                                  // intensity of corruption
  double noiseMax = 1;                                 // pixels
  bool below = false;                                  // keep rotations away from half a turn
  double lost = 0.02;                                  // chance that everything is lost
};
inline void gen(Rng& r, sim::Plan& p, const Opt& o, int kind)
{
  bool multi = kind == MSC || kind == MSCO || kind == MSCW || kind == MPNP;
  bool single = kind == MPNP || kind == PNP2 || kind == PNP3;
  int nc = multi ? r.range(1, 4) : 1;
  int nv = single ? 1 : kind == CIRCLE ? 1 : kind == INTR ? r.range(4, 8) : kind == DH6 ? r.range(8, 24) : kind == MSC || kind == MSCO || kind == MSCW ? r.range(3, 8) : r.range(5, 12);
  if (multi && r.chance(0.04))
    nc = r.range(5, 12);
  else if (nv > 1 && kind != INTR && r.chance(0.03))
    nv *= r.range(3, 6);
  bool big = (single || kind == CIRCLE) && r.chance(0.08);  // many features
  int nf = kind == CIRCLE ? (big ? r.range(50, 300) : r.range(4, 50)) : kind == INTR ? 30 : kind == DH6 ? 1 : kind == DH2 ? 12 : 16;
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("kind", kind).set("cams", nc).set("views", nv).set("feats", nf).set("planar", (int)r.chance(0.6))
      .set("fix", (int)r.chance(0.6)).set("below", (int)o.below).set("n1", r.range(0, 2)).set("n2", r.range(0, 2)).set("weight", r.chance(0.5) ? 1.0 : r.uni(0.1, 100))
      .set("masks", r.range(0, 3)).set("big", (int)big).set("sd2", r.chance(0.5) ? 1.0 : std::pow(10, r.uni(-1, 1)));
  double noise = o.noiseMax * (r.chance(0.15) ? 0.0 : r.chance(0.2) ? std::pow(10, r.uni(-4, -1)) : r.uni(0.05, 1));
  p.add("noise").set("seed", (unsigned long)(r.u64() >> 24)).set("px", noise);
  bool wild = r.chance(o.wild);
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("ang", r.chance(0.1) ? 0.0 : wild ? r.uni(0.2, 1.5) : r.uni(0.005, o.guessAng))
      .set("trans", r.chance(0.1) ? 0.0 : wild ? r.uni(0.1, r.chance(0.3) ? 4 : 1) : r.uni(0.002, o.guessTrans));
  genFaults(r, p, nc, nv, nf, r.chance(0.2) ? 0.0 : r.uni(0.1, 1.0), kind == INTR || single ? std::min(nf, 8) : kind == CIRCLE ? 3 : kind == DH6 ? 1 : 4, true, true);
  for (int c = 0; c < nc; ++c)
    if (multi && r.chance(0.1))
      p.add("blackout", true).set("cam", c);
  if (r.chance(o.lost))
    for (int c = 0; c < nc; ++c)
      p.add("blackout", true).set("cam", c);
  // corruption: what arrives is not what the camera saw
  double k = r.chance(0.3) ? 0 : o.corrupt * r.uni(0.2, 1);
  for (int c = 0; c < nc; ++c)
    for (int v = 0; v < nv; ++v)
    {
      while (r.chance(0.4 * k))
        p.add("shift", true).set("cam", c).set("view", v).set("feat", r.range(0, nf - 1)).set("dx", r.uni(-1, 1) * std::pow(10, r.uni(0, 2.3))).set("dy", r.uni(-1, 1) * std::pow(10, r.uni(0, 2.3)));
      if (r.chance(0.2 * k))
        p.add("swapf", true).set("cam", c).set("view", v).set("feat", r.range(0, nf - 1)).set("with", r.range(0, nf - 1));
      if (nv > 1 && r.chance(0.06 * k))
        p.add("swapv", true).set("cam", c).set("view", v).set("with", r.range(0, nv - 1));
    }
}

// a pose whose angle-axis form is unique and stays so
inline Isometry3d tame(Isometry3d p, bool below)
{
  if (!below)
    return p;
  Vector3d a = dh::aaOf(p);
  if (a.norm() > 2.3)
    p.linear() = rotVec(a / a.norm() * (a.norm() - 1.2));
  return p;
}
struct Meas
{
  int cam, view;
  Vector3d pt;
  Vector2d px;
  Vector3d p3;
};
inline Prob build(const sim::Plan& p, sim::Ctx& ctx)
{
  const Item& s = p.need("setup");
  auto P = std::make_shared<Prob>();
  Prob out;
  Rng r((uint64_t)s.i("seed"), "world");
  int kind = (int)s.i("kind"), nc = (int)s.i("cams"), nv = (int)s.i("views"), nfWanted = (int)s.i("feats");
  bool below = s.i("below"), fix = s.i("fix");
  const Item& g = p.need("guess");
  Rng rg((uint64_t)g.i("seed"), "guess");
  double ga = g.d("ang"), gt = g.d("trans");
  Rng rn((uint64_t)p.need("noise").i("seed"), "noise");
  double np = p.need("noise").d("px");
  out.kind = kind;
  std::vector<bool> black(nc, false);
  for (auto* it : p.all("blackout"))
    if (it->i("cam") < nc)
      black[it->i("cam")] = true;

  // ------------------------------------------------------------ circle
  if (kind == CIRCLE)
  {
    double scale = std::pow(10.0, r.uni(-0.5, 2)), rad = scale * r.uni(0.3, 3), cx = scale * r.uni(-4, 4), cy = scale * r.uni(-4, 4);
    double arc = r.uni(1.5, 2 * M_PI), a0 = r.uni(-M_PI, M_PI);
    std::vector<Vector2d> pts;
    for (int i = 0; i < nfWanted; ++i)
    {
      double a = a0 + arc * r.u01(), q = rad + 0.02 * np * rad * rn.gauss();
      pts.push_back(Vector2d(cx + q * std::cos(a), cy + q * std::sin(a)));
    }
    for (auto& it : p.items)
      if (it.op == "shift")
      {
        pts[it.i("feat")] += 0.01 * rad * Vector2d(it.d("dx"), it.d("dy"));
        ctx.fault("measurement-corrupted");
      }
    auto q = deliver(p, ctx, 0, 1, nfWanted, 3);
    auto obs = std::make_shared<std::vector<Vector2d>>();
    if (!black[0])
      for (auto& d : q)
        for (int f : d.feats)
          obs->push_back(pts[f]);
    out.nmeas = (int)obs->size();
    out.truth = Vector3d(cx, cy, rad);
    out.guess = Vector3d(cx + rad * rg.uni(-2, 2) * ga, cy + rad * rg.uni(-2, 2) * ga, rad * std::max(0.05, 1 + rg.uni(-2, 2) * ga));
    out.names = { "x", "y", "r" };
    out.active.assign(3, !obs->empty());
    out.unit = rad * rad + cx * cx + cy * cy;
    out.resid = [obs](const VectorXd& x) {
      VectorXd o(obs->size());
      for (std::size_t i = 0; i < obs->size(); ++i)
        o[i] = x[2] * x[2] - std::pow((*obs)[i].x() - x[0], 2) - std::pow((*obs)[i].y() - x[1], 2);
      return o;
    };
    out.depth = [](const VectorXd&, bool) { return 1.0; };
    VectorXd g0 = out.guess;
    out.solve = [obs, g0] {
      Out o;
      rct::CircleFitProblem pr;
      pr.observations = *obs;
      pr.x_center_initial = g0[0], pr.y_center_initial = g0[1], pr.radius_initial = g0[2];
      try
      {
        auto z = rct::optimize(pr);
        o.conv = z.converged, o.c0 = z.initial_cost_per_obs, o.c1 = z.final_cost_per_obs;
        o.x = Vector3d(z.x_center, z.y_center, z.radius);
        o.hasCov = true, o.cov = z.covariance;
      }
      catch (const std::exception& e)
      {
        o.threw = true, o.err = e.what();
      }
      return o;
    };
    out.what = sim::fmt("circle fit, %d points", out.nmeas);
    return out;
  }

  // ------------------------------------------------------------ kinematic chains
  if (kind == DH2 || kind == DH6)
  {
    bool pix = kind == DH2;
    int n1 = (int)s.i("n1"), n2 = (int)s.i("n2");
    if (n1 + n2 == 0)
      n1 = 1;
    auto c1 = std::make_shared<dh::Chain>(dh::randChain(r, n1)), c2 = std::make_shared<dh::Chain>(dh::randChain(r, n2));
    Camera cam = randCamera(r);
    auto tgt = std::make_shared<TargetGeom>();
    tgt->spacing = r.uni(0.02, 0.06);
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 4; ++j)
        tgt->pts.push_back(Vector3d(j * tgt->spacing, i * tgt->spacing, r.chance(0.5) ? 0 : r.uni(-1, 1) * tgt->spacing));
    Eigen::Array<bool, Eigen::Dynamic, 4> m1(n1, 4), m2(n2, 4);
    double pm = s.i("masks") == 0 ? 0.0 : s.i("masks") == 1 ? 0.3 : s.i("masks") == 2 ? 0.7 : r.u01();
    for (int i = 0; i < m1.size(); ++i)
      m1(i) = r.chance(pm);
    for (int i = 0; i < m2.size(); ++i)
      m2(i) = r.chance(pm);
    std::array<std::vector<int>, 8> mask;
    mask[0] = rct_sim_adapt::mask(m1);
    mask[1] = rct_sim_adapt::mask(m2);
    for (int b = 2; b < 8; ++b)
      if (r.chance(0.3))
        mask[b] = { 0, 1, 2 };
      else
        for (int k = 0; k < 3; ++k)
          if (r.chance(pm * 0.5))
            mask[b].push_back(k);
    auto fixedAt = [&](int b, int k) { return std::find(mask[b].begin(), mask[b].end(), k) != mask[b].end(); };
    dh::Unknowns T;
    T.o1 = Eigen::MatrixX4d::Zero(n1, 4), T.o2 = Eigen::MatrixX4d::Zero(n2, 4);
    Isometry3d P0 = tame(mountPose(r, 0.2), true), P1 = tame(mountPose(r, 0.2), true), P2;
    VectorXd mid1 = dh::joints(r, *c1, 1.5, VectorXd::Zero(n1)), mid2 = dh::joints(r, *c2, 1.5, VectorXd::Zero(n2));
    for (int i = 0; i < 40; ++i)
    {
      P2 = c1->fk(mid1, T.o1) * P0 * lookAt(r, cam, *tgt, 0.5, 1.6, 2.5) * P1.inverse() * c2->fk(mid2, T.o2).inverse();
      if (dh::aaOf(P2).norm() < 2.5)
        break;
    }
    if (dh::aaOf(P2).norm() > 2.6)
      ctx.skip("base-near-half-turn");
    T.t[0] = P0.translation(), T.a[0] = dh::aaOf(P0), T.t[1] = P1.translation(), T.a[1] = dh::aaOf(P1), T.t[2] = P2.translation(), T.a[2] = dh::aaOf(P2);
    dh::Unknowns G = T;
    double da = std::min(ga, 0.1), dt = std::min(gt, 0.05);
    for (int k = 0; k < 3; ++k)
      for (int i = 0; i < 3; ++i)
      {
        if (!fixedAt(2 + 2 * k, i))
          G.t[k][i] += rg.uni(-1, 1) * dt;
        if (!fixedAt(3 + 2 * k, i))
          G.a[k][i] += rg.uni(-1, 1) * da;
      }
    bool all = !pix;
    auto q1 = std::make_shared<std::vector<VectorXd>>();
    auto q2 = std::make_shared<std::vector<VectorXd>>();
    std::vector<Isometry3d> ct;
    std::vector<std::vector<Vector2d>> px;
    for (int tries = 0; (int)ct.size() < nv && tries < 300; ++tries)
    {
      VectorXd a = dh::joints(r, *c1, all ? 3.0 : 0.35, mid1), b = dh::joints(r, *c2, all ? 3.0 : 0.35, mid2);
      Isometry3d c = (c1->fk(a, T.o1) * P0).inverse() * P2 * c2->fk(b, T.o2) * P1;
      if (pix)
      {
        bool ok = true;
        for (auto& x : tgt->pts)
          ok = ok && cam.sees(c * x) && (c * x).z() > 0.15;
        if (!ok)
          continue;
        px.emplace_back();
        for (auto& x : tgt->pts)
          px.back().push_back(cam.project(c * x) + np * Vector2d(rn.gauss(), rn.gauss()));
      }
      q1->push_back(a), q2->push_back(b), ct.push_back(c * randPose(rn, 0.01 * np, 0.01 * np));
    }
    nv = (int)ct.size();
    if (nv < 2)
      ctx.skip("target-rarely-in-view");
    for (auto& it : p.items)
      if (it.op == "shift" && it.i("view") < nv)
      {
        if (pix)
          px[it.i("view")][it.i("feat") % 12] += Vector2d(it.d("dx"), it.d("dy"));
        else
          ct[it.i("view")].translation() += 0.001 * Vector3d(it.d("dx"), it.d("dy"), 0);
        ctx.fault("measurement-corrupted");
      }
    auto q = std::make_shared<std::vector<Delivery>>(deliver(p, ctx, 0, nv, pix ? 12 : 1, pix ? 3 : 1));
    if (black[0])
      q->clear(), ctx.fault("camera-blackout");
    double sd = 1e-3, sd2 = sd * s.d("sd2", 1.0), weight = s.d("weight");
    auto pa = std::make_shared<rct::KinematicCalibrationProblem2D3D>(c1->make("c", 10), c2->make("t", 50));
    auto pb = std::make_shared<rct::KinematicCalibrationProblemPose6D>(c1->make("c", 10), c2->make("t", 50));
    auto common = [&](auto& pr) {
      pr.camera_mount_to_camera_guess = G.pose(0), pr.target_mount_to_target_guess = G.pose(1), pr.camera_base_to_target_base_guess = G.pose(2);
      pr.mask = mask;
      pr.camera_chain_offset_stdev = sd, pr.target_chain_offset_stdev = sd2;
    };
    common(*pa), common(*pb);
    pa->intr = cam.intr();
    int nm = 0;
    for (auto& d : *q)
    {
      if (pix)
      {
        rct::KinObservation2D3D o;
        o.camera_chain_joints = (*q1)[d.view], o.target_chain_joints = (*q2)[d.view];
        o.correspondence_set = corr2(d, px[d.view], *tgt);
        nm += (int)d.feats.size();
        pa->observations.push_back(o);
      }
      else
      {
        rct::KinematicMeasurement o;
        o.camera_chain_joints = (*q1)[d.view], o.target_chain_joints = (*q2)[d.view], o.camera_to_target = ct[d.view];
        pb->observations.push_back(o);
        ++nm;
      }
    }
    out.nmeas = nm;
    out.truth = dh::flat(T), out.guess = dh::flat(G);
    static const char* D[4] = { "_d", "_theta", "_r", "_alpha" };
    for (int k = 0; k < 2; ++k)
    {
      int n = k ? n2 : n1;
      for (int c = 0; c < 4; ++c)
        for (int i = 0; i < n; ++i)
        {
          out.names.push_back(std::string(k ? "t" : "c") + std::to_string(i) + D[c]);
          out.active.push_back(nm && !(k ? m2 : m1)(i, c));
        }
    }
    static const char* M[3] = { "camera_mount_to_camera", "target_mount_to_target", "camera_base_to_target_base" };
    int off = 4 * (n1 + n2);
    for (int k = 0; k < 3; ++k)
    {
      for (int i = 0; i < 6; ++i)
      {
        out.names.push_back(std::string(k == 2 ? pa->label_camera_base_to_target : M[k]) + "_" + POSE[(i + 3) % 6]);
        out.active.push_back(nm && !fixedAt(2 + 2 * k + i / 3, i % 3));
      }
      out.rot.push_back({ off + 6 * k + 3, true });
    }
    out.unit = pix ? cam.fx : 1;
    auto like = std::make_shared<dh::Unknowns>(T);
    bool p1 = false, p2 = false;
    for (int i = 0; i < m1.size(); ++i)
      p1 = p1 || !m1(i);
    for (int i = 0; i < m2.size(); ++i)
      p2 = p2 || !m2(i);
    auto predict = [=](const dh::Unknowns& u, int v) { return Isometry3d((c1->fk((*q1)[v], u.o1) * u.pose(0)).inverse() * u.pose(2) * c2->fk((*q2)[v], u.o2) * u.pose(1)); };
    out.resid = [=](const VectorXd& x) {
      dh::Unknowns u = dh::unflat(x, *like);
      std::vector<double> o;
      for (auto& d : *q)
      {
        Isometry3d c = predict(u, d.view);
        if (pix)
          for (int f : d.feats)
          {
            Vector2d e = cam.project(c * tgt->pts[f]) - px[d.view][f];
            o.push_back(e.x()), o.push_back(e.y());
          }
        else
        {
          Isometry3d E = ct[d.view] * c.inverse();
          Eigen::AngleAxisd a(E.linear());
          Vector3d e = E.translation(), w = weight * a.angle() * a.axis();
          for (int i = 0; i < 3; ++i)
            o.push_back(e[i]);
          for (int i = 0; i < 3; ++i)
            o.push_back(w[i]);
        }
      }
      if (p1)
        for (int i = 0; i < u.o1.size(); ++i)
          o.push_back(u.o1(i) / sd);
      if (p2)
        for (int i = 0; i < u.o2.size(); ++i)
          o.push_back(u.o2(i) / sd2);
      return VectorXd(Eigen::Map<VectorXd>(o.data(), (long)o.size()));
    };
    out.depth = [=](const VectorXd& x, bool either) {
    auto D = [&](double v) { return either ? std::abs(v) : v; };
      dh::Unknowns u = dh::unflat(x, *like);
      double m = 1e9;
      if (pix)
        for (auto& d : *q)
          for (int f : d.feats)
            m = std::min(m, D((predict(u, d.view) * tgt->pts[f]).z()));
      return m;
    };
    VectorXd g0 = out.guess;
    out.solve = [=] {
      Out o;
      try
      {
        rct::KinematicCalibrationResult z;
        if (pix)
          z = rct::optimize(*pa);
        else
        {
          ceres::Solver::Options opt;
          opt.max_num_iterations = 150;
          opt.logging_type = ceres::SILENT;
          z = rct::optimize(*pb, weight, opt);
        }
        o.conv = z.converged, o.c0 = z.initial_cost_per_obs, o.c1 = z.final_cost_per_obs;
        dh::Unknowns u = *like;
        if (z.camera_chain_dh_offsets.rows() != u.o1.rows() || z.target_chain_dh_offsets.rows() != u.o2.rows())
          o.shape = "offsets for another number of joints";
        else
        {
          u.o1 = z.camera_chain_dh_offsets, u.o2 = z.target_chain_dh_offsets;
          const Isometry3d* ps[3] = { &z.camera_mount_to_camera, &z.target_mount_to_target, &z.camera_base_to_target_base };
          for (int k = 0; k < 3; ++k)
            u.t[k] = ps[k]->translation(), u.a[k] = dh::aaOf(*ps[k]);
          o.x = dh::flat(u);
        }
        o.hasCov = true, o.cov = z.covariance;
      }
      catch (const std::exception& e)
      {
        o.threw = true, o.err = e.what();
      }
      return o;
    };
    out.what = sim::fmt("%s, %d + %d joints, %d measurements", kindName(kind), n1, n2, nm);
    return out;
  }

  // ------------------------------------------------------------ cameras and targets
  auto tgt = std::make_shared<TargetGeom>(s.i("big", 0) ? randTarget(r, s.i("planar"), 14, 20) : randTarget(r, s.i("planar"), 5, 6));
  bool pts3 = kind == HE3 || kind == PNP3;
  auto cam = std::make_shared<std::vector<Camera>>(nc);
  for (auto& c : *cam)
    c = randCamera(r);
  int nf;
  // cameraPoint(x, meas): the reference model of the geometry
  std::function<Vector3d(const VectorXd&, int, int, const Vector3d&)> where;
  std::vector<Isometry3d> A(nv), B(nv), b2c(nc), b2t(nv), cg(nc), tg(nv), wrist(nv);
  Isometry3d tool, wg = Isometry3d::Identity(), base, baseGuess;
  VectorXd x0, xg;
  if (kind == INTR)
  {
    Camera& c = (*cam)[0];
    c.fx = r.uni(0.8, 1.2) * c.w;
    c.fy = c.fx * r.uni(0.96, 1.04);
    c.dist[0] = r.uni(-0.2, 0.2), c.dist[1] = r.uni(-0.1, 0.1), c.dist[2] = r.uni(-0.004, 0.004), c.dist[3] = r.uni(-0.004, 0.004), c.dist[4] = r.uni(-0.05, 0.05);
    tgt->pts.clear();
    int rows = 5, cols = 6;
    double sp = r.uni(0.03, 0.05);
    bool planar = s.i("planar");
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j)
        tgt->pts.push_back(Vector3d((j - (cols - 1) * 0.5) * sp, (i - (rows - 1) * 0.5) * sp, planar ? 0 : r.uni(-1, 1) * sp));
    for (int i = 0; i < nv; ++i)
    {
      double tilt = r.uni(0.25, 0.65), dir = r.uni(-M_PI, M_PI);
      Matrix3d R = rotVec(Vector3d(std::cos(dir), std::sin(dir), 0) * tilt) * rotVec(Vector3d(0, 0, r.uni(-0.8, 0.8)));
      double half = 0.5 * std::min(c.w, c.h) / c.fx, d = tgt->radius() / half * r.uni(0.9, 1.2) + 0.2 * tgt->radius();
      b2t[i] = makePose(R, Vector3d(r.uni(-0.4, 0.4) * half * d, r.uni(-0.4, 0.4) * half * d, d));
      tg[i] = b2t[i] * randPose(rg, std::min(ga, 0.05), std::min(gt, 0.02));
    }
  }
  nf = (int)tgt->pts.size();
  Isometry3d ctr = makePose(Matrix3d::Identity(), tgt->center());
  auto setPose = [](VectorXd& x, int o, const Isometry3d& q) { x.segment<6>(o) = poseVec(q); };
  if (kind == HE2 || kind == HE3)
  {
    Isometry3d cm = tame(mountPose(r, 0.6), below), tm = tame(mountPose(r, 0.8), below), fixedFrame = randPose(r, M_PI, 1.0);
    int mount = r.range(0, 2);
    for (int i = 0; i < nv; ++i)
    {
      Isometry3d ct = lookAt(r, (*cam)[0], *tgt, 0.7);
      if (mount == 0)
        B[i] = fixedFrame, A[i] = fixedFrame * tm * ct.inverse() * cm.inverse();
      else
        A[i] = mount == 1 ? fixedFrame : randPose(r, 2.0, 1.0), B[i] = A[i] * cm * ct * tm.inverse();
    }
    x0.resize(12), xg.resize(12);
    setPose(x0, 0, cm), setPose(x0, 6, tm);
    setPose(xg, 0, perturb(cm, rg, ga, gt)), setPose(xg, 6, tm * ctr * randPose(rg, ga, gt) * ctr.inverse());
    where = [=](const VectorXd& x, int, int v, const Vector3d& t) { return Vector3d(vecPose(x, 0).inverse() * (A[v].inverse() * (B[v] * (vecPose(x, 6) * t)))); };
    for (int o : { 0, 6 })
      for (int i = 0; i < 6; ++i)
        out.names.push_back(std::string(o ? "target_mount_to_target_" : "camera_mount_to_camera_") + POSE[i]);
    out.rot = { { 0, true }, { 6, true } };
  }
  else if (kind == MSC || kind == MSCO || kind == MSCW)
  {
    double ws = tgt->radius() * 1.5;
    Vector3d centre = unit(r) * r.uni(0, 1.0);
    for (int c = 0; c < nc; ++c)
    {
      Camera& k = (*cam)[c];
      double half = std::min({ k.cx / k.fx, (k.w - k.cx) / k.fx, k.cy / k.fy, (k.h - k.cy) / k.fy });
      double reach = ws + tgt->radius() * 2.1, d = reach / half * r.uni(0.9, 1.4) + reach;
      Vector3d dir = (Vector3d(0, 0, -1) + 0.9 * unit(r)).normalized();
      Matrix3d R;
      Vector3d z = -dir, x = z.cross(Vector3d(0.1, -1, 0.2)).normalized();
      if (!below)
        x = -x;
      R.col(0) = x, R.col(1) = z.cross(x), R.col(2) = z;
      b2c[c] = makePose(R * rotVec(Vector3d(0, 0, below ? r.uni(-0.9, 0.9) : r.uni(-M_PI, M_PI))), centre + dir * d);
      if (below && dh::aaOf(b2c[c]).norm() > 2.5)
        ctx.skip("camera-near-half-turn");
    }
    tool = tame(mountPose(r, 0.4), below);
    for (int i = 0; i < nv; ++i)
    {
      Matrix3d R = rotVec(unit(r) * r.uni(0.05, 0.9));
      if (!below)
        R = R * rotVec(Vector3d(0, 0, r.uni(-3, 3)));
      b2t[i] = makePose(R, centre + unit(r) * r.uni(0, ws) - R * tgt->center());
      wrist[i] = b2t[i] * tool.inverse();
    }
    auto about = [&](const Isometry3d& Q, const Vector3d& c0) {
      Isometry3d C = makePose(Matrix3d::Identity(), c0);
      return Isometry3d(C * randPose(rg, ga, gt) * C.inverse() * Q);
    };
    for (int c = 0; c < nc; ++c)
      cg[c] = about(b2c[c], centre);
    for (int i = 0; i < nv; ++i)
      tg[i] = about(b2t[i], b2t[i] * tgt->center());
    wg = tool * ctr * randPose(rg, ga, gt) * ctr.inverse();
    if (kind == MSC)
    {
      x0.resize(6 * nc + 6), xg.resize(6 * nc + 6);
      for (int c = 0; c < nc; ++c)
      {
        setPose(x0, 6 * c, b2c[c]), setPose(xg, 6 * c, cg[c]);
        for (int i = 0; i < 6; ++i)
          out.names.push_back("base_to_camera" + std::to_string(c) + "_" + POSE[i]);
        out.rot.push_back({ 6 * c, true });
      }
      setPose(x0, 6 * nc, tool), setPose(xg, 6 * nc, wg);
      for (int i = 0; i < 6; ++i)
        out.names.push_back(std::string("wrist_to_target_") + POSE[i]);
      out.rot.push_back({ 6 * nc, true });
      where = [=](const VectorXd& x, int c, int v, const Vector3d& t) { return Vector3d(vecPose(x, 6 * c).inverse() * (wrist[v] * (vecPose(x, 6 * nc) * t))); };
    }
    else if (kind == MSCO)
    {
      if (fix)
        cg[0] = r.chance(0.5) ? b2c[0] : cg[0];  // the fixed camera need not be where the caller thinks it is
      x0.resize(6 * (nc + nv)), xg.resize(6 * (nc + nv));
      for (int c = 0; c < nc; ++c)
        setPose(x0, 6 * c, fix && c == 0 ? cg[c] : b2c[c]), setPose(xg, 6 * c, cg[c]);
      for (int i = 0; i < nv; ++i)
        setPose(x0, 6 * (nc + i), b2t[i]), setPose(xg, 6 * (nc + i), tg[i]);
      where = [=](const VectorXd& x, int c, int v, const Vector3d& t) { return Vector3d(vecPose(x, 6 * c).inverse() * (vecPose(x, 6 * (nc + v)) * t)); };
    }
    else
    {
      Isometry3d corr = about(Isometry3d::Identity(), centre);
      for (int c = 0; c < nc; ++c)
        cg[c] = corr.inverse() * b2c[c];
      x0.resize(12), xg.resize(12);
      setPose(x0, 0, corr), setPose(xg, 0, Isometry3d::Identity());
      setPose(x0, 6, tool), setPose(xg, 6, wg);
      where = [=](const VectorXd& x, int c, int v, const Vector3d& t) { return Vector3d((vecPose(x, 0) * cg[c]).inverse() * (wrist[v] * (vecPose(x, 6) * t))); };
    }
  }
  else if (kind == MPNP || kind == PNP2 || kind == PNP3)
  {
    for (int c = 0; c < nc; ++c)
    {
      Isometry3d ct = lookAt(r, (*cam)[c], *tgt, 0.8, 1.15, 2.0, below ? 0.9 : M_PI);
      if (c == 0)
      {
        b2c[0] = kind == MPNP ? randPose(r, below ? 0.8 : M_PI, 2) : Isometry3d::Identity();
        base = b2c[0] * ct;
      }
      else
        b2c[c] = base * ct.inverse();
    }
    b2t[0] = base;
    baseGuess = base * ctr * randPose(rg, ga, gt) * ctr.inverse();
    x0 = poseVec(base), xg = poseVec(baseGuess);
    where = [=](const VectorXd& x, int c, int, const Vector3d& t) { return Vector3d(b2c[c].inverse() * (vecPose(x, 0) * t)); };
    for (int i = 0; i < 6; ++i)
      out.names.push_back(std::string("camera_to_target_") + POSE[i]);
    out.rot.push_back({ 0, true });
  }
  // ------------------------------------------------------------ measurements
  std::vector<std::vector<std::vector<Vector2d>>> px(nc, std::vector<std::vector<Vector2d>>(nv));
  std::vector<std::vector<Vector3d>> p3(nv);
  for (int c = 0; c < nc; ++c)
    for (int v = 0; v < nv; ++v)
      for (auto& t : tgt->pts)
      {
        Vector3d w = kind == INTR ? Vector3d(b2t[v] * t) : where(x0, c, v, t);
        if (kind == MSCO)
          w = b2c[c].inverse() * (b2t[v] * t);
        if (!pts3 && w.z() < 0.05)
          ctx.skip("behind");
        px[c][v].push_back((*cam)[c].project(w) + np * Vector2d(rn.gauss(), rn.gauss()));
        if (c == 0)
          p3[v].push_back(w + 0.003 * np * Vector3d(rn.gauss(), rn.gauss(), rn.gauss()));
      }
  for (auto& it : p.items)
  {
    if (!it.has("cam") || it.i("cam") >= nc || !it.has("view") || it.i("view") >= nv)
      continue;
    int c = (int)it.i("cam"), v = (int)it.i("view");
    if (it.op == "shift")
    {
      int f = (int)it.i("feat") % nf;
      px[c][v][f] += Vector2d(it.d("dx"), it.d("dy"));
      if (pts3)
        p3[v][f] += 0.002 * Vector3d(it.d("dx"), it.d("dy"), it.d("dx"));
      ctx.fault("measurement-corrupted");
    }
    else if (it.op == "swapf")
    {
      int f = (int)it.i("feat") % nf, w = (int)it.i("with") % nf;
      std::swap(px[c][v][f], px[c][v][w]);
      if (pts3)
        std::swap(p3[v][f], p3[v][w]);
      ctx.fault("features-confused");
    }
    else if (it.op == "swapv" && it.i("with") < nv)
    {
      std::swap(px[c][v], px[c][it.i("with")]);
      if (pts3)
        std::swap(p3[v], p3[it.i("with")]);
      ctx.fault("views-confused");
    }
  }
  int keep = kind == INTR || kind == MPNP || kind == PNP2 || kind == PNP3 ? 4 : 1;
  auto q = std::make_shared<std::vector<std::vector<Delivery>>>(nc);
  for (int c = 0; c < nc; ++c)
  {
    auto& l = (*q)[c];
    l = deliver(p, ctx, c, nv, nf, keep);
    if (black[c])
      l.clear(), ctx.fault("camera-blackout");
    if (kind == MSCO || kind == MSCW)  // one slot per camera and view
    {
      std::vector<Delivery> u;
      for (auto& d : l)
      {
        bool dup = false;
        for (auto& e : u)
          dup |= e.view == d.view;
        if (!dup)
          u.push_back(d);
      }
      l = u;
    }
  }
  out.unit = pts3 ? 1.0 : (*cam)[0].fx;

  if (kind == INTR)
  {
    // the unknowns of the usable views follow the nine of the camera; a view is usable when its pose can be solved
    const Camera& c = (*cam)[0];
    auto pr = std::make_shared<rct::IntrinsicEstimationProblem>();
    double rel = std::min(0.02, 0.2 * ga);
    pr->intrinsics_guess.fx() = c.fx * (1 + rg.uni(-rel, rel));
    pr->intrinsics_guess.fy() = c.fy * (1 + rg.uni(-rel, rel));
    pr->intrinsics_guess.cx() = c.cx + c.w * rg.uni(-rel, rel);
    pr->intrinsics_guess.cy() = c.cy + c.h * rg.uni(-rel, rel);
    pr->use_extrinsic_guesses = true;
    std::vector<int> used;
    auto sets = std::make_shared<std::vector<rct::Correspondence2D3D::Set>>();
    int k = 0, nm = 0;
    static const char* I[9] = { "fx", "fy", "cx", "cy", "k1", "k2", "p1", "p2", "k3" };
    for (int i = 0; i < 9; ++i)
      out.names.push_back(I[i]);
    for (auto& d : (*q)[0])
    {
      auto set = corr2(d, px[0][d.view], *tgt);
      pr->image_observations.push_back(set);
      pr->extrinsic_guesses.push_back(tg[d.view]);
      if (set.size() >= 3)
      {
        sets->push_back(set), used.push_back(d.view);
        for (int i = 0; i < 6; ++i)
          out.names.push_back("pose" + std::to_string(k) + "_" + POSE[i]);
        out.rot.push_back({ 9 + 6 * ((int)sets->size() - 1), true });
        nm += (int)set.size();
      }
      ++k;
    }
    int m = (int)sets->size(), dim = 9 + 6 * m;
    out.nmeas = nm;
    out.truth = VectorXd::Zero(dim);
    out.truth.head<9>() << c.fx, c.fy, c.cx, c.cy, c.dist[0], c.dist[1], c.dist[2], c.dist[3], c.dist[4];
    for (int i = 0; i < m; ++i)
      out.truth.segment<6>(9 + 6 * i) = poseVec(b2t[used[i]]);
    out.guess = out.truth, out.guessKnown = false;
    out.active.assign(dim, nm > 0);
    out.resid = [=](const VectorXd& x) {
      Camera c;
      c.fx = x[0], c.fy = x[1], c.cx = x[2], c.cy = x[3];
      for (int i = 0; i < 5; ++i)
        c.dist[i] = x[4 + i];
      VectorXd o(2 * nm);
      int n = 0;
      for (int i = 0; i < m; ++i)
      {
        Isometry3d T = vecPose(x, 9 + 6 * i);
        for (auto& e : (*sets)[i])
        {
          o.segment<2>(n) = c.project(T * e.in_target) - e.in_image;
          n += 2;
        }
      }
      return o;
    };
    if (!p.find("swapv") && !p.find("swapf") && ga < 0.2 && nm > 0 && m == k)
    {
      // the calibration first locates each view with the camera guess: a plain solver from the guess and from the truth
      // has to agree on the place
      std::vector<Isometry3d> from;
      for (int v : used)
        from.push_back(tg[v]);
      Camera c0 = c;
      c0.fx = pr->intrinsics_guess.fx(), c0.fy = pr->intrinsics_guess.fy(), c0.cx = pr->intrinsics_guess.cx(), c0.cy = pr->intrinsics_guess.cy();
      for (int i = 0; i < 5; ++i)
        c0.dist[i] = 0;
      VectorXd truth = out.truth;
      out.start = [=] {
        VectorXd x0 = truth;
        x0.head<9>() << c0.fx, c0.fy, c0.cx, c0.cy, 0, 0, 0, 0, 0;
        for (int i = 0; i < m; ++i)
        {
          auto f = [&](const VectorXd& x) {
            Isometry3d T = vecPose(x, 0);
            VectorXd o(2 * (*sets)[i].size());
            int n = 0;
            for (auto& e : (*sets)[i])
              o.segment<2>(n) = c0.project(T * e.in_target) - e.in_image, n += 2;
            return o;
          };
          VectorXd a = poseVec(from[i]), b = truth.segment<6>(9 + 6 * i);
          for (VectorXd* x : { &a, &b })
          {
            double lambda = 1e-4;
            for (int it = 0; it < 80; ++it)
            {
              VectorXd r0 = f(*x);
              MatrixXd J = numJac(f, *x), N = J.transpose() * J;
              VectorXd g = J.transpose() * r0;
              bool better = false;
              for (int q = 0; q < 12 && !better; ++q, lambda *= 4)
              {
                MatrixXd D = N;
                D.diagonal() *= 1 + lambda;
                VectorXd y = *x - D.ldlt().solve(g);
                if (f(y).squaredNorm() < r0.squaredNorm())
                  better = true, *x = y, lambda /= 16;
              }
              if (!better)
                break;
            }
          }
          if (!(poseErr(vecPose(a, 0), vecPose(b, 0)).trans < 1e-6))
            return VectorXd();
          x0.segment<6>(9 + 6 * i) = a;
        }
        return x0;
      };
    }
    out.depth = [=](const VectorXd& x, bool either) {
    auto D = [&](double v) { return either ? std::abs(v) : v; };
      double z = 1e9;
      for (int i = 0; i < m; ++i)
        for (auto& e : (*sets)[i])
          z = std::min(z, D((vecPose(x, 9 + 6 * i) * e.in_target).z()));
      return z;
    };
    out.solve = [=] {
      Out o;
      try
      {
        auto z = rct::optimize(*pr);
        o.conv = z.converged, o.c0 = z.initial_cost_per_obs, o.c1 = z.final_cost_per_obs;
        o.hasCov = true, o.cov = z.covariance;
        if ((int)z.target_transforms.size() != m)
          o.shape = "views";
        else
        {
          o.x.resize(dim);
          o.x.head<9>() << z.intrinsics.fx(), z.intrinsics.fy(), z.intrinsics.cx(), z.intrinsics.cy(), z.distortions[0], z.distortions[1], z.distortions[2], z.distortions[3], z.distortions[4];
          for (int i = 0; i < m; ++i)
            o.x.segment<6>(9 + 6 * i) = poseVec(z.target_transforms[i]);
        }
      }
      catch (const std::exception& e)
      {
        o.threw = true, o.err = e.what();
      }
      return o;
    };
    out.what = sim::fmt("intrinsics, %d usable of %zu views", m, pr->image_observations.size());
    return out;
  }

  auto list = std::make_shared<std::vector<Meas>>();
  std::vector<bool> seenC(nc, false), seenV(nv, false);
  for (int c = 0; c < nc; ++c)
    for (auto& d : (*q)[c])
      for (int f : d.feats)
      {
        list->push_back({ c, d.view, tgt->pts[f], px[c][d.view][f], p3[d.view][f] });
        seenC[c] = true, seenV[d.view] = true;
      }
  out.nmeas = (int)list->size();
  out.truth = x0, out.guess = xg;
  out.active.assign(x0.size(), out.nmeas > 0);
  if (kind == MSC || kind == MSCO)
    for (int c = 0; c < nc; ++c)
      for (int i = 0; i < 6; ++i)
        out.active[6 * c + i] = seenC[c] && !(kind == MSCO && fix && c == 0);
  if (kind == MSCO)
    for (int v = 0; v < nv; ++v)
      for (int i = 0; i < 6; ++i)
        out.active[6 * (nc + v) + i] = seenV[v];
  out.resid = [=](const VectorXd& x) {
    int w = pts3 ? 3 : 2;
    VectorXd o(w * list->size());
    for (std::size_t k = 0; k < list->size(); ++k)
    {
      const Meas& m = (*list)[k];
      Vector3d z = where(x, m.cam, m.view, m.pt);
      if (pts3)
        o.segment<3>(3 * k) = z - m.p3;
      else
        o.segment<2>(2 * k) = (*cam)[m.cam].project(z) - m.px;
    }
    return o;
  };
  out.depth = [=](const VectorXd& x, bool either) {
    auto D = [&](double v) { return either ? std::abs(v) : v; };
    double z = 1e9;
    if (!pts3)
      for (auto& m : *list)
        z = std::min(z, D(where(x, m.cam, m.view, m.pt).z()));
    return z;
  };
  // views listed in the order of their first arrival anywhere
  std::vector<int> order;
  for (auto& l : *q)
    for (auto& d : l)
      if (std::find(order.begin(), order.end(), d.view) == order.end())
        order.push_back(d.view);
  for (int i = 0; i < nv; ++i)
    if (std::find(order.begin(), order.end(), i) == order.end())
      order.push_back(i);
  Isometry3d g0 = vecPose(xg, 0), g1 = xg.size() >= 12 ? vecPose(xg, 6) : g0;
  out.solve = [=] {
    Out o;
    VectorXd X = xg;
    auto setP = [&](int off, const Isometry3d& v) { X.segment<6>(off) = poseVec(v); };
    auto take = [&](const auto& z) { o.conv = z.converged, o.c0 = z.initial_cost_per_obs, o.c1 = z.final_cost_per_obs; };
    auto slots = [&](int c) {
      std::vector<rct::Correspondence2D3D::Set> v(nv);
      for (auto& d : (*q)[c])
        v[std::find(order.begin(), order.end(), d.view) - order.begin()] = corr2(d, px[c][d.view], *tgt);
      return v;
    };
    auto flat2 = [&](int c) {
      rct::Correspondence2D3D::Set v;
      for (auto& d : (*q)[c])
        for (auto& e : corr2(d, px[c][d.view], *tgt))
          v.push_back(e);
      return v;
    };
    try
    {
      if (kind == HE2)
      {
        rct::ExtrinsicHandEyeProblem2D3D pr;
        pr.intr = (*cam)[0].intr();
        pr.camera_mount_to_camera_guess = g0, pr.target_mount_to_target_guess = g1;
        for (auto& d : (*q)[0])
        {
          rct::Observation2D3D ob(A[d.view], B[d.view]);
          ob.correspondence_set = corr2(d, px[0][d.view], *tgt);
          pr.observations.push_back(ob);
        }
        auto z = rct::optimize(pr);
        take(z);
        setP(0, z.camera_mount_to_camera), setP(6, z.target_mount_to_target);
        o.hasCov = true, o.cov = z.covariance;
      }
      else if (kind == HE3)
      {
        rct::ExtrinsicHandEyeProblem3D3D pr;
        pr.camera_mount_to_camera_guess = g0, pr.target_mount_to_target_guess = g1;
        for (auto& d : (*q)[0])
        {
          rct::Observation3D3D ob(A[d.view], B[d.view]);
          ob.correspondence_set = corr3(d, p3[d.view], *tgt);
          pr.observations.push_back(ob);
        }
        auto z = rct::optimize(pr);
        take(z);
        setP(0, z.camera_mount_to_camera), setP(6, z.target_mount_to_target);
        o.hasCov = true, o.cov = z.covariance;
      }
      else if (kind == MSC)
      {
        rct::ExtrinsicMultiStaticCameraMovingTargetProblem pr;
        for (int c = 0; c < nc; ++c)
        {
          pr.intr.push_back((*cam)[c].intr());
          pr.base_to_camera_guess.push_back(cg[c]);
          pr.wrist_poses.emplace_back();
          pr.image_observations.emplace_back();
          for (auto& d : (*q)[c])
          {
            pr.wrist_poses[c].push_back(wrist[d.view]);
            pr.image_observations[c].push_back(corr2(d, px[c][d.view], *tgt));
          }
        }
        pr.wrist_to_target_guess = wg;
        auto z = rct::optimize(pr);
        take(z);
        if ((int)z.base_to_camera.size() != nc)
          o.shape = "one pose per camera expected";
        for (int c = 0; c < nc && o.shape.empty(); ++c)
          setP(6 * c, z.base_to_camera[c]);
        setP(6 * nc, z.wrist_to_target);
        o.hasCov = true, o.cov = z.covariance;
      }
      else if (kind == MSCO)
      {
        rct::ExtrinsicMultiStaticCameraOnlyProblem pr;
        pr.fix_first_camera = fix;
        for (int v : order)
          pr.base_to_target_guess.push_back(tg[v]);
        for (int c = 0; c < nc; ++c)
        {
          pr.intr.push_back((*cam)[c].intr());
          pr.base_to_camera_guess.push_back(cg[c]);
          pr.image_observations.push_back(slots(c));
        }
        auto z = rct::optimize(pr);
        take(z);
        if ((int)z.base_to_camera.size() != nc || (int)z.base_to_target.size() != nv)
          o.shape = "one pose per camera and per view expected";
        for (int c = 0; c < nc && o.shape.empty(); ++c)
          setP(6 * c, z.base_to_camera[c]);
        for (int v = 0; v < nv && o.shape.empty(); ++v)
          setP(6 * (nc + order[v]), z.base_to_target[v]);
      }
      else if (kind == MSCW)
      {
        rct::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem pr;
        for (int v : order)
          pr.wrist_poses.push_back(wrist[v]);
        pr.wrist_to_target_guess = wg;
        for (int c = 0; c < nc; ++c)
        {
          pr.intr.push_back((*cam)[c].intr());
          pr.base_to_camera_guess.push_back(cg[c]);
          pr.image_observations.push_back(slots(c));
        }
        auto z = rct::optimize(pr);
        take(z);
        if ((int)z.base_to_camera.size() != nc)
          o.shape = "one pose per camera expected";
        else
          setP(0, z.base_to_camera[0] * cg[0].inverse());
        setP(6, z.wrist_to_target);
      }
      else if (kind == MPNP)
      {
        rct::MultiCameraPnPProblem pr;
        pr.base_to_target_guess = baseGuess;
        for (int c = 0; c < nc; ++c)
        {
          pr.intr.push_back((*cam)[c].intr());
          pr.base_to_camera.push_back(b2c[c]);
          pr.image_observations.push_back(flat2(c));
        }
        auto z = rct::optimize(pr);
        take(z);
        setP(0, z.base_to_target);
      }
      else if (kind == PNP2)
      {
        rct::PnPProblem pr;
        pr.intr = (*cam)[0].intr();
        pr.camera_to_target_guess = baseGuess;
        pr.correspondences = flat2(0);
        auto z = rct::optimize(pr);
        take(z);
        setP(0, z.camera_to_target);
        o.hasCov = true, o.cov = z.covariance;
      }
      else
      {
        rct::PnPProblem3D pr;
        pr.camera_to_target_guess = baseGuess;
        for (auto& d : (*q)[0])
          for (auto& e : corr3(d, p3[d.view], *tgt))
            pr.correspondences.push_back(e);
        auto z = rct::optimize(pr);
        take(z);
        setP(0, z.camera_to_target);
        o.hasCov = true, o.cov = z.covariance;
      }
    }
    catch (const std::exception& e)
    {
      o.threw = true, o.err = e.what();
    }
    o.x = X;
    return o;
  };
  out.what = sim::fmt("%s, %d cameras, %d views, %d measurements, noise %.2g px, guess off by %.2g rad %.2g m", kindName(kind), nc, nv, out.nmeas, np, ga, gt);
  return out;
}
}  // namespace est
