// The simulated work cell: cameras, targets, robot poses and exact measurements.
// Written independently of the library: only Eigen is used for the geometry.
#pragma once
#include "../core/sim.h"
#include <Eigen/Dense>
#include <rct_optimizations/types.h>
#include <algorithm>

namespace world
{
using Eigen::Isometry3d;
using Eigen::Matrix3d;
using Eigen::MatrixXd;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::VectorXd;
using sim::Rng;
using sim::Item;
namespace rct = rct_optimizations;

inline Matrix3d rotVec(const Vector3d& w)
{
  double a = w.norm();
  Matrix3d K;
  K << 0, -w.z(), w.y(), w.z(), 0, -w.x(), -w.y(), w.x(), 0;
  if (a < 1e-8)
    return Matrix3d::Identity() + K + 0.5 * K * K;
  return Matrix3d::Identity() + std::sin(a) / a * K + (1 - std::cos(a)) / (a * a) * K * K;
}
inline Isometry3d makePose(const Matrix3d& R, const Vector3d& t)
{
  Isometry3d p = Isometry3d::Identity();
  p.linear() = R;
  p.translation() = t;
  return p;
}
inline Vector3d unit(Rng& r)
{
  for (;;)
  {
    Vector3d v(r.uni(-1, 1), r.uni(-1, 1), r.uni(-1, 1));
    double n = v.norm();
    if (n > 0.05 && n <= 1)
      return v / n;
  }
}
inline Isometry3d randPose(Rng& r, double ang, double trans)
{
  Vector3d axis = unit(r), dir = unit(r);
  double a = r.uni(-ang, ang), t = r.uni(0, trans);
  return makePose(rotVec(axis * a), dir * t);
}
// a mount as found in practice: often exactly identity or a multiple of 90 degrees, else anything
inline Isometry3d mountPose(Rng& r, double trans)
{
  int k = r.range(0, 9);
  Vector3d t = unit(r) * r.uni(0, trans);
  if (k == 0)
    return Isometry3d::Identity();
  if (k == 1)
    return makePose(Matrix3d::Identity(), t);
  if (k <= 4)
  {
    Matrix3d R = Matrix3d::Identity();
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
      Matrix3d Q;
      int ax = r.range(0, 2);
      if (ax == 0)
        Q << 1, 0, 0, 0, 0, -1, 0, 1, 0;
      else if (ax == 1)
        Q << 0, 0, 1, 0, 1, 0, -1, 0, 0;
      else
        Q << 0, -1, 0, 1, 0, 0, 0, 0, 1;
      R = R * Q;
    }
    return makePose(R, t);
  }
  double a = r.uni(0, M_PI);
  if (k == 5)
    a = std::pow(10, r.uni(-9, -0.5));
  if (k == 6)
    a = M_PI - (r.chance(0.5) ? std::pow(10, r.uni(-9, -0.5)) : 0);
  return makePose(rotVec(unit(r) * a), t);
}
// small perturbation of a pose: rotate by up to `ang`, move by up to `trans`, about the target of the pose
inline Isometry3d perturb(const Isometry3d& p, Rng& r, double ang, double trans) { return p * randPose(r, ang, trans); }
inline double angleBetween(const Matrix3d& A, const Matrix3d& B)
{
  // robust for tiny angles: |A - B|_F = 2 sqrt(2) |sin(angle/2)|
  double f = (A - B).norm() / (2 * std::sqrt(2.0));
  return 2 * std::asin(std::min(1.0, f));
}
struct PoseErr
{
  double ang, trans;
};
inline PoseErr poseErr(const Isometry3d& a, const Isometry3d& b)
{
  return { angleBetween(a.linear(), b.linear()), (a.translation() - b.translation()).norm() };
}
inline bool finite(const Isometry3d& p) { return p.matrix().allFinite(); }
inline bool rigid(const Isometry3d& p)
{
  return finite(p) && (p.linear() * p.linear().transpose() - Matrix3d::Identity()).norm() < 1e-6 &&
         std::abs(p.linear().determinant() - 1) < 1e-6;
}

struct Camera
{
  double fx = 1000, fy = 1000, cx = 640, cy = 480, w = 1280, h = 960;
  double dist[5] = { 0, 0, 0, 0, 0 };  // k1 k2 p1 p2 k3
  rct::CameraIntrinsics intr() const
  {
    rct::CameraIntrinsics i;
    i.fx() = fx;
    i.fy() = fy;
    i.cx() = cx;
    i.cy() = cy;
    return i;
  }
  Vector2d project(const Vector3d& p) const
  {
    double x = p.x() / p.z(), y = p.y() / p.z(), r2 = x * x + y * y;
    double k = 1 + dist[0] * r2 + dist[1] * r2 * r2 + dist[4] * r2 * r2 * r2;
    double xd = x * k + 2 * dist[2] * x * y + dist[3] * (r2 + 2 * x * x);
    double yd = y * k + dist[2] * (r2 + 2 * y * y) + 2 * dist[3] * x * y;
    return Vector2d(fx * xd + cx, fy * yd + cy);
  }
  bool sees(const Vector3d& p) const
  {
    if (p.z() < 0.05)
      return false;
    Vector2d u = project(p);
    return u.x() >= 0 && u.y() >= 0 && u.x() < w && u.y() < h;
  }
};
inline Camera randCamera(Rng& r)
{
  Camera c;
  c.fx = r.uni(500, 1600);
  c.fy = c.fx * r.uni(0.92, 1.08);
  c.w = r.range(640, 1600);
  c.h = std::floor(c.w * r.uni(0.65, 0.8));
  c.cx = c.w * r.uni(0.42, 0.58);
  c.cy = c.h * r.uni(0.42, 0.58);
  return c;
}

struct TargetGeom
{
  int rows = 5, cols = 7;
  double spacing = 0.03;
  std::vector<Vector3d> pts;
  Vector3d center() const
  {
    Vector3d c(0, 0, 0);
    for (auto& p : pts)
      c += p;
    return c / double(pts.size());
  }
  double radius() const
  {
    double m = 0;
    Vector3d c = center();
    for (auto& p : pts)
      m = std::max(m, (p - c).norm());
    return m;
  }
};
inline TargetGeom randTarget(Rng& r, bool planar, int maxr = 6, int maxc = 8)
{
  TargetGeom t;
  t.rows = r.range(4, maxr);
  t.cols = r.range(4, maxc);
  t.spacing = r.uni(0.015, 0.06);
  Vector3d off(0, 0, 0);
  for (int i = 0; i < t.rows; ++i)
    for (int j = 0; j < t.cols; ++j)
    {
      double z = planar ? 0 : r.uni(-1, 1) * t.spacing;
      t.pts.push_back(Vector3d(j * t.spacing, i * t.spacing, z) + off);
    }
  return t;
}

// a camera pose relative to the target that frames the whole target: camera -> target transform
inline Isometry3d lookAt(Rng& r, const Camera& c, const TargetGeom& t, double maxTilt = 0.6, double zoomLo = 1.15, double zoomHi = 2.0,
                         double roll = M_PI)
{
  double half = std::min({ c.cx / c.fx, (c.w - c.cx) / c.fx, c.cy / c.fy, (c.h - c.cy) / c.fy });
  double R = t.radius() * 1.05 + 0.005;
  double d = R / half * r.uni(zoomLo, zoomHi) + R;
  Vector3d ctr = t.center();
  // target plane normal faces the camera (target z towards or away from the camera: choose away/towards at random is a
  // property of the setup, not of the view, so use "away": camera z and target z roughly aligned, as for a target whose
  // frame follows the image convention
  double tilt = r.uni(0.05, maxTilt), dir = r.uni(-M_PI, M_PI), rl = r.uni(-roll, roll);
  Matrix3d Rt = rotVec(Vector3d(std::cos(dir), std::sin(dir), 0) * tilt) * rotVec(Vector3d(0, 0, rl));
  Vector3d place(r.uni(-0.1, 0.1) * half * d, r.uni(-0.1, 0.1) * half * d, d);
  return makePose(Rt, place - Rt * ctr);
}

// ---------------------------------------------------------------- numerical reference models
// residual function of a parameter vector -> residual vector; numerical Jacobian by central differences
template <class F>
MatrixXd numJac(F f, const VectorXd& x, double h = 1e-6)
{
  VectorXd r0 = f(x);
  MatrixXd J(r0.size(), x.size());
  for (int k = 0; k < x.size(); ++k)
  {
    double s = h * std::max(1.0, std::abs(x[k]));
    VectorXd a = x, b = x;
    a[k] += s;
    b[k] -= s;
    J.col(k) = (f(a) - f(b)) / (2 * s);
  }
  return J;
}
// fourth-order central differences: for reference covariances
template <class F>
MatrixXd numJac4(F f, const VectorXd& x, double h = 1e-4)
{
  VectorXd r0 = f(x);
  MatrixXd J(r0.size(), x.size());
  for (int k = 0; k < x.size(); ++k)
  {
    double s = h * std::max(1.0, std::abs(x[k]));
    VectorXd p = x;
    p[k] = x[k] + s;
    VectorXd f1 = f(p);
    p[k] = x[k] - s;
    VectorXd m1 = f(p);
    p[k] = x[k] + 2 * s;
    VectorXd f2 = f(p);
    p[k] = x[k] - 2 * s;
    VectorXd m2 = f(p);
    J.col(k) = (8 * (f1 - m1) - (f2 - m2)) / (12 * s);
  }
  return J;
}
// is the problem well determined? smallest singular value after column scaling, relative
inline double conditioning(const MatrixXd& J, bool scale = true)
{
  if (J.rows() < J.cols())
    return 0;
  MatrixXd A = J;
  for (int k = 0; scale && k < A.cols(); ++k)
  {
    double n = A.col(k).norm();
    if (!(n > 1e-12))
      return 0;
    A.col(k) /= n;
  }
  MatrixXd N = A.transpose() * A;
  Eigen::SelfAdjointEigenSolver<MatrixXd> es(N);
  double lo = es.eigenvalues()[0], hi = es.eigenvalues()[N.cols() - 1];
  if (!(lo > 0))
    return 0;
  return std::sqrt(lo / hi);
}
inline VectorXd poseVec(const Isometry3d& p)
{
  Eigen::AngleAxisd aa(p.linear());
  VectorXd v(6);
  v << aa.axis() * aa.angle(), p.translation();
  return v;
}
inline Isometry3d vecPose(const VectorXd& v, int o = 0) { return makePose(rotVec(v.segment<3>(o)), v.segment<3>(o + 3)); }
// local update used for finite differences about a pose: p * exp(d)
inline Isometry3d retract(const Isometry3d& p, const VectorXd& d, int o) { return p * vecPose(d, o); }

inline void digestPose(sim::Digest& d, const Isometry3d& p)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      d.d(p.matrix()(i, j));
}
template <class R>
void eventPose(R& ctx, const char* n, const Isometry3d& p)
{
  sim::Digest d;
  digestPose(d, p);
  ctx.event64(n, d.h);
}

// ---------------------------------------------------------------- faults on a session of captures
// A session is a list of captures 0..n-1 (per camera); the delivery list is what reaches the solver, in arrival order.
struct Delivery
{
  int view;
  std::vector<int> feats;  // surviving feature indices, in delivered order
};
inline std::vector<int> allFeats(int n)
{
  std::vector<int> v(n);
  for (int i = 0; i < n; ++i)
    v[i] = i;
  return v;
}
// Plan lines understood (all droppable):
//   lose cam= view= [as=empty]   the capture never arrives (or arrives without any feature)
//   dup cam= view= at=       the capture arrives again at position `at`
//   move cam= view= to=      delivered late / early
//   occlude cam= view= mode=(cut|rand|keep) a= b=   features lost
//   rep cam= view= feat= [at=]   a feature is reported twice (at the end, or at place `at`)
//   mix cam= view= key=      features arrive in another order
inline void genFaults(Rng& r, sim::Plan& p, int ncams, int nviews, int nfeats, double intensity, int keepMin, bool allowDup = true,
                      bool allowEmpty = false)
{
  for (int c = 0; c < ncams; ++c)
    for (int v = 0; v < nviews; ++v)
    {
      if (r.chance(0.30 * intensity))
      {
        Item& it = p.add("lose", true).set("cam", c).set("view", v);
        if (allowEmpty && r.chance(0.5))
          it.set("as", "empty");
      }
      if (allowDup && r.chance(0.10 * intensity))
        p.add("dup", true).set("cam", c).set("view", v).set("at", r.range(0, nviews));
      if (r.chance(0.15 * intensity))
        p.add("move", true).set("cam", c).set("view", v).set("to", r.range(0, nviews - 1));
      if (r.chance(0.35 * intensity))
      {
        int m = r.range(0, 2);
        p.add("occlude", true)
            .set("cam", c)
            .set("view", v)
            .set("mode", m == 0 ? "cut" : m == 1 ? "rand" : "keep")
            .set("a", r.range(0, nfeats - 1))
            .set("b", m == 2 ? r.range(keepMin, std::max(keepMin, nfeats / 2)) : r.range(0, nfeats - 1))
            .set("key", (unsigned long)(r.u64() >> 40));
      }
      if (allowDup && r.chance(0.10 * intensity))
      {
        int f = r.range(0, nfeats - 1);
        Item& it = p.add("rep", true).set("cam", c).set("view", v).set("feat", f);
        if (r.chance(0.7))  // reported again at any place in the list, often right after itself
          it.set("at", r.chance(0.5) ? f + 1 : r.range(0, nfeats));
      }
      if (r.chance(0.2 * intensity))
        p.add("mix", true).set("cam", c).set("view", v).set("key", (unsigned long)(r.u64() >> 40));
    }
}
inline std::vector<Delivery> deliver(const sim::Plan& p, sim::Ctx& ctx, int cam, int nviews, int nfeats, int keepMin)
{
  std::vector<Delivery> q;
  for (int v = 0; v < nviews; ++v)
    q.push_back({ v, allFeats(nfeats) });
  auto at = [&](int view) {
    for (std::size_t k = 0; k < q.size(); ++k)
      if (q[k].view == view)
        return (int)k;
    return -1;
  };
  for (auto& it : p.items)
  {
    if (!it.has("cam") || !it.has("view") || it.i("cam") != cam)
      continue;
    int k = at((int)it.i("view"));
    if (k < 0)
      continue;
    if (it.op == "occlude")
    {
      auto f = q[k].feats;
      std::vector<int> g;
      std::string m = it.str("mode");
      int a = (int)it.i("a"), b = (int)it.i("b");
      if (m == "cut")
      {
        for (int x : f)
          if (!(x >= std::min(a, b) && x <= std::max(a, b)))
            g.push_back(x);
      }
      else
      {
        Rng r((uint64_t)it.i("key"), "occ");
        g = f;
        r.shuffle(g);
        std::size_t keep = m == "keep" ? (std::size_t)b : g.size() - std::min<std::size_t>(g.size(), (std::size_t)b / 2);
        if (g.size() > keep)
          g.resize(keep);
        std::sort(g.begin(), g.end());
      }
      if ((int)g.size() >= keepMin)
      {
        ctx.fault("feature-occluded", q[k].feats.size() - g.size());
        q[k].feats = g;
      }
    }
    else if (it.op == "rep")
    {
      int f = (int)it.i("feat");
      if (std::find(q[k].feats.begin(), q[k].feats.end(), f) != q[k].feats.end())
      {
        auto& l = q[k].feats;
        std::size_t at = it.has("at") ? std::min<std::size_t>(l.size(), (std::size_t)it.i("at")) : l.size();
        l.insert(l.begin() + (long)at, f);
        ctx.fault("feature-duplicated");
      }
    }
    else if (it.op == "mix")
    {
      Rng r((uint64_t)it.i("key"), "mix");
      r.shuffle(q[k].feats);
      ctx.fault("feature-reordered");
    }
    else if (it.op == "lose")
    {
      if (it.str("as", "gone") == "empty")
      {
        q[k].feats.clear();
        ctx.fault("view-empty");
        continue;
      }
      q.erase(q.begin() + k);
      ctx.fault("view-lost");
    }
    else if (it.op == "dup")
    {
      Delivery d = q[k];
      q.insert(q.begin() + std::min<std::size_t>(q.size(), (std::size_t)it.i("at")), d);
      ctx.fault("view-duplicated");
    }
    else if (it.op == "move")
    {
      Delivery d = q[k];
      q.erase(q.begin() + k);
      q.insert(q.begin() + std::min<std::size_t>(q.size(), (std::size_t)it.i("to")), d);
      ctx.fault("view-reordered");
    }
  }
  sim::Digest d;
  for (auto& x : q)
  {
    d.u(x.view);
    for (int f : x.feats)
      d.u(f);
  }
  ctx.state(d.h);
  return q;
}
inline rct::Correspondence2D3D::Set corr2(const Delivery& d, const std::vector<Vector2d>& px, const TargetGeom& t)
{
  rct::Correspondence2D3D::Set s;
  for (int f : d.feats)
    s.push_back(rct::Correspondence2D3D(px[f], t.pts[f]));
  return s;
}
inline rct::Correspondence3D3D::Set corr3(const Delivery& d, const std::vector<Vector3d>& q, const TargetGeom& t)
{
  rct::Correspondence3D3D::Set s;
  for (int f : d.feats)
    s.push_back(rct::Correspondence3D3D(q[f], t.pts[f]));
  return s;
}
}  // namespace world
