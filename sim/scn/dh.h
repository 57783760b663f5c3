// Serial chains of Denavit-Hartenberg transforms: the reference model of the kinematic calibrations.
#pragma once
#include "world.h"
#include <rct_optimizations/dh_chain.h>
namespace dh
{
using namespace world;
struct Chain
{
  std::vector<Eigen::Vector4d> dh;
  std::vector<int> type;
  Isometry3d base;
  int n() const { return (int)dh.size(); }
  Isometry3d fk(const VectorXd& q, const Eigen::MatrixX4d& off) const
  {
    Isometry3d T = base;
    for (int i = 0; i < n(); ++i)
    {
      Eigen::Vector4d v = dh[i] + off.row(i).transpose();
      v[type[i]] += q[i];
      Matrix3d Rz = rotVec(Vector3d(0, 0, v[1])), Rx = rotVec(Vector3d(v[3], 0, 0));
      T = T * makePose(Rz, Vector3d(0, 0, v[0])) * makePose(Rx, Vector3d(v[2], 0, 0));
    }
    return T;
  }
  rct::DHChain make(const char* nm, std::size_t seed) const
  {
    std::vector<rct::DHTransform> t;
    for (int i = 0; i < n(); ++i)
      t.emplace_back(dh[i], type[i] ? rct::DHJointType::REVOLUTE : rct::DHJointType::LINEAR, std::string(nm) + std::to_string(i), seed + i);
    return rct::DHChain(t, base);
  }
};
inline Chain randChain(Rng& r, int n)
{
  Chain c;
  static const double al[4] = { 0, M_PI / 2, -M_PI / 2, 0.7 };
  for (int i = 0; i < n; ++i)
  {
    c.dh.push_back(Eigen::Vector4d(r.uni(-0.3, 0.4), r.uni(-1, 1), r.uni(0.05, 0.5), al[r.range(0, 3)]));
    c.type.push_back(r.chance(0.8) ? 1 : 0);
  }
  c.base = mountPose(r, 0.5);
  return c;
}
inline VectorXd joints(Rng& r, const Chain& c, double range, const VectorXd& mid)
{
  VectorXd q(c.n());
  for (int i = 0; i < c.n(); ++i)
    q[i] = mid[i] + r.uni(-1, 1) * range * (c.type[i] ? 1.0 : 0.3);
  return q;
}
// the unknowns: DH offsets of both chains, then three poses as position and angle axis
struct Unknowns
{
  Eigen::MatrixX4d o1, o2;
  Vector3d t[3], a[3];  // camera mount, target mount, base
  Isometry3d pose(int k) const { return makePose(rotVec(a[k]), t[k]); }
};
inline VectorXd flat(const Unknowns& u)
{
  VectorXd v(u.o1.size() + u.o2.size() + 18);
  int n = 0;
  for (int i = 0; i < u.o1.size(); ++i)
    v[n++] = u.o1(i);
  for (int i = 0; i < u.o2.size(); ++i)
    v[n++] = u.o2(i);
  for (int k = 0; k < 3; ++k)
  {
    v.segment<3>(n) = u.t[k];
    v.segment<3>(n + 3) = u.a[k];
    n += 6;
  }
  return v;
}
inline Unknowns unflat(const VectorXd& v, const Unknowns& like)
{
  Unknowns u = like;
  int n = 0;
  for (int i = 0; i < u.o1.size(); ++i)
    u.o1(i) = v[n++];
  for (int i = 0; i < u.o2.size(); ++i)
    u.o2(i) = v[n++];
  for (int k = 0; k < 3; ++k)
  {
    u.t[k] = v.segment<3>(n);
    u.a[k] = v.segment<3>(n + 3);
    n += 6;
  }
  return u;
}
inline Vector3d aaOf(const Isometry3d& p)
{
  Eigen::AngleAxisd a(p.linear());
  return a.axis() * a.angle();
}
inline Isometry3d smallMount(Rng& r, double trans)  // rotations below half a turn, so that angle axis is unique
{
  Isometry3d p = mountPose(r, trans);
  Vector3d a = aaOf(p);
  if (a.norm() > 2.6)
    p.linear() = rotVec(a / a.norm() * 2.0);
  return p;
}
}  // namespace dh
