// C10: calibration data saved to files on a disk that loses, tears and corrupts entries
#include "world.h"
#include "disk.h"
#include <cfloat>
#include <functional>
#include <memory>
#include <rct_optimizations/serialization/problems.h>
using namespace world;
using namespace sim;

namespace
{
const int NTYPES = 11;
const char* typeName[NTYPES] = { "intrinsics", "pose", "pixel", "point", "corr2", "corr3", "obs2", "obs3", "handeye2", "handeye3", "result" };
// plus "chain" (only loaded by the library; written as its documentation shows)

// value as a tree: numbers of the record, and its list entries
struct Tree
{
  std::vector<double> v;
  std::string s;
  std::vector<Tree> k;
};
bool num(double a, double b)
{
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (a == b)
    return true;
  return std::abs(a - b) <= 1e-9 * std::max(std::abs(a), std::abs(b));
}
bool numRot(double a, double b) { return num(a, b) || std::abs(a - b) < 1e-9; }
bool same(const Tree& a, const Tree& b)
{
  if (a.v.size() != b.v.size() || a.s != b.s || a.k.size() != b.k.size())
    return false;
  for (std::size_t i = 0; i < a.v.size(); ++i)
    if (!num(a.v[i], b.v[i]) && !(a.s.find('R') != std::string::npos && std::abs(a.v[i]) <= 1.01 && std::abs(b.v[i]) <= 1.01 && numRot(a.v[i], b.v[i])))
      return false;
  for (std::size_t i = 0; i < a.k.size(); ++i)
    if (!same(a.k[i], b.k[i]))
      return false;
  return true;
}
// a is what is left of b after whole list entries were lost
bool left(const Tree& a, const Tree& b)
{
  Tree x = a, y = b;
  x.k.clear();
  y.k.clear();
  if (!same(x, y))
    return false;
  std::size_t j = 0;
  for (auto& e : a.k)
  {
    while (j < b.k.size() && !left(e, b.k[j]))
      ++j;
    if (j++ >= b.k.size())
      return false;
  }
  return true;
}
// no list of b with entries came back empty
bool noneEmptied(const Tree& a, const Tree& b)
{
  return !(a.k.empty() && !b.k.empty());
}
void put(Tree& t, const Isometry3d& p)
{
  for (int i = 0; i < 3; ++i)
    t.v.push_back(p.translation()[i]);
  t.s += 'R';
  for (int i = 0; i < 9; ++i)
    t.v.push_back(p.linear()(i % 3, i / 3));
}
template <int N>
void put(Tree& t, const Eigen::Matrix<double, N, 1>& x)
{
  for (int i = 0; i < N; ++i)
    t.v.push_back(x[i]);
}
void put(Tree& t, const rct::CameraIntrinsics& c)
{
  t.v.insert(t.v.end(), { c.fx(), c.fy(), c.cx(), c.cy() });
}
Tree tree(const rct::CameraIntrinsics& c)
{
  Tree t;
  put(t, c);
  return t;
}
Tree tree(const Isometry3d& p)
{
  Tree t;
  put(t, p);
  return t;
}
Tree tree(const Vector2d& p)
{
  Tree t;
  put<2>(t, p);
  return t;
}
Tree tree(const Vector3d& p)
{
  Tree t;
  put<3>(t, p);
  return t;
}
template <Eigen::Index A, Eigen::Index B>
Tree tree(const rct::Correspondence<A, B>& c)
{
  Tree t;
  put<A>(t, c.in_image);
  put<B>(t, c.in_target);
  return t;
}
template <Eigen::Index A, Eigen::Index B>
Tree tree(const rct::Observation<A, B>& o)
{
  Tree t;
  put(t, o.to_camera_mount);
  put(t, o.to_target_mount);
  for (auto& c : o.correspondence_set)
    t.k.push_back(tree(c));
  return t;
}
Tree tree(const rct::ExtrinsicHandEyeProblem2D3D& p)
{
  Tree t;
  put(t, p.intr);
  put(t, p.camera_mount_to_camera_guess);
  put(t, p.target_mount_to_target_guess);
  for (auto& o : p.observations)
    t.k.push_back(tree(o));
  return t;
}
Tree tree(const rct::ExtrinsicHandEyeProblem3D3D& p)
{
  Tree t;
  put(t, p.camera_mount_to_camera_guess);
  put(t, p.target_mount_to_target_guess);
  for (auto& o : p.observations)
    t.k.push_back(tree(o));
  return t;
}
Tree tree(const rct::ExtrinsicHandEyeResult& p)
{
  Tree t;
  t.v.push_back(p.converged);
  t.v.push_back(p.initial_cost_per_obs);
  t.v.push_back(p.final_cost_per_obs);
  put(t, p.camera_mount_to_camera);
  put(t, p.target_mount_to_target);
  return t;
}
Tree tree(const rct::DHChain& c)
{
  Tree t;
  put(t, c.getBaseOffset());
  auto tab = c.getDHTable();
  auto ty = c.getJointTypes();
  auto lb = c.getParamLabels();
  for (std::size_t i = 0; i < c.dof(); ++i)
  {
    Tree j;
    for (int k = 0; k < 4; ++k)
      j.v.push_back(tab(i, k));
    j.v.push_back((double)ty[i]);
    j.s = lb[i][0];
    std::replace(j.s.begin(), j.s.end(), 'R', 'r');
    t.k.push_back(j);
  }
  return t;
}
template <class T>
Tree tree(const std::vector<T>& l)
{
  Tree t;
  for (auto& e : l)
    t.k.push_back(tree(e));
  return t;
}

// values
double number(Rng& r, int exotic)
{
  if (!exotic)
    return r.uni(-1000, 1000);
  switch (r.range(0, 13))
  {
    case 0:
      return 0;
    case 1:
      return -0.0;
    case 2:
      return std::ldexp(r.uni(-1, 1), r.range(-1000, 1000));
    case 3:
      return DBL_MAX * (r.chance(0.5) ? 1 : -1);
    case 4:
      return DBL_MIN;
    case 5:
      return exotic > 1 ? std::nan("") : 1.0;
    case 6:
      return exotic > 1 ? (r.chance(0.5) ? INFINITY : -INFINITY) : -1.0;
    case 7:
      return std::nextafter(1.0, 2.0) * std::pow(10.0, r.range(-12, 12));
    case 8:
      return r.range(-100000, 100000);
    case 9:
      return 1e16 + r.range(0, 1000) * 2;
    case 10:
      return r.uni(0, 1) * 1e-7;
    default:
      return r.gauss() * std::pow(10.0, r.range(-6, 6));
  }
}
Isometry3d somePose(Rng& r, int ex)
{
  Matrix3d R;
  switch (r.range(0, 5))
  {
    case 0:
      R = Matrix3d::Identity();
      break;
    case 1:
      R = rotVec(unit(r) * M_PI);
      break;
    case 2:
      R = rotVec(Vector3d(0, 0, r.uni(-M_PI, M_PI))) * rotVec(Vector3d(0, r.chance(0.5) ? M_PI_2 : -M_PI_2, 0)) * rotVec(Vector3d(r.uni(-M_PI, M_PI), 0, 0));
      break;
    case 3:
      R = rotVec(Vector3d::Unit(r.range(0, 2)) * (r.range(-2, 2) * M_PI_2)) * rotVec(Vector3d::Unit(r.range(0, 2)) * (r.range(-2, 2) * M_PI_2));
      break;
    default:
      R = rotVec(unit(r) * r.uni(-M_PI, M_PI));
  }
  return makePose(R, Vector3d(number(r, ex), number(r, ex), number(r, ex)));
}
rct::Correspondence2D3D c2(Rng& r, int e)
{
  rct::Correspondence2D3D c;
  c.in_image = Vector2d(number(r, e), number(r, e));
  c.in_target = Vector3d(number(r, e), number(r, e), number(r, e));
  return c;
}
rct::Correspondence3D3D c3(Rng& r, int e)
{
  rct::Correspondence3D3D c;
  c.in_image = Vector3d(number(r, e), number(r, e), number(r, e));
  c.in_target = Vector3d(number(r, e), number(r, e), number(r, e));
  return c;
}
template <class O, class F>
O obs(Rng& r, int e, int m, F f)
{
  O o;
  o.to_camera_mount = somePose(r, e);
  o.to_target_mount = somePose(r, e);
  int n = r.chance(0.15) ? 0 : r.range(1, m);
  for (int i = 0; i < n; ++i)
    o.correspondence_set.push_back(f(r, e));
  return o;
}
struct Val
{
  Tree t;
  std::string text;
};
template <class T>
Val val(const T& x)
{
  Val v;
  v.t = tree(x);
  std::stringstream ss;
  YAML::Node n = YAML::Node(x);
  ss << n;
  v.text = ss.str() + "\n";
  return v;
}
Val make(int type, Rng r, int n, int e)
{
  switch (type)
  {
    case 0:
    {
      rct::CameraIntrinsics c;
      for (auto& x : c.values)
        x = number(r, e);
      return val(c);
    }
    case 1:
      return val(somePose(r, e));
    case 2:
      return val(Vector2d(number(r, e), number(r, e)));
    case 3:
      return val(Vector3d(number(r, e), number(r, e), number(r, e)));
    case 4:
    {
      rct::Correspondence2D3D::Set s;
      for (int i = 0; i < n; ++i)
        s.push_back(c2(r, e));
      return val(s);
    }
    case 5:
    {
      rct::Correspondence3D3D::Set s;
      for (int i = 0; i < n; ++i)
        s.push_back(c3(r, e));
      return val(s);
    }
    case 6:
    {
      rct::Observation2D3D::Set s;
      for (int i = 0; i < n; ++i)
        s.push_back(obs<rct::Observation2D3D>(r, e, 5, c2));
      return val(s);
    }
    case 7:
    {
      rct::Observation3D3D::Set s;
      for (int i = 0; i < n; ++i)
        s.push_back(obs<rct::Observation3D3D>(r, e, 5, c3));
      return val(s);
    }
    case 8:
    {
      rct::ExtrinsicHandEyeProblem2D3D p;
      for (auto& x : p.intr.values)
        x = number(r, e);
      p.camera_mount_to_camera_guess = somePose(r, e);
      p.target_mount_to_target_guess = somePose(r, e);
      for (int i = 0; i < n; ++i)
        p.observations.push_back(obs<rct::Observation2D3D>(r, e, 4, c2));
      return val(p);
    }
    case 9:
    {
      rct::ExtrinsicHandEyeProblem3D3D p;
      p.camera_mount_to_camera_guess = somePose(r, e);
      p.target_mount_to_target_guess = somePose(r, e);
      for (int i = 0; i < n; ++i)
        p.observations.push_back(obs<rct::Observation3D3D>(r, e, 4, c3));
      return val(p);
    }
    case 10:
    {
      rct::ExtrinsicHandEyeResult p;
      p.converged = r.chance(0.5);
      p.initial_cost_per_obs = number(r, e);
      p.final_cost_per_obs = number(r, e);
      p.camera_mount_to_camera = somePose(r, e);
      p.target_mount_to_target = somePose(r, e);
      return val(p);
    }
    default:
    {
      std::vector<rct::DHTransform> j;
      std::string t;
      YAML::Node nd, l(YAML::NodeType::Sequence);
      Isometry3d base = somePose(r, e);
      nd["base_transform"] = base;
      for (int i = 0; i < n; ++i)
      {
        Eigen::Vector4d p(number(r, e), number(r, e), number(r, e), number(r, e));
        int ty = r.range(0, 1);
        std::string name = "joint_" + std::to_string(r.range(0, 99));
        j.push_back(rct::DHTransform(p, (rct::DHJointType)ty, name, 1));
        YAML::Node q;
        q["type"] = ty;
        q["d"] = p[0];
        q["theta"] = p[1];
        q["r"] = p[2];
        q["alpha"] = p[3];
        q["joint_name"] = name;
        l.push_back(q);
      }
      nd["dh_transforms"] = l;
      Val v;
      v.t = tree(rct::DHChain(j, base));
      std::stringstream ss;
      ss << nd;
      v.text = ss.str() + "\n";
      return v;
    }
  }
}
Tree load(int type, const std::string& f)
{
  YAML::Node n = YAML::LoadFile(f);
  switch (type)
  {
    case 0:
      return tree(n.as<rct::CameraIntrinsics>());
    case 1:
      return tree(n.as<Isometry3d>());
    case 2:
      return tree(n.as<Vector2d>());
    case 3:
      return tree(n.as<Vector3d>());
    case 4:
      return tree(n.as<rct::Correspondence2D3D::Set>());
    case 5:
      return tree(n.as<rct::Correspondence3D3D::Set>());
    case 6:
      return tree(n.as<rct::Observation2D3D::Set>());
    case 7:
      return tree(n.as<rct::Observation3D3D::Set>());
    case 8:
      return tree(n.as<rct::ExtrinsicHandEyeProblem2D3D>());
    case 9:
      return tree(n.as<rct::ExtrinsicHandEyeProblem3D3D>());
    case 10:
      return tree(n.as<rct::ExtrinsicHandEyeResult>());
    default:
      return tree(n.as<rct::DHChain>());
  }
}
// every entry of a document: (container, key or index)
struct Entry
{
  YAML::Node parent;
  bool list;
  std::size_t idx;
  std::string key;
};
void entries(YAML::Node n, std::vector<Entry>& out)
{
  if (n.IsMap())
    for (auto it = n.begin(); it != n.end(); ++it)
    {
      out.push_back({ n, false, 0, it->first.as<std::string>() });
      entries(it->second, out);
    }
  else if (n.IsSequence())
    for (std::size_t i = 0; i < n.size(); ++i)
    {
      out.push_back({ n, true, i, "" });
      entries(n[i], out);
    }
}
// ---- equality: a copy is equal; changing any datum, or the number of entries of any list, is not
template <class T>
using Changes = std::vector<std::pair<std::string, std::function<void(T&)>>>;
template <class T, class S, class F>
void lift(Changes<T>& out, const std::string& name, const Changes<S>& in, F member)
{
  for (auto& c : in)
    out.push_back({ name + "." + c.first, [c, member](T& t) { c.second(member(t)); } });
}
template <class V>
Changes<V> chVec(const V& v)
{
  Changes<V> out;
  for (int i = 0; i < (int)v.size(); ++i)
    out.push_back({ std::to_string(i), [i](V& x) { x[i] += 1 + 0.01 * x.cwiseAbs().maxCoeff(); } });
  return out;
}
Changes<VectorXd> chJoints(const VectorXd& v)
{
  auto out = chVec(v);
  out.push_back({ "size", [](VectorXd& x) { x = VectorXd::Ones(x.size() + 1).eval(); } });
  return out;
}
Changes<Isometry3d> chPose()
{
  Changes<Isometry3d> out;
  for (int i = 0; i < 3; ++i)
  {
    out.push_back({ "translation", [i](Isometry3d& x) { x.translation()[i] += 1 + 0.01 * x.translation().norm(); } });
    out.push_back({ "rotation", [i](Isometry3d& x) { x.linear() = rotVec(Vector3d::Unit(i) * 0.3) * x.linear(); } });
  }
  return out;
}
template <class E, class F>
Changes<std::vector<E>> chList(const std::vector<E>& l, F one)
{
  Changes<std::vector<E>> out;
  for (std::size_t i = 0; i < l.size(); ++i)
    lift(out, std::to_string(i), one(l[i]), [i](std::vector<E>& x) -> E& { return x[i]; });
  if (!l.empty())
  {
    out.push_back({ "pop", [](std::vector<E>& x) { x.pop_back(); } });
    out.push_back({ "push", [](std::vector<E>& x) { E e = x.back(); x.push_back(e); } });
  }
  return out;
}
template <class C>
Changes<C> chCorr(const C& c)
{
  Changes<C> out;
  lift(out, "image", chVec(c.in_image), [](C& x) -> auto& { return x.in_image; });
  lift(out, "target", chVec(c.in_target), [](C& x) -> auto& { return x.in_target; });
  return out;
}
template <class O>
Changes<O> chObs(const O& o)
{
  Changes<O> out;
  lift(out, "camera_mount", chPose(), [](O& x) -> auto& { return x.to_camera_mount; });
  lift(out, "target_mount", chPose(), [](O& x) -> auto& { return x.to_target_mount; });
  lift(out, "correspondences", chList(o.correspondence_set, [](const auto& c) { return chCorr(c); }), [](O& x) -> auto& { return x.correspondence_set; });
  return out;
}
template <class O>
Changes<O> chKin(const O& o)
{
  Changes<O> out;
  lift(out, "camera_joints", chJoints(o.camera_chain_joints), [](O& x) -> auto& { return x.camera_chain_joints; });
  lift(out, "target_joints", chJoints(o.target_chain_joints), [](O& x) -> auto& { return x.target_chain_joints; });
  return out;
}
template <class T>
void equality(Ctx& ctx, Rng& r, const char* name, const T& x, const Changes<T>& ch)
{
  T y = x;
  ctx.check(x == y && y == x, "copy-unequal", std::string("a copy of a ") + name + " compares unequal to it");
  if (ch.empty())
    return;
  auto& c = ch[r.range(0, (int)ch.size() - 1)];
  c.second(y);
  ctx.check(!(x == y) && !(y == x), "different-equal", std::string("a ") + name + " and one with other data (" + c.first + ") compare equal");
}
template <class P>
Changes<P> chProblem(const P& q)
{
  Changes<P> out;
  lift(out, "camera_guess", chPose(), [](P& x) -> auto& { return x.camera_mount_to_camera_guess; });
  lift(out, "target_guess", chPose(), [](P& x) -> auto& { return x.target_mount_to_target_guess; });
  lift(out, "observations", chList(q.observations, [](const auto& o) { return chObs(o); }), [](P& x) -> auto& { return x.observations; });
  return out;
}
Changes<rct::CameraIntrinsics> chIntr()
{
  Changes<rct::CameraIntrinsics> out;
  for (int i = 0; i < 4; ++i)
    out.push_back({ std::to_string(i), [i](rct::CameraIntrinsics& c) { c.values[i] += 1; } });
  return out;
}
VectorXd joints(Rng& r)
{
  VectorXd v(r.range(0, 7));
  for (int i = 0; i < v.size(); ++i)
    v[i] = r.uni(-3, 3);
  return v;
}
void compare(Ctx& ctx, int type, Rng r, int n)
{
  switch (type)
  {
    case 0:
    {
      rct::CameraIntrinsics c;
      for (auto& x : c.values)
        x = number(r, 0);
      return equality(ctx, r, "camera", c, chIntr());
    }
    case 1:
    {
      auto c = c2(r, 0);
      return equality(ctx, r, "pixel correspondence", c, chCorr(c));
    }
    case 2:
    {
      auto c = c3(r, 0);
      return equality(ctx, r, "point correspondence", c, chCorr(c));
    }
    case 3:
    {
      auto o = obs<rct::Observation2D3D>(r, 0, n + 1, c2);
      return equality(ctx, r, "pixel observation", o, chObs(o));
    }
    case 4:
    {
      auto o = obs<rct::Observation3D3D>(r, 0, n + 1, c3);
      return equality(ctx, r, "point observation", o, chObs(o));
    }
    case 5:
    {
      rct::ExtrinsicHandEyeProblem2D3D q;
      for (auto& x : q.intr.values)
        x = number(r, 0);
      q.camera_mount_to_camera_guess = somePose(r, 0);
      q.target_mount_to_target_guess = somePose(r, 0);
      for (int i = 0; i < n; ++i)
        q.observations.push_back(obs<rct::Observation2D3D>(r, 0, 4, c2));
      auto ch = chProblem(q);
      lift(ch, "camera", chIntr(), [](auto& x) -> auto& { return x.intr; });
      return equality(ctx, r, "pixel hand-eye problem", q, ch);
    }
    case 6:
    {
      rct::ExtrinsicHandEyeProblem3D3D q;
      q.camera_mount_to_camera_guess = somePose(r, 0);
      q.target_mount_to_target_guess = somePose(r, 0);
      for (int i = 0; i < n; ++i)
        q.observations.push_back(obs<rct::Observation3D3D>(r, 0, 4, c3));
      return equality(ctx, r, "point hand-eye problem", q, chProblem(q));
    }
    case 7:
    {
      rct::KinObservation2D3D o;
      o.camera_chain_joints = joints(r);
      o.target_chain_joints = joints(r);
      for (int i = 0; i < n; ++i)
        o.correspondence_set.push_back(c2(r, 0));
      auto ch = chKin(o);
      lift(ch, "correspondences", chList(o.correspondence_set, [](const auto& c) { return chCorr(c); }), [](auto& x) -> auto& { return x.correspondence_set; });
      return equality(ctx, r, "pixel observation of a chain", o, ch);
    }
    case 8:
    {
      rct::KinObservation3D3D o;
      o.camera_chain_joints = joints(r);
      o.target_chain_joints = joints(r);
      for (int i = 0; i < n; ++i)
        o.correspondence_set.push_back(c3(r, 0));
      auto ch = chKin(o);
      lift(ch, "correspondences", chList(o.correspondence_set, [](const auto& c) { return chCorr(c); }), [](auto& x) -> auto& { return x.correspondence_set; });
      return equality(ctx, r, "point observation of a chain", o, ch);
    }
    default:
    {
      rct::KinematicMeasurement o;
      o.camera_to_target = somePose(r, 0);
      o.camera_chain_joints = joints(r);
      o.target_chain_joints = joints(r);
      auto ch = chKin(o);
      lift(ch, "pose", chPose(), [](auto& x) -> auto& { return x.camera_to_target; });
      return equality(ctx, r, "pose measurement of a chain", o, ch);
    }
  }
}
enum State
{
  INTACT,
  MUST_FAIL,
  LEFT,      // whole list entries lost: error, or exactly what is left
  CUT,       // cut at an entry boundary: error, or exactly what is left
};
struct File
{
  bool exists = false;
  int type = -1;
  Tree t;
  std::string text;
  State st = INTACT;
};
}  // namespace

static void gen(Rng& r, Plan& p, int tier)
{
  int nf = r.range(1, 3), n = r.range(4, tier ? 30 : 16);
  p.add("setup").set("files", nf).set("seed", (unsigned long)(r.u64() >> 24));
  for (int i = 0; i < n; ++i)
  {
    int f = r.range(0, nf - 1);
    double u = r.u01();
    if (i < nf || u < 0.33)
      p.add("save", true).set("file", i < nf ? i : f).set("type", r.range(0, NTYPES)).set("seed", (unsigned long)(r.u64() >> 24)).set("n", r.chance(0.1) ? 0 : r.chance(0.05) ? r.range(20, 60) : r.range(1, 6)).set("exotic", r.range(0, 2)).set("lost", (int)r.chance(0.07));
    else if (u < 0.40)
      p.add("sync", true);
    else if (u < 0.46)
      p.add("crash", true).set("keep", r.range(0, 2)).set("a", r.range(0, 1000000));
    else if (u < 0.62)
    {
      static const char* k[] = { "missing", "empty", "cut", "lose", "lose", "type", "type", "type" };
      p.add("damage", true).set("file", f).set("kind", k[r.range(0, 7)]).set("a", r.range(0, 1000000)).set("b", r.range(0, 100));
    }
    else
      p.add("load", true).set("file", f);
    if (r.chance(0.15))
      p.add("compare", true).set("type", r.range(0, 9)).set("seed", (unsigned long)(r.u64() >> 24)).set("n", r.range(0, 5));
  }
  for (int f = 0; f < nf; ++f)
    p.add("load", true).set("file", f);
}

static std::string cutAt(const std::string& t, std::size_t a)
{
  std::vector<std::size_t> nl{ 0 };
  for (std::size_t i = 0; i + 1 < t.size(); ++i)
    if (t[i] == '\n')
      nl.push_back(i + 1);
  return t.substr(0, nl[a % nl.size()]);
}
static void run(const Plan& p, Ctx& ctx)
{
  disk::Scratch sc;
  int nf = (int)p.need("setup").i("files");
  std::vector<File> now(nf), durable(nf);
  auto path = [&](int f) { return sc.dir + "/f" + std::to_string(f) + ".yaml"; };
  auto store = [&](int f) {
    if (now[f].exists)
      disk::spill(path(f), now[f].text);
    else
      ::unlink(path(f).c_str());
  };
  Digest hist;
  int loads = 0;
  for (auto& it : p.items)
  {
    int f = (int)it.i("file", 0);
    if (f >= nf)
      continue;
    if (it.op == "save")
    {
      Val v = make((int)it.i("type"), Rng((uint64_t)it.i("seed"), "val"), (int)it.i("n"), (int)it.i("exotic"));
      hist.u(1).u(f).u(it.i("type")).u(it.i("n"));
      if (it.i("lost", 0))
      {
        ctx.fault("write-lost");  // the write never reaches the disk: the older content stays
        continue;
      }
      now[f].exists = true;
      now[f].type = (int)it.i("type");
      now[f].t = v.t;
      now[f].text = v.text;
      now[f].st = INTACT;
      store(f);
      ctx.simTime(0.05);
    }
    else if (it.op == "compare")
      compare(ctx, (int)it.i("type"), Rng((uint64_t)it.i("seed"), "cmp"), (int)it.i("n"));
    else if (it.op == "sync")
      durable = now;
    else if (it.op == "crash")
    {
      // what was not synchronised is lost: older content, an empty file, or a prefix of the new content
      for (int i = 0; i < nf; ++i)
        if (now[i].text != durable[i].text || now[i].exists != durable[i].exists)
        {
          int k = (int)it.i("keep");
          if (k == 0 || !now[i].exists)
            now[i] = durable[i];
          else if (k == 1)
            now[i].text = "", now[i].st = MUST_FAIL;
          else
          {
            std::string c = cutAt(now[i].text, (std::size_t)it.i("a"));
            if (now[i].st == MUST_FAIL && !c.empty())
              now[i] = File(), now[i].type = 0;  // the damaged part may be cut off: nothing to expect of it
            else
            {
              now[i].text = c;
              now[i].st = c.empty() ? MUST_FAIL : CUT;
            }
          }
          store(i);
        }
      durable = now;
      ctx.fault("crash-unsynced");
      hist.u(2).u(it.i("keep"));
    }
    else if (it.op == "damage")
    {
      File& x = now[f];
      if (!x.exists || x.text.empty())
        continue;
      std::string k = it.str("kind");
      std::size_t a = (std::size_t)it.i("a");
      if (k == "missing")
        x.exists = false, x.text = "";
      else if (k == "empty")
        x.text = "", x.st = MUST_FAIL;
      else if (k == "cut")
      {
        x.text = cutAt(x.text, a);
        if (x.text.empty())
          x.st = MUST_FAIL;
        else if (x.st != MUST_FAIL)
          x.st = CUT;
        else
          x.st = LEFT, x.type = -2;  // an already damaged file was cut: the damaged part may be gone
      }
      else
      {
        YAML::Node doc;
        std::vector<Entry> es;
        try
        {
          doc = YAML::Load(x.text);
          entries(doc, es);
        }
        catch (const std::exception&)
        {
          continue;
        }
        if (es.empty() || x.st == CUT || x.st == MUST_FAIL)
          continue;
        Entry& e = es[a % es.size()];
        if (k == "lose")
        {
          if (e.list)
          {
            YAML::Node l(YAML::NodeType::Sequence);
            for (std::size_t i = 0; i < e.parent.size(); ++i)
              if (i != e.idx)
                l.push_back(YAML::Clone(e.parent[i]));
            // rebuild the list in place
            while (e.parent.size() > 0)
              e.parent.remove(e.parent.size() - 1);
            for (std::size_t i = 0; i < l.size(); ++i)
              e.parent.push_back(l[i]);
            if (x.st == INTACT)
              x.st = LEFT;
          }
          else
          {
            e.parent.remove(e.key);
            x.st = MUST_FAIL;
          }
        }
        else
        {
          YAML::Node c = e.list ? e.parent[e.idx] : e.parent[e.key];
          YAML::Node n;
          bool leaf = c.IsScalar();
          switch (it.i("b") % 6)
          {
            case 0:
              n = YAML::Node("garbage");
              break;
            case 1:
              n = YAML::Load("[1, 2]");
              break;
            case 2:
              n = YAML::Load("{u: 1, v: 2}");
              break;
            case 3:
              n = YAML::Load("~");
              break;
            case 4:
              n = YAML::Node("12.5abc");
              break;
            default:
              n = leaf ? YAML::Load("[1.5]") : YAML::Node("7");
          }
          // a name may be any word; a list of other things has the wrong kind only if its entries have
          if (!e.list && e.key == "joint_name" && (n.IsScalar() || n.IsNull()))
            continue;
          if (e.list)
            e.parent[e.idx] = n;
          else
            e.parent[e.key] = n;
          x.st = MUST_FAIL;
        }
        std::stringstream ss;
        ss << doc;
        x.text = ss.str() + "\n";
        if (k == "lose" && doc.IsMap() && doc.size() == 0)
          x.text = "{}\n";
      }
      if (x.type == -2)
      {
        x.exists = false;
        x.text = "";
        x.type = 0;
      }
      store(f);
      ctx.fault("storage-" + k);
      hist.u(3).u(f).s(k).u(x.st);
    }
    else if (it.op == "load")
    {
      File& x = now[f];
      if (x.type < 0)
        continue;
      ++loads;
      hist.u(4).u(f);
      bool ok = true;
      Tree t;
      std::string err;
      try
      {
        t = load(x.type, path(f));
      }
      catch (const std::exception& e)
      {
        ok = false;
        err = e.what();
      }
      std::string tn = x.type < NTYPES ? typeName[x.type] : "chain";
      ctx.event(tn + (ok ? " loaded" : " refused"));
      std::string what = tn + " from:\n" + x.text.substr(0, 600);
      if (!x.exists)
        ctx.check(!ok, "loaded-missing-file", what);
      else if (x.st == INTACT)
      {
        ctx.check(ok, "intact-refused", err + "; " + what);
        ctx.check(same(t, x.t), "changed-value", "an intact file came back different: " + what);
      }
      else if (x.st == MUST_FAIL)
        ctx.check(!ok, "damaged-accepted", what);
      else if (ok)
      {
        ctx.check(left(t, x.t), "invented-value", "a file with lost list entries came back with values never stored: " + what);
        if (x.st == CUT)
          ctx.check(noneEmptied(t, x.t), "list-emptied", "a cut file came back with an empty list: " + what);
      }
      // the file itself is never changed by loading it
      if (x.exists)
        ctx.check(disk::slurp(path(f)) == x.text, "load-changed-file", what);
    }
  }
  ctx.state(hist.h);
  ctx.steps(loads);
  if (loads == 0)
    ctx.skip("nothing-loaded");
  ctx.nontrivial();
}
static Registrar reg({ "C10", gen, run, "distinct save/damage/load histories" });
