// C17: random poses of robot models: several models, copies, threads and call orders
#include "world.h"
#include "core/baton.h"
#include <memory>
#include <thread>
#include <rct_optimizations/dh_chain.h>
using namespace world;
using namespace sim;

static void gen(Rng& r, Plan& p, int tier)
{
  int nr = r.range(1, 3), nt = r.chance(0.35) ? 1 : r.range(2, 4);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("robots", nr).set("threads", nt).set("cover", (int)r.chance(0.04)).set("sameseed", (int)r.chance(0.3)).set("entropy", (unsigned long)(r.u64() >> 40));
  static const char* op[] = { "pose", "pose", "pose", "joint", "joint", "copy", "offset", "assign", "fk", "clock" };
  int n = r.range(3, tier ? 60 : 25);
  for (int i = 0; i < n; ++i)
    p.add("call", true).set("t", r.range(0, nt - 1)).set("r", r.range(0, nr - 1)).set("op", op[r.range(0, 9)]).set("n", r.range(1, 4)).set("seed", (unsigned long)(r.u64() >> 40));
  if (nt > 1)
    Sched::gen(r, p, 4000, r.range(0, 6), r.range(0, 4));
}
struct Spec
{
  std::vector<Eigen::Vector4d> dh;
  std::vector<int> type;
  std::vector<double> lo, hi;
  std::vector<std::size_t> seed;
  std::vector<std::string> name;
  Isometry3d base;
  std::vector<rct::DHTransform> joints() const
  {
    std::vector<rct::DHTransform> v;
    for (std::size_t i = 0; i < dh.size(); ++i)
    {
      rct::DHTransform t(dh[i], (rct::DHJointType)type[i], name[i], seed[i]);
      t.min = lo[i];
      t.max = hi[i];
      v.push_back(t);
    }
    return v;
  }
  rct::DHChain chain() const { return rct::DHChain(joints(), base); }
};
static Spec randSpec(Rng& r, bool same)
{
  Spec s;
  int n = r.range(1, 7);
  for (int i = 0; i < n; ++i)
  {
    s.dh.push_back(Eigen::Vector4d(r.uni(-1, 1), r.uni(-3, 3), r.uni(-1, 1), r.uni(-3, 3)));
    s.type.push_back(r.range(0, 1));
    double a, b;
    switch (r.range(0, 4))
    {
      case 0:
        a = -M_PI, b = M_PI;
        break;
      case 1:
        a = r.uni(1, 5), b = a + r.uni(0.1, 3);
        break;
      case 2:
        b = r.uni(-5, -1), a = b - r.uni(0.1, 3);
        break;
      case 3:
        a = r.uni(-1, 1), b = a + 1e-6;
        break;
      default:
        a = r.uni(-6, 0), b = r.uni(0.1, 6);
    }
    s.lo.push_back(a), s.hi.push_back(b);
    s.seed.push_back(same ? 1234 : r.chance(0.1) ? (std::size_t)r.range(0, 1) : r.chance(0.1) ? (std::size_t)(r.u64() >> 20) : (std::size_t)r.range(0, 1000000));
    s.name.push_back("j" + std::to_string(r.range(0, 99)));
  }
  s.base = mountPose(r, 1.0);
  return s;
}
static std::vector<double> vec(const Eigen::VectorXd& x) { return std::vector<double>(x.data(), x.data() + x.size()); }
static Isometry3d fk(const Spec& s, const Eigen::MatrixX4d& off, const Eigen::VectorXd& q)
{
  Eigen::Matrix4d T = s.base.matrix();
  for (int i = 0; i < q.size(); ++i)
  {
    Eigen::Vector4d d = s.dh[i] + off.row(i).transpose();
    d[s.type[i] == 0 ? 0 : 1] += q[i];
    double ct = std::cos(d[1]), st = std::sin(d[1]), ca = std::cos(d[3]), sa = std::sin(d[3]);
    Eigen::Matrix4d A;
    A << ct, -st * ca, st * sa, d[2] * ct, st, ct * ca, -ct * sa, d[2] * st, 0, sa, ca, d[0], 0, 0, 0, 1;
    T = T * A;
  }
  Isometry3d o;
  o.matrix() = T;
  return o;
}
struct Rec
{
  int what;  // 0 pose 1 joint
  int robot, joint;
  std::vector<double> v;
};

static void run(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  int nr = (int)s.i("robots"), nt = (int)s.i("threads");
  Rng r((uint64_t)s.i("seed"), "world");
  std::vector<Spec> spec;
  for (int i = 0; i < nr; ++i)
    spec.push_back(randSpec(r, s.i("sameseed")));
  auto limits = [&](int k, int j, double v, const char* how) {
    if (!(v >= spec[k].lo[j] && v <= spec[k].hi[j]))
      ctx.fail("outside-limits", fmt("joint %d of robot %d drawn by %s: %.17g outside [%.17g, %.17g]", j, k, how, v, spec[k].lo[j], spec[k].hi[j]));
  };
  // ---- reference: the same models, used alone, one call after another
  std::vector<std::vector<std::vector<double>>> refPose(nr);
  std::vector<std::vector<std::vector<double>>> refJoint(nr);  // robot, joint, sequence of values
  int want = 0;
  for (auto* c : p.all("call"))
    want += (int)c->i("n");
  for (int k = 0; k < nr; ++k)
  {
    rct::DHChain c = spec[k].chain();
    for (int i = 0; i < want; ++i)
      refPose[k].push_back(vec(c.createUniformlyRandomPose()));
    auto js = spec[k].joints();
    refJoint[k].resize(js.size());
    for (std::size_t j = 0; j < js.size(); ++j)
      for (int i = 0; i < want; ++i)
        refJoint[k][j].push_back(js[j].createRandomJointValue());
  }
  // the range is covered
  if (s.i("cover"))
    for (int k = 0; k < nr; ++k)
    {
      const int N = 400, B = 8;
      rct::DHChain c = spec[k].chain();
      std::vector<std::vector<int>> hit(spec[k].dh.size(), std::vector<int>(B, 0)), hitJ = hit;
      auto js = spec[k].joints();
      for (int i = 0; i < N; ++i)
      {
        Eigen::VectorXd q = c.createUniformlyRandomPose();
        for (int j = 0; j < q.size(); ++j)
        {
          limits(k, j, q[j], "a pose");
          double w = spec[k].hi[j] - spec[k].lo[j], x = js[j].createRandomJointValue();
          limits(k, j, x, "a joint value");
          hit[j][std::min(B - 1, (int)(B * (q[j] - spec[k].lo[j]) / w))]++;
          hitJ[j][std::min(B - 1, (int)(B * (x - spec[k].lo[j]) / w))]++;
        }
      }
      for (std::size_t j = 0; j < hit.size(); ++j)
        for (int b = 0; b < B; ++b)
          ctx.check(hit[j][b] > 0 && hitJ[j][b] > 0, "range-not-covered", fmt("joint %zu of robot %d: no draw out of %d in part %d of %d of its range", j, k, N, b, B));
      ctx.note("coverage_checked", 1);
    }
  Entropy::reset((uint64_t)s.i("entropy"));
  // ---- the run: the same models shared by threads
  std::vector<std::unique_ptr<rct::DHChain>> chain;
  std::vector<std::vector<rct::DHTransform>> joint(nr);
  for (int k = 0; k < nr; ++k)
  {
    chain.emplace_back(new rct::DHChain(spec[k].chain()));
    joint[k] = spec[k].joints();
  }
  auto calls = p.all("call");
  std::vector<std::vector<Rec>> rec(nt);
  std::vector<std::string> bad(nt), badCls(nt);
  auto flag = [&](int t, const std::string& c, const std::string& m) {
    if (badCls[t].empty())
      badCls[t] = c, bad[t] = m;
  };
  // a copy behaves like a model with the same seed: from its start, or from where the original was
  auto follows = [&](int k, const std::vector<std::vector<double>>& got) {
    for (std::size_t o = 0; o + got.size() <= refPose[k].size(); ++o)
    {
      bool ok = true;
      for (std::size_t i = 0; i < got.size() && ok; ++i)
        ok = got[i] == refPose[k][o + i];
      if (ok)
        return true;
    }
    return false;
  };
  auto followsJoint = [&](int t, int k, int j, const rct::DHTransform& x, int n) {
    auto& ref = refJoint[k][j];
    std::vector<double> got;
    for (int i = 0; i < n; ++i)
      got.push_back(x.createRandomJointValue());
    bool any = false;
    for (std::size_t o = 0; !any && o + got.size() <= ref.size(); ++o)
      any = std::equal(got.begin(), got.end(), ref.begin() + o);
    if (!any || x.min != spec[k].lo[j] || x.max != spec[k].hi[j] || x.random_seed != spec[k].seed[j] || x.name != spec[k].name[j])
      flag(t, "joint-copy-changed", fmt("a copy of joint %d of a robot has other limits, seed, name or draws", j));
  };
  auto work = [&](int t) {
    for (auto* c : calls)
    {
      if ((int)c->i("t") != t || (int)c->i("r") >= nr)
        continue;
      int k = (int)c->i("r"), n = (int)c->i("n");
      const std::string& op = c->str("op");
      Rng q((uint64_t)c->i("seed"), "call");
      const Spec& sp = spec[k];
      if (op == "pose")
        for (int i = 0; i < n; ++i)
          rec[t].push_back({ 0, k, 0, vec(chain[k]->createUniformlyRandomPose()) });
      else if (op == "joint")
        for (int i = 0; i < n; ++i)
        {
          int j = q.range(0, (int)sp.dh.size() - 1);
          rec[t].push_back({ 1, k, j, { joint[k][j].createRandomJointValue() } });
        }
      else if (op == "clock")
        Clock::jump((int64_t)(q.uni(-1, 1) * 1e12));
      else
      {
        Eigen::MatrixX4d off = Eigen::MatrixX4d::Zero(sp.dh.size(), 4);
        if (op == "offset")
          for (int i = 0; i < off.size(); ++i)
            off(i) = q.uni(-0.1, 0.1);
        rct::DHChain cp = op == "offset" ? rct::DHChain(*chain[k], off) : rct::DHChain(*chain[k]);
        std::unique_ptr<rct::DHChain> use;
        if (op == "assign")
        {
          rct::DHChain other = spec[(k + 1) % nr].chain();
          if (q.chance(0.5))
            other.createUniformlyRandomPose();
          other = cp;
          // draw from the model that was assigned over, or from one it is assigned to in turn
          if (q.chance(0.6))
            use = std::make_unique<rct::DHChain>(spec[(k + 1) % nr].chain()), use->createUniformlyRandomPose(), *use = cp;
          else
            cp = other;
        }
        rct::DHChain& drawn = use ? *use : cp;
        auto lab = cp.getParamLabels();
        auto tab = cp.getDHTable();
        auto ty = cp.getJointTypes();
        bool same = cp.dof() == sp.dh.size() && cp.getBaseOffset().isApprox(sp.base, 1e-12);
        for (std::size_t j = 0; same && j < sp.dh.size(); ++j)
        {
          static const char* nm[] = { "_d", "_theta", "_r", "_alpha" };
          for (int m = 0; m < 4; ++m)
          {
            same = same && lab[j][m] == sp.name[j] + nm[m];
            same = same && std::abs(tab(j, m) - (sp.dh[j][m] + off(j, m))) < 1e-12;
          }
          same = same && (int)ty[j] == sp.type[j];
        }
        if (!same)
          flag(t, "copy-changed", "a copy (" + op + ") of a robot has other names, types or geometry");
        Eigen::VectorXd jv((int)sp.dh.size());
        for (int j = 0; j < jv.size(); ++j)
          jv[j] = q.uni(-3, 3);
        PoseErr e = poseErr(cp.getFK<double>(jv), fk(sp, off, jv));
        if (!(e.ang < 1e-6 && e.trans < 1e-9))
          flag(t, "copy-kinematics", fmt("forward kinematics of a copy (%s) is off by %.3g rad %.3g m", op.c_str(), e.ang, e.trans));
        if (op != "fk")
        {
          std::vector<std::vector<double>> got;
          for (int i = 0; i < n; ++i)
          {
            got.push_back(vec(drawn.createUniformlyRandomPose()));
            for (std::size_t j = 0; j < got.back().size(); ++j)
              if (!(got.back()[j] >= sp.lo[j] && got.back()[j] <= sp.hi[j]))
                flag(t, "copy-outside-limits", fmt("joint %zu of a copy (%s) drawn as %.17g outside [%.17g, %.17g]", j, op.c_str(), got.back()[j], sp.lo[j], sp.hi[j]));
          }
          // the same for a copy of a single joint
          {
            int j = q.range(0, (int)sp.dh.size() - 1);
            rct::DHTransform cj = joint[k][j];
            if (op == "assign")
            {
              const Spec& os = spec[(k + 1) % nr];
              rct::DHTransform oj = os.joints()[q.range(0, (int)os.dh.size() - 1)];
              if (q.chance(0.7))
                oj.createRandomJointValue();
              oj = cj;
              cj = rct::DHTransform(cj.params, cj.type, cj.name, 77);
              cj = oj;
              if (q.chance(0.6))
                followsJoint(t, k, j, oj, n);
            }
            followsJoint(t, k, j, cj, n);
          }
          if (!follows(k, got))
            flag(t, "copy-other-sequence", "a copy (" + op + ") of a robot does not draw the sequence of its seed");
        }
      }
    }
  };
  if (nt == 1)
    work(0);
  else
  {
    Sched::start(p, ctx);
    std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t)
      th.emplace_back(work, t);
    for (auto& x : th)
      x.join();
    Sched::stop();
  }
  for (int t = 0; t < nt; ++t)
    if (!badCls[t].empty())
      ctx.fail(badCls[t], bad[t]);
  Digest dg;
  // every thread's draws are draws of the model's sequence, each drawn once, in an order that respects the thread's own
  for (int k = 0; k < nr; ++k)
    for (int w = 0; w < 2; ++w)
      for (int j = 0; j < (w ? (int)spec[k].dh.size() : 1); ++j)
      {
        auto& ref = refPose[k];
        if (!w)
        {
          int total = 0;
          for (auto& l : rec)
            for (auto& x : l)
              total += x.what == 0 && x.robot == k;
          std::vector<char> used(total, 0);
          for (auto& l : rec)
          {
            int last = -1;
            for (auto& x : l)
            {
              if (x.what != 0 || x.robot != k)
                continue;
              for (std::size_t i = 0; i < x.v.size(); ++i)
                limits(k, (int)i, x.v[i], "a pose");
              int at = -1;
              for (int i = 0; i < total && at < 0; ++i)
                if (!used[i] && ref[i] == x.v)
                  at = i;
              ctx.check(at >= 0, "sequence-differs", fmt("a pose of robot %d is not among the first %d of its seed's sequence", k, total));
              ctx.check(at > last, "sequence-order", fmt("poses of robot %d came out of order in one thread", k));
              used[at] = 1;
              last = at;
              dg.u(at);
              ctx.event64("pose", (uint64_t)at);
            }
          }
        }
        else
        {
          int total = 0;
          for (auto& l : rec)
            for (auto& x : l)
              total += x.what == 1 && x.robot == k && x.joint == j;
          std::vector<char> used(total, 0);
          for (auto& l : rec)
            for (auto& x : l)
            {
              if (x.what != 1 || x.robot != k || x.joint != j)
                continue;
              limits(k, j, x.v[0], "a joint value");
              int at = -1;
              for (int i = 0; i < total && at < 0; ++i)
                if (!used[i] && refJoint[k][j][i] == x.v[0])
                  at = i;
              ctx.check(at >= 0, "joint-sequence-differs", fmt("a value of joint %d of robot %d is not among the first %d of its seed's sequence", j, k, total));
              used[at] = 1;
              dg.u(at);
            }
        }
      }
  if (nt == 1)
  {
    ctx.state(dg.h);
    ctx.nontrivial();
  }
  ctx.simTime(0.001 * want);
}
static Registrar reg({ "C17", gen, run, "distinct interleavings (order of thread switches) or sequential call orders" });
