// C22: the kinematic calibration program of a two axis positioner, run whole on recorded poses; four solver threads under
// the scheduler
#pragma once
#include "dh.h"
#include "disk.h"
#include <iostream>
#include "../core/baton.h"
#include "../stubs/rct_sim_ros.h"

__attribute__((visibility("default"))) int rct_tool_kin(int, char**);

namespace kin
{
using namespace world;
using namespace sim;
using Eigen::Quaterniond;
// what befalls one recorded pose
enum
{
  NO_JOINTS,
  FEW_JOINTS,
  MANY_JOINTS,
  JOINT_TEXT,
  NO_POSE,
  POSE_PART,
  POSE_TEXT,
  CAMERA_JOINTS,   // joints of a camera chain that does not exist
  NO_CAMERA,       // the (empty) list of them is left out
  ERRORS,          // the measured pose is wrong
  KINDS
};
static const char* measName[] = { "joints-missing", "joints-too-few", "joints-too-many", "joint-garbage", "pose-missing", "pose-incomplete", "pose-garbage", "joints-of-no-chain", "empty-joint-list-left-out", "pose-wrong" };

static void gen(Rng& r, Plan& p, int tool, int tier)
{
  int n = r.range(6, tier ? 20 : 14);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("tool", tool).set("cams", 1).set("views", n).set("fix", 0);
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("ang", r.uni(0, 0.1)).set("trans", r.uni(0, 0.05));
  double z = r.u01();
  if (z < 0.3)
    for (int i = r.range(1, 4); i > 0; --i)
      p.add("measured", true).set("view", r.range(0, n - 1)).set("what", (int)ERRORS).set("key", (unsigned long)(r.u64() >> 40));
  else if (z < 0.65)
    p.add("measured", true).set("view", r.range(0, n - 1)).set("what", r.range(0, KINDS - 2)).set("key", (unsigned long)(r.u64() >> 40));
  if (r.chance(0.1))
    p.add("file", true).set("what", r.range(0, 4));
  if (r.chance(0.1))
    p.add("param", true).set("which", r.range(0, 2)).set("what", r.range(0, 4)).set("entry", r.range(0, 6));
  if (r.chance(0.5))
    Sched::gen(r, p, 2e4, r.range(0, 6), 0);
}

// rows of numbers between bars
inline bool numbers(const std::string& s, const std::string& title, int want, std::vector<double>& v)
{
  std::size_t at = s.rfind(title);
  if (at == std::string::npos)
    return false;
  std::string t = s.substr(at + title.size(), 2000);
  std::replace(t.begin(), t.end(), '|', ' ');
  std::istringstream i(t);
  double d;
  while ((int)v.size() < want && i >> d)
    v.push_back(d);
  return (int)v.size() == want;
}
inline bool after(const std::string& s, const std::string& label, double& v)
{
  std::size_t q = s.find(label);
  return q != std::string::npos && sscanf(s.c_str() + q + label.size(), "%lf", &v) == 1;
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& st = p.need("setup");
  int n = (int)st.i("views");
  Rng r((uint64_t)st.i("seed"), "world");
  disk::Scratch scratch;
  auto& S = rct_sim_ros::state();
  // ---- the positioner the program is made for, as documented in its source
  dh::Chain robot;
  robot.dh = { Eigen::Vector4d(0, 0, 0, -M_PI / 2), Eigen::Vector4d(-0.475, -M_PI / 2, 0, 0) };
  robot.type = { 1, 1 };
  robot.base = makePose(rotVec(Vector3d(M_PI / 2, 0, 0)), Vector3d(2.2, 0, 1.6));
  Isometry3d C = dh::smallMount(r, 1.5), T = dh::smallMount(r, 0.6);
  const Item& gi = p.need("guess");
  Rng rg((uint64_t)gi.i("seed"), "guess");
  Isometry3d Cg = perturb(C, rg, gi.d("ang"), gi.d("trans")), Tg = perturb(T, rg, gi.d("ang"), gi.d("trans"));
  std::vector<VectorXd> q(n, VectorXd(2));
  std::vector<Isometry3d> m(n);
  Eigen::MatrixX4d zero = Eigen::MatrixX4d::Zero(2, 4);
  for (int i = 0; i < n; ++i)
  {
    q[i] << r.uni(-2.5, 2.5), r.uni(-3, 3);
    m[i] = C.inverse() * robot.fk(q[i], zero) * T;
  }
  // ---- what happened to the record
  std::vector<std::set<int>> fate(n);
  std::vector<int> oddPart(n, 0);
  bool unusable = false, wrong = false;
  for (auto* it : p.all("measured"))
  {
    int v = (int)it->i("view"), w = (int)it->i("what");
    if (w == ERRORS)
    {
      Rng k((uint64_t)it->i("key"), "wrong");
      m[v] = m[v] * makePose(rotVec(unit(k) * k.uni(0.03, 0.2)), unit(k) * k.uni(0.03, 0.2));
      wrong = true;
    }
    else if (w != NO_CAMERA)
      unusable = true;
    fate[v].insert(w);
    oddPart[v] = (int)(it->i("key") % 7);
    ctx.fault(measName[w]);
  }
  std::string text;
  for (int i = 0; i < n; ++i)
  {
    auto& f = fate[i];
    Quaterniond u(m[i].linear());
    double x[7] = { m[i].translation().x(), m[i].translation().y(), m[i].translation().z(), u.w(), u.x(), u.y(), u.z() };
    static const char* nm[] = { "x", "y", "z", "qw", "qx", "qy", "qz" };
    text += fmt("image_%d:\n", i);
    if (f.count(CAMERA_JOINTS))
      text += "  camera_joints: [0.3]\n";
    else if (!f.count(NO_CAMERA))
      text += "  camera_joints: []\n";
    if (f.count(FEW_JOINTS))
      text += fmt("  target_joints: [%.17g]\n", q[i][0]);
    else if (f.count(MANY_JOINTS))
      text += fmt("  target_joints: [%.17g, %.17g, 0.1]\n", q[i][0], q[i][1]);
    else if (f.count(JOINT_TEXT))
      text += fmt("  target_joints: [%.17g, far]\n", q[i][0]);
    else if (!f.count(NO_JOINTS))
      text += fmt("  target_joints: [%.17g, %.17g]\n", q[i][0], q[i][1]);
    if (f.count(NO_POSE))
      continue;
    text += "  pose:\n";
    int odd = oddPart[i];
    for (int k = 0; k < 7; ++k)
      if (!(f.count(POSE_PART) && k == odd))
        text += f.count(POSE_TEXT) && k == odd ? fmt("    %s: far\n", nm[k]) : fmt("    %s: %.17g\n", nm[k], x[k]);
  }
  std::string file = scratch.dir + "/measurements.yaml";
  bool none = false;
  if (const Item* it = p.find("file"))
  {
    static const char* nm[] = { "record-lost", "record-garbage", "record-empty", "record-without-poses", "record-a-list" };
    int w = (int)it->i("what");
    ctx.fault(nm[w]);
    none = true;
    text = w == 1 ? "{ [ not a record" : w == 2 ? "" : w == 3 ? "{}\n" : w == 4 ? "- 1\n- 2\n" : "\1";
  }
  if (text != "\1")
    disk::spill(file, text);
  // ---- parameters
  S.params.clear();
  S.keep = true;
  S.text.clear();
  auto pose = [](const Isometry3d& x) {
    XmlRpc::XmlRpcValue v = XmlRpc::XmlRpcValue::structure();
    Quaterniond q(x.linear());
    v["x"] = x.translation().x(), v["y"] = x.translation().y(), v["z"] = x.translation().z();
    v["qx"] = q.x(), v["qy"] = q.y(), v["qz"] = q.z(), v["qw"] = q.w();
    return v;
  };
  S.params["measurements_file"] = file;
  S.params["camera_mount_to_camera_guess"] = pose(Cg);
  S.params["target_mount_to_target_guess"] = pose(Tg);
  bool badParam = false;
  if (const Item* it = p.find("param"))
  {
    static const char* req[] = { "measurements_file", "camera_mount_to_camera_guess", "target_mount_to_target_guess" };
    std::string k = req[it->i("which")];
    int w = (int)it->i("what"), e = (int)it->i("entry"), i = 0;
    XmlRpc::XmlRpcValue& v = S.params[k];
    bool isFile = it->i("which") == 0;
    std::string how;
    badParam = true;
    if (w == 0)
      S.params.erase(k), how = "missing";
    else if (w == 1)
      v = XmlRpc::XmlRpcValue::array(), how = "list";
    else if (w == 2)
      v = isFile ? XmlRpc::XmlRpcValue(7) : XmlRpc::XmlRpcValue("text"), how = "another-type";
    else if (isFile)
      v = scratch.dir + "/nowhere.yaml", how = "nowhere";
    else
    {
      XmlRpc::XmlRpcValue keep = v;
      v = XmlRpc::XmlRpcValue::structure();
      for (auto& x : keep)
      {
        if (i++ != e)
          v[x.first] = x.second;
        else if (w == 4)
          v[x.first] = XmlRpc::XmlRpcValue("text");
      }
      how = w == 4 ? "entry-mistyped" : "entry-missing";
    }
    ctx.fault("parameter-" + how);
  }
  // ---- run the program
  bool sched = p.find("policy") || p.find("pre");
  std::ostringstream cap;
  std::streambuf *o = std::cout.rdbuf(cap.rdbuf());
  int rc = -99;
  std::string died;
  char prog[] = "program";
  char* argv[] = { prog, nullptr };
  Sched::start(p, ctx);
  try
  {
    rc = rct_tool_kin(1, argv);
  }
  catch (const XmlRpc::XmlRpcException& e)
  {
    died = "uncaught parameter error: " + e.getMessage();
  }
  catch (const std::exception& e)
  {
    died = std::string("uncaught ") + e.what();
  }
  catch (...)
  {
    died = "uncaught unknown exception";
  }
  Sched::stop();
  std::cout.rdbuf(o);
  std::string out = cap.str(), logs;
  int errors = 0;
  for (auto& l : S.text)
    logs += l.second + "\n", errors += l.first >= 3;
  ctx.event64("switches", Sched::switches());
  ctx.event(fmt("rc %d", rc));
  ctx.simTime(n * 2.0);
  ctx.note("runs kinematic calibration", 1);
  if (sched)
    ctx.note("runs kinematic calibration, threads preempted", 1);
  {
    Digest d;
    d.u(99);
    for (auto& f : fate)
    {
      d.u(f.size());
      for (int x : f)
        d.u(x);
    }
    d.u(fnv(text.data(), text.size()));
    ctx.state(d.h);
  }
  std::string what = fmt("kinematic calibration program, %d poses: ", n);
  ctx.check(died.empty(), "program-died", what + died);
  bool claims = out.find("Calibration did converge") != std::string::npos;
  if (badParam || none || unusable)
  {
    std::string why = badParam ? "configuration" : "record";
    ctx.check(rc != 0, "error-unreported", what + "the program ended with success although its " + why + " is unusable");
    ctx.check(errors > 0, "error-silent", what + "the program failed without saying why");
    ctx.check(!claims, "made-up-result", what + "a converged calibration is reported although the " + why + " is unusable");
    return;
  }
  {
    auto f = [&](const VectorXd& x) {
      VectorXd o(6 * n);
      Isometry3d c = retract(C, x, 0), t = retract(T, x, 6);
      for (int i = 0; i < n; ++i)
      {
        Isometry3d e = (C.inverse() * robot.fk(q[i], zero) * T).inverse() * (c.inverse() * robot.fk(q[i], zero) * t);
        o.segment<3>(6 * i) = e.translation();
        o.segment<3>(6 * i + 3) = dh::aaOf(e);
      }
      return o;
    };
    if (conditioning(numJac(f, VectorXd::Zero(12))) < 1e-2)
      ctx.skip("undetermined");
  }
  ctx.check(rc == 0, "usable-data-refused", what + "the program failed on data that determine the answer: " + logs);
  ctx.nontrivial();
  std::size_t a = out.find("DH calibration validation:"), b = out.find("Calibration validation - static DH parameters:"), c = out.find("Percent improvement");
  ctx.check(a != std::string::npos && b != std::string::npos && c != std::string::npos && a < b && b < c, "not-reported", what + "the report is not complete");
  std::string sec[2] = { out.substr(0, a), out.substr(a, b - a) }, val[2] = { out.substr(a, b - a), out.substr(b, c - b) }, gain = out.substr(c);
  double stats[2][4];
  static const char* label[] = { "Position Difference Mean: ", "Position Difference Std. Dev.: ", "Orientation Difference Mean: ", "Orientation difference Std. Dev.: " };
  for (int k = 0; k < 2; ++k)
  {
    std::string w = what + (k ? "nominal kinematics: " : "kinematics calibrated: ");
    Isometry3d got[2];
    for (int j = 0; j < 2; ++j)
    {
      std::string title = j ? "Target mount to target\n" : "Camera mount to camera\n";
      std::vector<double> M, E;
      ctx.check(numbers(sec[k], title, 16, M), "not-reported", w + "no \"" + title.substr(0, title.size() - 1) + "\" in the report");
      for (int i = 0; i < 16; ++i)
        got[j].matrix()(i / 4, i % 4) = M[i];
      std::size_t at = sec[k].rfind(title);
      std::string mine = sec[k].substr(at, sec[k].find(j ? "DH parameter" : "Target mount", at) - at);
      ctx.check(numbers(mine, "Euler ZYX: ", 3, E), "not-reported", w + "no Euler angles in the report");
      Matrix3d R = rotVec(Vector3d(0, 0, E[0])) * rotVec(Vector3d(0, E[1], 0)) * rotVec(Vector3d(E[2], 0, 0));
      ctx.check(angleBetween(R, Quaterniond(got[j].linear()).normalized().toRotationMatrix()) < 5e-3, "wrong-report", w + "the Euler angles differ from the matrix of \"" + title.substr(0, title.size() - 1) + "\"");
      got[j].linear() = Quaterniond(got[j].linear()).normalized().toRotationMatrix();
    }
    std::vector<double> D;
    ctx.check(numbers(sec[k], "DH parameter offsets\n", 8, D), "not-reported", w + "no DH parameter offsets in the report");
    Eigen::MatrixX4d off(2, 4);
    for (int i = 0; i < 8; ++i)
    {
      off(i / 4, i % 4) = D[i];
      if (i >= 4 || k)
        ctx.check(D[i] == 0, "fixed-moved", w + fmt("DH parameter %d of joint %d is fixed but reported as %g", i % 4, i / 4 + 1, D[i]));
    }
    for (int i = 0; i < 4; ++i)
      ctx.check(after(val[k], label[i], stats[k][i]), "not-reported", w + "no \"" + label[i] + "\" in the report");
    std::vector<double> dp, da;
    for (int i = 0; i < n; ++i)
    {
      PoseErr e = poseErr(got[0].inverse() * robot.fk(q[i], off) * got[1], m[i]);
      dp.push_back(e.trans), da.push_back(e.ang);
    }
    auto mean = [](const std::vector<double>& v) { double s = 0; for (double x : v) s += x / v.size(); return s; };
    auto dev = [&](const std::vector<double>& v, int less) { double u = mean(v), s = 0; for (double x : v) s += (x - u) * (x - u); return std::sqrt(s / (v.size() - less)); };
    double ref[4] = { mean(dp), dev(dp, 0), mean(da), dev(da, 0) }, alt[4] = { ref[0], dev(dp, 1), ref[2], dev(da, 1) };
    for (int i = 0; i < 4; ++i)
    {
      double tol = i < 2 ? 6e-3 : 2e-3;
      ctx.check(std::abs(stats[k][i] - ref[i]) < tol || std::abs(stats[k][i] - alt[i]) < tol, "wrong-report", w + fmt("\"%s\" is %g, but the printed calibration leaves %g", label[i], stats[k][i], ref[i]));
    }
    if (wrong)
      continue;
    // exact measurements of the nominal machine
    ctx.check(sec[k].rfind("Calibration did converge") != std::string::npos, "not-converged", w + "no convergence reported");
    double cost = 1;
    ctx.check(after(sec[k].substr(sec[k].rfind("Calibration did converge")), "Final cost per observation: ", cost) && cost < 1e-2, "cost", w + fmt("final cost %g", cost));
    for (int j = 0; j < 2; ++j)
    {
      PoseErr e = poseErr(got[j], j ? T : C);
      ctx.check(e.ang < 2e-3 && e.trans < 2e-3 * (1 + (j ? T : C).translation().norm()), "wrong-report", w + fmt("%s mount is off by %.3g rad, %.3g m", j ? "target" : "camera", e.ang, e.trans));
    }
    ctx.check(off.cwiseAbs().maxCoeff() < 1e-3, "wrong-report", w + fmt("a DH parameter of a perfect machine is off by %g", off.cwiseAbs().maxCoeff()));
    for (int i = 0; i < 4; ++i)
      ctx.check(stats[k][i] < 2e-4, "wrong-report", w + fmt("\"%s\" of exact data is %g", label[i], stats[k][i]));
  }
  if (wrong)
  {
    static const char* gl[] = { "\nPosition: ", "Position Std. Dev.: ", "Orientation: ", "Orientation Std. Dev.: " };
    for (int i = 0; i < 4; ++i)
    {
      double g = 1e9, ref = 100 * (stats[1][i] - stats[0][i]) / stats[1][i];
      ctx.check(after(gain, gl[i], g), "not-reported", what + "no percentages in the report");
      ctx.check(std::abs(g - ref) < 0.02 + 2e-3 * std::abs(ref), "wrong-report", what + fmt("improvement %g%% from %g to %g", g, stats[1][i], stats[0][i]));
    }
  }
}
}  // namespace kin
