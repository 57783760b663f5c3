// C22: the offline calibration programs, run whole on recorded data of which parts are lost, damaged or unusable
#include "world.h"
#include "disk.h"
#include "kin.h"
#include <iostream>
#include <opencv2/core.hpp>
#include <opencv2/imgcodecs.hpp>
#include <pluginlib/class_loader.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/projection.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include "../stubs/rct_sim_ros.h"
using namespace world;
using namespace sim;
using Eigen::Quaterniond;

__attribute__((visibility("default"))) int rct_tool_wrist(int, char**);
__attribute__((visibility("default"))) int rct_tool_static(int, char**);
__attribute__((visibility("default"))) int rct_tool_multi(int, char**);
__attribute__((visibility("default"))) int rct_tool_step(int, char**);
__attribute__((visibility("default"))) int rct_tool_intrinsic(int, char**);
__attribute__((visibility("default"))) int rct_tool_pnp(int, char**);
__attribute__((visibility("default"))) int rct_tool_multipnp(int, char**);
__attribute__((visibility("default"))) int rct_tool_noise(int, char**);
__attribute__((visibility("default"))) int rct_tool_validate(int, char**);

enum
{
  WRIST,
  STATIC,
  MULTI,
  STEP,
  INTRINSIC,
  PNP,
  MULTIPNP,
  NOISE,
  VALIDATE,
  KIN,
  TOOLS
};
static const char* toolName[] = { "camera on wrist", "static camera", "several static cameras", "several static cameras in steps", "intrinsic calibration", "one camera PnP", "several cameras PnP", "noise qualification", "intrinsic validation", "kinematic calibration" };
static int (*const toolMain[])(int, char**) = { rct_tool_wrist, rct_tool_static, rct_tool_multi, rct_tool_step, rct_tool_intrinsic, rct_tool_pnp, rct_tool_multipnp, rct_tool_noise, rct_tool_validate, rct_tool_kin };
// what befalls one capture
enum
{
  GOOD,
  NO_TARGET,      // the finder says so
  FINDER_CV,      // error of the image library inside the finder
  FINDER_LOGIC,   // another error inside the finder
  FINDER_EMPTY,   // the finder finds nothing
  CORRUPT,        // features in wrong places
  IMAGE_LOST,
  IMAGE_GARBAGE,
  POSE_LOST,
  POSE_GARBAGE,
  POSE_INCOMPLETE,
  DRAW_CV,        // drawing what was found fails
  DRAW_RUNTIME
};
static const char* capName[] = { "", "no-target", "finder-image-library-error", "finder-logic-error", "finder-finds-nothing", "features-corrupted", "image-file-lost", "image-file-garbage", "pose-file-lost", "pose-file-garbage", "pose-file-incomplete", "drawing-image-library-error", "drawing-error" };

static bool many(int t) { return t == MULTI || t == STEP || t == MULTIPNP; }
static std::vector<std::string> required(int tool, int nc)
{
  std::vector<std::string> v = { "target_finder" };
  if (many(tool))
  {
    v.push_back("num_of_cameras");
    for (int c = 0; c < nc; ++c)
    {
      std::string b = "camera_" + std::to_string(c) + "/";
      v.push_back(b + "data_path"), v.push_back(b + "intrinsics"), v.push_back(b + (tool == MULTIPNP ? "base_to_camera" : "base_to_camera_guess"));
    }
    if (tool != MULTIPNP)
      v.push_back("wrist_to_target_guess");
    if (tool == STEP)
      v.push_back("fix_first_camera");
    return v;
  }
  v.push_back("intrinsics");
  v.push_back(tool == PNP ? "image_path" : "data_path");
  if (tool == WRIST || tool == STATIC)
    v.push_back("homography_threshold");
  if (tool == WRIST || tool == VALIDATE)
    v.push_back("base_to_target_guess"), v.push_back("wrist_to_camera_guess");
  if (tool == STATIC)
    v.push_back("base_to_camera_guess"), v.push_back("wrist_to_target_guess");
  if (tool == NOISE)
    v.push_back("data_file"), v.push_back("camera_to_target_guess");
  return v;
}

static void gen(Rng& r, Plan& p, int tier)
{
  int tool = r.range(0, KIN - 1), nc = many(tool) ? r.range(1, 3) : 1, n = r.range(5, tier ? 14 : 10);
  if (tool == KIN)
    return kin::gen(r, p, tool, tier);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("tool", tool).set("cams", nc).set("views", n).set("fix", (int)r.chance(0.5));
  p.add("guess").set("seed", (unsigned long)(r.u64() >> 24)).set("ang", r.uni(0, 0.05)).set("trans", r.uni(0, 0.02));
  double k = r.chance(0.15) ? 0 : r.chance(0.1) ? 1 : r.uni(0.02, 0.4);
  // poses that are not quite those of the pictures: every capture then pulls the answer its own way
  bool slack = (tool == WRIST || tool == STATIC || tool == VALIDATE || tool == MULTI) && r.chance(0.6);
  static const int benign[] = { NO_TARGET, NO_TARGET, FINDER_EMPTY, CORRUPT, IMAGE_LOST, IMAGE_GARBAGE, POSE_LOST, POSE_GARBAGE, POSE_INCOMPLETE };
  if (slack && k > 0.5)
    k = 0.3;
  if (slack)
    p.add("slack", true).set("seed", (unsigned long)(r.u64() >> 24)).set("ang", tool == VALIDATE ? r.uni(0.00005, 0.0006) : r.uni(0.003, 0.02)).set("trans", tool == VALIDATE ? r.uni(0.0001, 0.0006) : r.uni(0.002, 0.01));
  for (int c = 0; c < nc; ++c)
    for (int v = 0; v < n; ++v)
    {
      if (r.chance(k))
        p.add("capture", true).set("cam", c).set("view", v).set("what", slack ? benign[r.range(0, 8)] : r.chance(0.25) ? (int)NO_TARGET : r.range(1, 12)).set("key", (unsigned long)(r.u64() >> 40));
      if (r.chance(0.5 * k) && !(slack && tool == VALIDATE))
        p.add("occlude", true).set("cam", c).set("view", v).set("keep", slack ? r.range(24, 60) : r.chance(0.3) ? r.range(1, 15) : r.range(12, 60)).set("key", (unsigned long)(r.u64() >> 40));
    }
  for (int i = r.chance(0.3) ? r.range(1, 3) : 0; i > 0; --i)
    p.add(r.chance(0.5) ? "twice" : "later", true).set("view", r.range(0, n - 1)).set("to", r.range(0, n));
  if (r.chance(0.08))
    p.add("index", true).set("cam", r.range(0, nc - 1)).set("what", r.range(0, 4));
  if (r.chance(0.12))
    p.add("param", true).set("which", r.range(0, 15)).set("what", r.range(0, 5)).set("entry", r.range(0, 6));
}

namespace
{
struct Cap
{
  int what = GOOD;
  std::vector<int> feats;
  std::vector<Vector2d> px;  // of every feature of the target
};
struct Cell
{
  std::map<int, Cap> caps;  // by tag of the picture
  TargetGeom tgt;
  std::vector<int> asked;
} cell;
int tag(const cv::Mat& m)
{
  if (m.empty() || m.type() != CV_8UC3)
    return -1;
  cv::Vec3b v = m.at<cv::Vec3b>(0, 0);
  return v[0] + 256 * v[1];
}
struct CellTarget : rct_image_tools::Target
{
  rct::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures& f) const override
  {
    rct::Correspondence2D3D::Set s;
    for (auto& x : f)
      for (auto& u : x.second)
        s.push_back(rct::Correspondence2D3D(u, cell.tgt.pts.at(x.first)));
    return s;
  }
};
struct CellFinder : rct_ros_tools::TargetFinderPlugin
{
  CellTarget t;
  void init(const YAML::Node&) override {}
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& m) const override
  {
    auto f = cell.caps.find(tag(m));
    if (f == cell.caps.end())
      CV_Error(cv::Error::StsAssert, "no such picture");
    cell.asked.push_back(f->first);
    switch (f->second.what)
    {
      case NO_TARGET:
        throw std::runtime_error("no target");
      case FINDER_CV:
        CV_Error(cv::Error::StsAssert, "image library");
      case FINDER_LOGIC:
        throw std::out_of_range("map::at");
      case FINDER_EMPTY:
        return {};
    }
    rct_image_tools::TargetFeatures o;
    for (int i : f->second.feats)
      o[i].push_back(f->second.px[i]);
    return o;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& m, const rct_image_tools::TargetFeatures&) const override
  {
    auto f = cell.caps.find(tag(m));
    if (f != cell.caps.end() && f->second.what == DRAW_CV)
      CV_Error(cv::Error::StsAssert, "image library");
    if (f != cell.caps.end() && f->second.what == DRAW_RUNTIME)
      throw std::runtime_error("cannot draw");
    return m.clone();
  }
  const rct_image_tools::Target& target() const override { return t; }
};
std::string poseText(const Isometry3d& x)
{
  Quaterniond q(x.linear());
  return fmt("x: %.17g\ny: %.17g\nz: %.17g\nqx: %.17g\nqy: %.17g\nqz: %.17g\nqw: %.17g\n", x.translation().x(), x.translation().y(), x.translation().z(), q.x(), q.y(), q.z(), q.w());
}
XmlRpc::XmlRpcValue poseParam(const Isometry3d& x)
{
  XmlRpc::XmlRpcValue v = XmlRpc::XmlRpcValue::structure();
  Quaterniond q(x.linear());
  v["x"] = x.translation().x(), v["y"] = x.translation().y(), v["z"] = x.translation().z();
  v["qx"] = q.x(), v["qy"] = q.y(), v["qz"] = q.z(), v["qw"] = q.w();
  return v;
}
// ---- reading the report
struct Printed
{
  bool there = false, ok = false;
  Isometry3d m, q, rpy;  // as matrix, as position and quaternion, as position and roll pitch yaw
  double deg[3], rad[3];
};
// the last transform printed under this title (a line "<title>:")
Printed transformAfter(const std::string& out, const std::string& title, std::size_t from = 0)
{
  Printed r;
  std::size_t p = std::string::npos;
  for (std::size_t q = out.find(title + ":\n", from); q != std::string::npos; q = out.find(title + ":\n", q + 1))
    if (q == 0 || out[q - 1] == '\n')
      p = q;
  if (p == std::string::npos)
    return r;
  r.there = true;
  std::istringstream s(out.substr(p + title.size() + 2));
  Eigen::Matrix4d M;
  for (int i = 0; i < 16; ++i)
    if (!(s >> M(i / 4, i % 4)))
      return r;
  std::string rest((std::istreambuf_iterator<char>(s)), {});
  std::size_t a = rest.find("xyz=\""), b = rest.find("rpy=\""), c = rest.find("qxyzw=\"");
  double x[3], q[4];
  if (a == std::string::npos || b == std::string::npos || c == std::string::npos)
    return r;
  if (sscanf(rest.c_str() + a, "xyz=\"%lf %lf %lf", &x[0], &x[1], &x[2]) != 3 || sscanf(rest.c_str() + c, "qxyzw=\"%lf %lf %lf %lf", &q[0], &q[1], &q[2], &q[3]) != 4 ||
      sscanf(rest.c_str() + b, "rpy=\"%lf(%lf deg) %lf(%lf deg) %lf(%lf deg)", &r.rad[0], &r.deg[0], &r.rad[1], &r.deg[1], &r.rad[2], &r.deg[2]) != 6)
    return r;
  r.m = Isometry3d::Identity();
  r.m.matrix() = M;
  Quaterniond Q(q[3], q[0], q[1], q[2]);
  Vector3d t(x[0], x[1], x[2]);
  r.q = makePose(Q.normalized().toRotationMatrix(), t);
  r.rpy = makePose(rotVec(Vector3d(0, 0, r.rad[2])) * rotVec(Vector3d(0, r.rad[1], 0)) * rotVec(Vector3d(r.rad[0], 0, 0)), t);
  r.ok = true;
  return r;
}
bool numberAfter(const std::string& s, const std::string& label, double& v, std::size_t from = 0)
{
  std::size_t p = s.find(label, from);
  return p != std::string::npos && sscanf(s.c_str() + p + label.size(), "%lf", &v) == 1;
}
// rows of numbers in brackets: [a,b,c]
bool listAfter(const std::string& s, const std::string& label, std::vector<double>& v)
{
  std::size_t p = s.find(label);
  if (p == std::string::npos)
    return false;
  p = s.find('[', p);
  std::size_t e = s.find(']', p);
  if (p == std::string::npos || e == std::string::npos)
    return false;
  std::string t = s.substr(p + 1, e - p - 1);
  std::replace(t.begin(), t.end(), ',', ' ');
  std::istringstream i(t);
  double d;
  while (i >> d)
    v.push_back(d);
  return true;
}
}  // namespace

static void run(const Plan& p, Ctx& ctx)
{
  cv::setNumThreads(1);
  const Item& st = p.need("setup");
  int tool = (int)st.i("tool"), nc = (int)st.i("cams"), n = (int)st.i("views");
  if (tool == KIN)
    return kin::run(p, ctx);
  Rng r((uint64_t)st.i("seed"), "world");
  disk::Scratch scratch;
  auto& S = rct_sim_ros::state();
  cell = Cell();
  // ---- the world
  TargetGeom& tgt = cell.tgt;
  tgt.rows = r.range(5, 8), tgt.cols = r.range(6, 9), tgt.spacing = r.uni(0.02, 0.05);
  bool centred = tool == INTRINSIC;
  if (centred)
    tgt.rows = r.range(6, 9), tgt.cols = r.range(6, 10), tgt.spacing = r.uni(0.03, 0.05);
  for (int i = 0; i < tgt.rows; ++i)
    for (int j = 0; j < tgt.cols; ++j)
      tgt.pts.push_back(Vector3d((j - (centred ? 0.5 * (tgt.cols - 1) : 0)) * tgt.spacing, (i - (centred ? 0.5 * (tgt.rows - 1) : 0)) * tgt.spacing, 0));
  int nf = (int)tgt.pts.size();
  std::vector<Camera> cam;
  for (int c = 0; c < nc; ++c)
    cam.push_back(randCamera(r));
  if (tool == INTRINSIC)
  {
    Camera& c = cam[0];
    c.fx = r.uni(0.8, 1.2) * c.w, c.fy = c.fx * r.uni(0.96, 1.04);
    if (r.chance(0.7))
      c.dist[0] = r.uni(-0.2, 0.2), c.dist[1] = r.uni(-0.1, 0.1), c.dist[2] = r.uni(-0.004, 0.004), c.dist[3] = r.uni(-0.004, 0.004), c.dist[4] = r.uni(-0.05, 0.05);
  }
  const Item& gi = p.need("guess");
  Rng rg((uint64_t)gi.i("seed"), "guess");
  double ga = gi.d("ang"), gt = gi.d("trans");
  Isometry3d ctr = makePose(Matrix3d::Identity(), tgt.center());
  auto guess = [&](const Isometry3d& x, bool target) { return target ? x * ctr * randPose(rg, ga, gt) * ctr.inverse() : perturb(x, rg, ga, gt); };
  Isometry3d T = mountPose(r, 0.5);                    // the target's mount
  std::vector<Isometry3d> C(nc), tool_(n);             // the cameras' mounts; the poses the robot reports
  std::vector<std::vector<Isometry3d>> ct(nc, std::vector<Isometry3d>(n));
  C[0] = mountPose(r, 1.0);
  Isometry3d still = lookAt(r, cam[0], tgt, 0.6);  // the view of a still camera and target
  if (tool == PNP)
    still = makePose(rotVec(Vector3d(r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-0.3, 0.3))) * Matrix3d(Vector3d(1, -1, -1).asDiagonal()), Vector3d(r.uni(-0.05, 0.05), r.uni(-0.05, 0.05), r.uni(0.4, 0.9)));
  double dist0 = 0;
  for (int v = 0; v < n; ++v)
  {
    Isometry3d& x = ct[0][v];
    if (tool == INTRINSIC)
    {
      double tilt = r.uni(0.25, 0.65), dir = r.uni(-M_PI, M_PI), roll = r.uni(-0.4, 0.4), half = 0.5 * std::min(cam[0].w, cam[0].h) / cam[0].fx;
      Matrix3d face = Vector3d(1, -1, -1).asDiagonal();
      double d = tgt.radius() / half * r.uni(0.85, 1.15) + 0.2 * tgt.radius();
      x = makePose(rotVec(Vector3d(std::cos(dir), std::sin(dir), 0) * tilt) * face * rotVec(Vector3d(0, 0, roll)), Vector3d(r.uni(-0.4, 0.4) * half * d, r.uni(-0.4, 0.4) * half * d, d));
    }
    else if (tool == NOISE)
      x = still * ctr * makePose(rotVec(unit(r) * r.uni(0, 0.03)), unit(r) * r.uni(0, 0.01)) * ctr.inverse();
    else if (tool == PNP)
      x = still;
    else
      x = lookAt(r, cam[0], tgt, 0.7);
    dist0 += (x * tgt.center()).z() / n;
    switch (tool)
    {
      case WRIST:
      case VALIDATE:
        tool_[v] = T * x.inverse() * C[0].inverse();  // base to wrist
        break;
      case MULTIPNP:
        tool_[v] = C[0] * x;  // base to target
        break;
      default:
        tool_[v] = C[0] * x * T.inverse();  // base to wrist, target on the wrist
    }
  }
  for (int c = 1; c < nc; ++c)
  {
    // beside the first camera
    C[c] = C[0] * makePose(rotVec(unit(r) * r.uni(0, 0.15)), unit(r) * r.uni(0.05, 0.2) * dist0);
    for (int v = 0; v < n; ++v)
      ct[c][v] = C[c].inverse() * C[0] * ct[0][v];
  }
  for (int c = 0; c < nc; ++c)
    for (int v = 0; v < n; ++v)
    {
      Cap& k = cell.caps[c * 100 + v];
      k.feats = allFeats(nf);
      for (auto& q : tgt.pts)
      {
        Vector3d y = ct[c][v] * q;
        if (y.z() < 0.05)
          ctx.skip("behind");
        k.px.push_back(cam[c].project(y));
      }
    }
  // ---- what happened to the captures
  // the programs for several cameras that pair captures by their place in the lists need lists that line up: there, files
  // are lost for all cameras
  bool lined = tool == STEP || tool == MULTIPNP;
  for (auto* it : p.all("capture"))
  {
    int c = (int)it->i("cam"), v = (int)it->i("view"), w = (int)it->i("what");
    if (tool == PNP)
      v = 0;
    if (tool == NOISE && w >= POSE_LOST && w <= POSE_INCOMPLETE)
      continue;
    if (tool != WRIST && tool != STATIC && w == CORRUPT)
      continue;
    if (w == CORRUPT)
    {
      Rng k((uint64_t)it->i("key"), "corrupt");
      for (auto& u : cell.caps[c * 100 + v].px)
      {
        double a = k.uni(-M_PI, M_PI), d = k.uni(40, 150);
        u += Vector2d(std::cos(a), std::sin(a)) * d;
      }
    }
    auto gone = [&](int x) { return lined && x >= IMAGE_LOST && x <= POSE_INCOMPLETE; };
    if (gone(cell.caps[c * 100 + v].what))
      continue;
    for (int e = 0; e < nc; ++e)
      if (e == c || gone(w))
        cell.caps[e * 100 + v].what = w;
    ctx.fault(capName[w]);
  }
  for (auto* it : p.all("occlude"))
  {
    auto& f = cell.caps[(int)it->i("cam") * 100 + (tool == PNP ? 0 : (int)it->i("view"))].feats;
    Rng k((uint64_t)it->i("key"), "occ");
    k.shuffle(f);
    if (f.size() > (std::size_t)it->i("keep"))
      f.resize((std::size_t)it->i("keep"));
    std::sort(f.begin(), f.end());
    ctx.fault("features-occluded");
  }
  // ---- the order of the captures in the index
  std::vector<int> order = allFeats(n);
  for (auto* it : p.all("twice"))
    order.insert(order.begin() + std::min<std::size_t>(order.size(), (std::size_t)it->i("to")), (int)it->i("view")), ctx.fault("capture-listed-twice");
  for (auto* it : p.all("later"))
  {
    auto f = std::find(order.begin(), order.end(), (int)it->i("view"));
    int v = *f;
    order.erase(f);
    order.insert(order.begin() + std::min<std::size_t>(order.size(), (std::size_t)it->i("to")), v);
    ctx.fault("capture-listed-elsewhere");
  }
  // ---- on disk
  std::vector<std::string> path(nc);
  std::vector<int> indexBad(nc, 0);  // 1: must be refused, 2: nothing in it
  Rng rn((uint64_t)st.i("seed"), "tool-pose");
  const Item* slack = nullptr;
  for (auto* it : p.all("slack"))
    slack = it;
  Rng rs(slack ? (uint64_t)slack->i("seed") : 0, "slack");
  if (slack)
  {
    ctx.fault("poses-inexact");
    for (int v = 0; v < n; ++v)
      tool_[v] = tool_[v] * randPose(rs, slack->d("ang"), slack->d("trans"));
  }
  for (int c = 0; c < nc; ++c)
  {
    std::string d = scratch.dir + "/cam" + std::to_string(c);
    ::mkdir(d.c_str(), 0755), ::mkdir((d + "/images").c_str(), 0755), ::mkdir((d + "/poses").c_str(), 0755);
    std::string index;
    for (int v : order)
      index += fmt("- pose: poses/%d.yaml\n  image: images/%d.png\n", v, v);
    for (int v = 0; v < n; ++v)
    {
      int w = cell.caps[c * 100 + v].what;
      cv::Mat m(tool == INTRINSIC ? (int)cam[c].h : 4, tool == INTRINSIC ? (int)cam[c].w : 6, CV_8UC3, cv::Scalar((c * 100 + v) % 256, (c * 100 + v) / 256, 9));
      std::string f = d + fmt("/images/%d.png", v);
      if (w != IMAGE_LOST)
        cv::imwrite(f, m, { cv::IMWRITE_PNG_COMPRESSION, 1 });
      if (w == IMAGE_GARBAGE)
        disk::spill(f, "no picture");
      f = d + fmt("/poses/%d.yaml", v);
      Isometry3d x = tool_[v];
      if (tool == MULTIPNP)
        x = x * ctr * randPose(rn, ga, gt) * ctr.inverse();
      std::string t = poseText(x);
      if (w == POSE_GARBAGE)
        t = "{ not: [ a pose";
      if (w == POSE_INCOMPLETE)
        t = t.substr(t.find("\n") + 1);
      if (w != POSE_LOST)
        disk::spill(f, t);
    }
    path[c] = d + "/cal.yaml";
    for (auto* it : p.all("index"))
      if (it->i("cam") == c && tool != PNP)
      {
        static const char* nm[] = { "index-lost", "index-garbage", "index-empty", "index-entry-incomplete", "index-cut" };
        int w = (int)it->i("what");
        if (w == 4 && lined)
          continue;  // lists that no longer line up
        ctx.fault(nm[w]);
        indexBad[c] = w == 2 ? 2 : 1;
        if (w == 0)
          index = "\1";
        else if (w == 1)
          index = "[ {";
        else if (w == 2)
          index = "[]\n";
        else if (w == 3)
          index += tool == NOISE ? "- pose: poses/0.yaml\n" : "- image: images/0.png\n";
        else
        {
          // cut between two entries: a shorter index
          std::size_t at = index.find("- pose", index.size() / 2);
          if (at != std::string::npos)
            index.resize(at);
          indexBad[c] = 3;
        }
      }
    if (index != "\1")
      disk::spill(path[c], index);
  }
  // ---- parameters
  S.params.clear();
  S.keep = true;
  S.text.clear();
  auto intr = [&](const Camera& c, double off) {
    XmlRpc::XmlRpcValue v = XmlRpc::XmlRpcValue::structure();
    v["fx"] = c.fx * (1 + off), v["fy"] = c.fy * (1 - off), v["cx"] = c.cx * (1 + off), v["cy"] = c.cy * (1 + off);
    return v;
  };
  std::vector<Isometry3d> Cg(nc);
  Isometry3d Tg = guess(T, true);
  for (int c = 0; c < nc; ++c)
    Cg[c] = guess(C[c], false);
  XmlRpc::XmlRpcValue tf = XmlRpc::XmlRpcValue::structure();
  tf["type"] = "sim/CellFinder";
  tf["rows"] = tgt.rows, tf["cols"] = tgt.cols, tf["spacing"] = tgt.spacing;
  S.params["target_finder"] = tf;
  S.params["num_of_cameras"] = nc;
  for (int c = 0; c < nc; ++c)
  {
    std::string b = "camera_" + std::to_string(c) + "/";
    S.params[b + "data_path"] = path[c];
    S.params[b + "intrinsics"] = intr(cam[c], 0);
    S.params[b + "base_to_camera_guess"] = poseParam(Cg[c]);
    S.params[b + "base_to_camera"] = poseParam(C[c]);
  }
  S.params["fix_first_camera"] = (bool)st.i("fix");
  S.params["intrinsics"] = intr(cam[0], tool == INTRINSIC ? rg.uni(-0.015, 0.015) : 0);
  S.params["homography_threshold"] = 2.0;
  S.params["image_path"] = scratch.dir + "/cam0/images/0.png";
  S.params["data_path"] = tool == NOISE ? scratch.dir + "/cam0" : path[0];
  S.params["data_file"] = path[0];
  S.params["camera_to_target_guess"] = poseParam(guess(still, true));
  if (tool == STATIC)
    S.params["base_to_camera_guess"] = poseParam(Cg[0]);
  S.params["wrist_to_target_guess"] = poseParam(Tg);
  S.params["base_to_target_guess"] = poseParam(tool == VALIDATE ? T : Tg);
  S.params["wrist_to_camera_guess"] = poseParam(tool == VALIDATE ? C[0] : Cg[0]);
  bool badParam = false, noCameras = false;
  for (auto* it : p.all("param"))
  {
    auto req = required(tool, nc);
    std::string k = req[(std::size_t)it->i("which") % req.size()];
    int w = (int)it->i("what"), e = (int)it->i("entry");
    XmlRpc::XmlRpcValue& v = S.params[k];
    std::string how;
    if (k == "num_of_cameras" && w >= 3)
    {
      v = w == 3 ? 0 : w == 4 ? -1 : nc + 1;
      how = "number";
      if (w == 3)
        noCameras = true;
      else
        badParam = true;
    }
    else
    {
      badParam = true;
      if (w == 0 || (w == 5 && v.getType() != XmlRpc::XmlRpcValue::TypeStruct))
        S.params.erase(k), how = "missing";
      else if (w == 1)
        v = XmlRpc::XmlRpcValue::array(), how = "list";
      else if (w == 2)
        v = XmlRpc::XmlRpcValue::dateTime(), how = "date";
      else if (w == 3)
        v = v.getType() == XmlRpc::XmlRpcValue::TypeString ? XmlRpc::XmlRpcValue(7) : XmlRpc::XmlRpcValue("text"), how = "another-type";
      else if (v.getType() != XmlRpc::XmlRpcValue::TypeStruct)
        v = v.getType() == XmlRpc::XmlRpcValue::TypeString ? XmlRpc::XmlRpcValue(scratch.dir + "/nowhere") : XmlRpc::XmlRpcValue::structure(), how = "nowhere";
      else
      {
        // one entry of the record
        XmlRpc::XmlRpcValue keep = v;
        v = XmlRpc::XmlRpcValue::structure();
        int i = 0, m = k == "target_finder" ? -1 : e % keep.size();
        for (auto& x : keep)
        {
          bool hit = m < 0 ? x.first == "type" : i == m;
          ++i;
          if (!hit)
            v[x.first] = x.second;
          else if (w == 4)
            v[x.first] = m < 0 && e % 2 ? XmlRpc::XmlRpcValue("nothing/known") : m < 0 ? XmlRpc::XmlRpcValue(3) : XmlRpc::XmlRpcValue("text");
        }
        how = w == 4 ? "entry-mistyped" : "entry-missing";
      }
    }
    if (tool == NOISE && k == "data_path")
      badParam = badParam && S.params.count(k) == 0 ? true : S.params[k].getType() != XmlRpc::XmlRpcValue::TypeString;  // a wrong folder only loses the pictures
    ctx.fault("parameter-" + how);
  }
  bool wrongFolder = false;
  if (tool == NOISE && S.params.count("data_path") && S.params["data_path"].getType() == XmlRpc::XmlRpcValue::TypeString)
    wrongFolder = (std::string)S.params["data_path"] != scratch.dir + "/cam0";
  rct_sim_ros::plugins()["sim/CellFinder"] = []() -> void* { return static_cast<rct_ros_tools::TargetFinderPlugin*>(new CellFinder()); };
  std::vector<int> shown;
  S.onShow = [&](const std::string&, const void* x) {
    const cv::Mat& m = *static_cast<const cv::Mat*>(x);
    // (an overlay may cover the corner of the picture)
    shown.push_back(m.type() == CV_8UC3 && m.at<cv::Vec3b>(0, 0)[2] == 9 ? tag(m) : -1);
  };
  // ---- run the program
  std::ostringstream cap;
  std::streambuf* o = std::cout.rdbuf(cap.rdbuf());
  int rc = -99;
  std::string died;
  char prog[] = "program";
  char* argv[] = { prog, nullptr };
  try
  {
    rc = toolMain[tool](1, argv);
  }
  catch (const XmlRpc::XmlRpcException& e)
  {
    died = "uncaught parameter error: " + e.getMessage();
  }
  catch (const std::exception& e)
  {
    died = std::string("uncaught ") + e.what();
  }
  catch (...)
  {
    died = "uncaught unknown exception";
  }
  std::cout.rdbuf(o);
  S.onShow = nullptr;
  std::string out = cap.str(), logs;
  int errors = 0;
  for (auto& l : S.text)
    logs += l.second + "\n", errors += l.first >= 3;
  std::string what = fmt("%s program, %d cameras, %d captures: ", toolName[tool], nc, n);
  ctx.event64("out", fnv(out.data(), out.size()));
  ctx.event(fmt("rc %d", rc));
  ctx.simTime(n * 2.0);
  ctx.note(std::string("runs ") + toolName[tool], 1);
  {
    Digest d;
    d.u(tool);
    for (auto& c : cell.caps)
      d.u(c.first).u(c.second.what).u(c.second.feats.size());
    for (int v : order)
      d.u(v);
    ctx.state(d.h);
  }
  ctx.check(died.empty(), "program-died", what + died);
  // ---- what it has to say
  bool claims = false;
  {
    double a = 0, b = 0;
    std::size_t at = out.rfind("Did converge?: 1");
    claims = at != std::string::npos && numberAfter(out, "Final cost?: ", b, at) && std::isfinite(b);
    (void)a;
  }
  bool badIndex = false, emptyIndex = false, cutIndex = false;
  for (int c = 0; c < nc; ++c)
    badIndex |= indexBad[c] == 1, emptyIndex |= indexBad[c] == 2, cutIndex |= indexBad[c] == 3;
  if (badParam || (badIndex && !noCameras))
  {
    ctx.check(rc != 0, "error-unreported", what + "the program ended with success although its " + (badParam ? "configuration" : "data set") + " is unusable");
    ctx.check(errors > 0, "error-silent", what + "the program failed without saying why");
    ctx.check(!claims, "made-up-result", what + "a converged calibration is reported although the " + (badParam ? "configuration" : "data set") + " is unusable");
    return;
  }
  if (noCameras)
  {
    ctx.check(!claims, "made-up-result", what + "a converged calibration without any camera");
    return;
  }
  ctx.check(rc == 0 || errors > 0, "error-silent", what + "the program failed without saying why");
  // the captures in the order of the index, as far as their files can be read
  auto len = [&](int c) {
    if (indexBad[c] == 2)
      return 0;
    if (indexBad[c] != 3)
      return (int)order.size();
    std::string t = disk::slurp(path[c]);
    int k = 0;
    for (std::size_t q = t.find("- pose"); q != std::string::npos; q = t.find("- pose", q + 1))
      ++k;
    return k;
  };
  std::vector<std::vector<int>> list(nc);  // views, per camera
  bool oddErrors = false, shaky = false, aligned = !emptyIndex && !cutIndex, fileLoss = false;
  for (int c = 0; c < nc; ++c)
    for (int i = 0; i < len(c); ++i)
    {
      int w = cell.caps[c * 100 + order[i]].what;
      if (tool == NOISE ? wrongFolder || w == IMAGE_LOST || w == IMAGE_GARBAGE : w >= IMAGE_LOST && w <= POSE_INCOMPLETE)
      {
        fileLoss = true;
        if (!lined)
          aligned = false;
        if (tool != NOISE)
          continue;
      }
      list[c].push_back(order[i]);
    }
  // whoever reports success has looked at every picture that can be read
  if (rc == 0 && (tool == WRIST || tool == STATIC || tool == INTRINSIC || tool == VALIDATE))
    for (int v : list[0])
      ctx.check(std::find(cell.asked.begin(), cell.asked.end(), v) != cell.asked.end(), "capture-ignored", what + fmt("the picture of capture %d was never searched for the target", v));
  // may the program give up because of this capture? errors other than runtime errors are not those of a failed search
  for (int c = 0; c < nc; ++c)
    for (int v : list[c])
    {
      int w = cell.caps[c * 100 + v].what;
      if (!many(tool) && (w == FINDER_CV || w == FINDER_LOGIC || w == DRAW_CV || (w == DRAW_RUNTIME)))
        oddErrors = true;
      if (many(tool) && (w == DRAW_CV || w == DRAW_RUNTIME))
        shaky = true;  // whether a capture counts whose overlay cannot be drawn is not stated
      if (tool == NOISE && (wrongFolder || w == IMAGE_LOST || w == IMAGE_GARBAGE))
        oddErrors = true;
    }
  auto usable = [&](int c, int v) {
    const Cap& k = cell.caps[c * 100 + v];
    if (tool == NOISE && (wrongFolder || k.what == IMAGE_LOST || k.what == IMAGE_GARBAGE))
      return false;
    return !(k.what == NO_TARGET || k.what == FINDER_CV || k.what == FINDER_LOGIC || k.what == FINDER_EMPTY || k.what == CORRUPT || k.what == DRAW_CV || k.what == DRAW_RUNTIME) && !k.feats.empty();
  };
  auto rich = [&](int c, int v) { return usable(c, v) && cell.caps[c * 100 + v].feats.size() >= 24; };
  auto poor = [&](int c, int v) { return usable(c, v) && !rich(c, v); };
  bool anything = false, anyPoor = false;
  for (int c = 0; c < nc; ++c)
    for (int v : list[c])
      anything |= usable(c, v) || cell.caps[c * 100 + v].what == DRAW_CV || cell.caps[c * 100 + v].what == DRAW_RUNTIME, anyPoor |= poor(c, v);
  if (tool == PNP)
    anything = usable(0, 0);
  if (!anything)
  {
    ctx.check(!claims, "made-up-result", what + "a converged calibration is reported although no target was found in any capture");
    ctx.note("nothing-usable", 1);
    return;
  }
  auto say = [&](const Printed& x, const std::string& title) {
    ctx.check(x.there, "not-reported", what + "no \"" + title + "\" in the report");
    ctx.check(x.ok, "unreadable-report", what + "\"" + title + "\" cannot be read");
  };
  // a printed transform: six significant digits
  auto expect = [&](const std::string& title, const Isometry3d& truth, double tol) {
    Printed x = transformAfter(out, title);
    say(x, title);
    double scale = 1 + truth.translation().norm();
    const Isometry3d* f[] = { &x.m, &x.q, &x.rpy };
    static const char* form[] = { "matrix", "quaternion", "roll-pitch-yaw" };
    for (int i = 0; i < 3; ++i)
    {
      PoseErr e = poseErr(*f[i], truth);
      ctx.check(e.ang < tol + 3e-5 && e.trans < (tol + 2e-5) * scale, "wrong-report", what + fmt("\"%s\" (%s) is off by %.3g rad, %.3g m", title.c_str(), form[i], e.ang, e.trans));
    }
    for (int i = 0; i < 3; ++i)
      ctx.check(std::abs(x.rad[i] * 180 / M_PI - x.deg[i]) < 2e-3, "wrong-report", what + fmt("\"%s\": %g rad is printed as %g deg", title.c_str(), x.rad[i], x.deg[i]));
  };
  auto succeed = [&]() {
    if (oddErrors && rc != 0)
      return false;
    ctx.check(rc == 0, "usable-data-refused", what + "the program failed on data that determine the answer: " + (logs.size() > 300 ? logs.substr(logs.size() - 300) : logs));
    return true;
  };
  auto converged = [&]() {
    ctx.check(claims, "not-converged", what + "no convergence reported");
    double c = 1;
    numberAfter(out, "Final cost?: ", c, out.rfind("Did converge?: 1"));
    ctx.check(c < 2e-3, "cost", what + fmt("final cost %g", c));
  };
  // residual model of one capture: pixels of its surviving features
  auto pixels = [&](int c, int v, const Isometry3d& x, std::vector<double>& o) {
    for (int f : cell.caps[c * 100 + v].feats)
    {
      Vector2d u = cam[c].project(x * tgt.pts[f]);
      o.push_back(u.x()), o.push_back(u.y());
    }
  };
  auto asVec = [](const std::vector<double>& o) { return VectorXd(Eigen::Map<const VectorXd>(o.data(), (long)o.size())); };

  if (tool == WRIST || tool == STATIC)
  {
    int m = 0;
    auto f = [&](const VectorXd& x) {
      Isometry3d c = retract(C[0], x, 0), t = retract(T, x, 6);
      std::vector<double> o;
      for (int v : list[0])
        if (rich(0, v))
          pixels(0, v, tool == WRIST ? c.inverse() * tool_[v].inverse() * t : c.inverse() * tool_[v] * t, o);
      return asVec(o);
    };
    std::set<int> d;
    for (int v : list[0])
      if (rich(0, v))
        d.insert(v);
    m = (int)d.size();
    if (m < 4 || conditioning(numJac(f, VectorXd::Zero(12))) < 4e-3)
      ctx.skip("undetermined");
    std::vector<int> used;
    for (int v : list[0])
      if (rich(0, v))
        used.push_back(v);
    // (with inexact poses, whether a capture counts whose overlay cannot be drawn matters)
    if (slack && (anyPoor || oddErrors))
      ctx.skip("undetermined");
    if (!succeed())
      return;
    // after the calibration each capture that counted is shown again, with its own picture
    if (!oddErrors && !anyPoor)
    {
      ctx.check(shown.size() >= used.size(), "not-reported", what + "captures that count are not shown");
      for (std::size_t i = 0; i < used.size(); ++i)
      {
        int s = shown[shown.size() - used.size() + i];
        ctx.check(s < 0 || s == used[i], "wrong-picture", what + fmt("picture %d is compared in place of %d", s, used[i]));
      }
    }
    if (slack)
    {
      // the calibration of exactly these captures, each with its own pose
      rct::ExtrinsicHandEyeProblem2D3D pb;
      pb.intr = cam[0].intr();
      pb.camera_mount_to_camera_guess = Cg[0];
      pb.target_mount_to_target_guess = Tg;
      for (int v : used)
      {
        rct::Observation2D3D ob;
        (tool == WRIST ? ob.to_camera_mount : ob.to_target_mount) = tool_[v];
        (tool == WRIST ? ob.to_target_mount : ob.to_camera_mount) = Isometry3d::Identity();
        const Cap& k = cell.caps[v];
        std::set<int> in(k.feats.begin(), k.feats.end());
        for (int i : in)
          ob.correspondence_set.push_back(rct::Correspondence2D3D(k.px[i], tgt.pts[i]));
        pb.observations.push_back(ob);
      }
      auto ref = rct::optimize(pb);
      if (!ref.converged)
        ctx.skip("undetermined");
      ctx.check(claims, "not-converged", what + "no convergence reported");
      ctx.note("inexact poses compared", 1);
      expect(tool == WRIST ? "WRIST TO CAMERA" : "BASE TO CAMERA", ref.camera_mount_to_camera, 5e-5);
      expect(tool == WRIST ? "BASE TO TARGET" : "WRIST_TO_TARGET", ref.target_mount_to_target, 5e-5);
      auto near = [&](double got, double want, double tol, const char* name) {
        ctx.check(std::abs(got - want) <= tol * std::abs(want) + 2e-6, "wrong-report", what + fmt("%s is %g instead of %g", name, got, want));
      };
      double a = -1, b = -1, c = -1, d2 = -1;
      numberAfter(out, "Initial cost?: ", a, out.rfind("Did converge?: 1"));
      near(a, std::sqrt(ref.initial_cost_per_obs), 2e-3, "the initial cost");
      numberAfter(out, "Final cost?: ", a, out.rfind("Did converge?: 1"));
      near(a, std::sqrt(ref.final_cost_per_obs), 2e-3, "the final cost");
      double pos = 0, ori = 0;
      for (auto& ob : pb.observations)
      {
        rct::PnPProblem pn;
        pn.intr = pb.intr;
        pn.camera_to_target_guess = ref.camera_mount_to_camera.inverse() * ob.to_camera_mount.inverse() * ob.to_target_mount * ref.target_mount_to_target;
        pn.correspondences = ob.correspondence_set;
        Isometry3d x = rct::optimize(pn).camera_to_target;
        pos += (pn.camera_to_target_guess.inverse() * x).translation().norm() / pb.observations.size();
        ori += Quaterniond(pn.camera_to_target_guess.linear()).angularDistance(Quaterniond(x.linear())) / pb.observations.size() * 180 / M_PI;
      }
      std::size_t q = out.find("Difference in camera to target transform");
      ctx.check(q != std::string::npos && numberAfter(out, "Mean (m): ", a, q) && numberAfter(out, "Mean (deg): ", b, q), "not-reported", what + "no comparison with PnP in the report");
      near(a, pos, 5e-3, "the mean distance from PnP");
      near(b, ori, 5e-3, "the mean angle from PnP");
      Eigen::ArrayXd e = rct::compute3DProjectionError(pb.observations, pb.intr, ref.camera_mount_to_camera, ref.target_mount_to_target);
      q = out.find("3D reprojection error statistics");
      ctx.check(q != std::string::npos && numberAfter(out, "Max (m): ", c, q) && numberAfter(out, "Min (m): ", d2, q), "not-reported", what + "no 3D errors in the report");
      near(c, e.maxCoeff(), 1e-2, "the largest 3D error");
      double mean = -1;
      numberAfter(out, "Std. Dev. (m): ", mean, q);
      near(mean, e.mean(), 5e-3, "the mean 3D error");
      return;
    }
    converged();
    expect(tool == WRIST ? "WRIST TO CAMERA" : "BASE TO CAMERA", C[0], 2e-4);
    expect(tool == WRIST ? "BASE TO TARGET" : "WRIST_TO_TARGET", T, 2e-4);
    double a = 1, b = 1, c = 1, d2 = 1;
    std::size_t q = out.find("Difference in camera to target transform");
    ctx.check(q != std::string::npos && numberAfter(out, "Mean (m): ", a, q) && numberAfter(out, "Mean (deg): ", b, q), "not-reported", what + "no comparison with PnP in the report");
    ctx.check(a < 2e-4 && b < 0.03, "wrong-report", what + fmt("exact data differ from PnP by %g m, %g deg", a, b));
    q = out.find("3D reprojection error statistics");
    ctx.check(q != std::string::npos && numberAfter(out, "Max (m): ", c, q) && numberAfter(out, "Min (m): ", d2, q), "not-reported", what + "no 3D errors in the report");
    ctx.check(c < 2e-4, "wrong-report", what + fmt("3D errors of exact data up to %g m", c));
  }
  else if (tool == MULTI || tool == STEP)
  {
    // the moments that count
    std::vector<std::set<int>> use(nc);
    if (tool == MULTI)
    {
      for (int c = 0; c < nc; ++c)
        for (int v : list[c])
          if (rich(c, v))
            use[c].insert(v);
    }
    else
      for (int v : list[0])
      {
        bool all = true;
        for (int c = 0; c < nc; ++c)
          all &= rich(c, v) && std::find(list[c].begin(), list[c].end(), v) != list[c].end();
        if (all)
          for (int c = 0; c < nc; ++c)
            use[c].insert(v);
      }
    if (tool == STEP && !aligned)
      ctx.skip("lists-do-not-line-up");
    std::vector<double> o;
    auto f = [&](const VectorXd& x) {
      Isometry3d t = retract(T, x, 6 * nc);
      std::vector<double> o;
      for (int c = 0; c < nc; ++c)
        for (int v : use[c])
          pixels(c, v, retract(C[c], x, 6 * c).inverse() * tool_[v] * t, o);
      return asVec(o);
    };
    for (int c = 0; c < nc; ++c)
      if (use[c].size() < 4 || anyPoor || shaky)
        ctx.skip("undetermined");
    if (conditioning(numJac(f, VectorXd::Zero(6 * nc + 6))) < 4e-3)
      ctx.skip("undetermined");
    if (!succeed())
      return;
    std::size_t q = out.find("REPROJECTION ERROR");
    ctx.check(q != std::string::npos, "not-reported", what + "no reprojection errors in the report");
    std::string analysis = out.substr(q);
    out.resize(q);
    {
      double b = 0;
      std::size_t at = out.rfind("Did converge?: ");
      claims = at != std::string::npos && out[at + 15] == '1' && numberAfter(out, "Final cost?: ", b, at) && std::isfinite(b);
    }
    if (tool == MULTI && !p.all("slack").empty())
    {
      rct::ExtrinsicMultiStaticCameraMovingTargetProblem pb;
      pb.wrist_to_target_guess = Tg;
      pb.wrist_poses.resize(nc), pb.image_observations.resize(nc);
      for (int c = 0; c < nc; ++c)
      {
        pb.intr.push_back(cam[c].intr());
        pb.base_to_camera_guess.push_back(Cg[c]);
        for (int v : list[c])
          if (rich(c, v))
          {
            const Cap& k = cell.caps[c * 100 + v];
            std::set<int> in(k.feats.begin(), k.feats.end());
            rct::Correspondence2D3D::Set s;
            for (int i : in)
              s.push_back(rct::Correspondence2D3D(k.px[i], tgt.pts[i]));
            pb.wrist_poses[c].push_back(tool_[v]);
            pb.image_observations[c].push_back(s);
          }
      }
      auto ref = rct::optimize(pb);
      if (!ref.converged)
        ctx.skip("undetermined");
      ctx.check(claims, "not-converged", what + "no convergence reported");
      ctx.note("inexact poses compared", 1);
      double got[] = { -1, -1 }, want[] = { std::sqrt(ref.initial_cost_per_obs), std::sqrt(ref.final_cost_per_obs) };
      numberAfter(out, "Initial cost?: ", got[0], out.rfind("Did converge?: 1"));
      numberAfter(out, "Final cost?: ", got[1], out.rfind("Did converge?: 1"));
      for (int i = 0; i < 2; ++i)
        ctx.check(std::abs(got[i] - want[i]) < 2e-3 * want[i] + 2e-6, "wrong-report", what + fmt("%s cost is %g instead of %g", i ? "final" : "initial", got[i], want[i]));
      expect("WRIST TO TARGET", ref.wrist_to_target, 1e-4);
      for (int c = 0; c < nc; ++c)
      {
        std::string k = std::to_string(c);
        expect("BASE TO CAMERA (camera_" + k + ")", ref.base_to_camera[c], 1e-4);
        expect("CAMERA 0 TO CAMERA (camera_" + k + ")", ref.base_to_camera[0].inverse() * ref.base_to_camera[c], 1e-4);
      }
      return;
    }
    converged();
    expect(tool == MULTI ? "WRIST TO TARGET" : "Wrist to Target", T, 3e-4);
    for (int c = 0; c < nc; ++c)
    {
      std::string k = std::to_string(c);
      expect((tool == MULTI ? "BASE TO CAMERA (camera_" : "Base To Camera (camera_") + k + ")", C[c], 3e-4);
      expect(tool == MULTI ? "CAMERA 0 TO CAMERA (camera_" + k + ")" : "Camera 0 to Camera " + k, C[0].inverse() * C[c], 3e-4);
    }
    if (aligned)
    {
      // every analysed moment agrees with the calibration
      int k = 0;
      for (std::size_t q = analysis.find("DELTA S: "); q != std::string::npos; q = analysis.find("DELTA S: ", q + 1))
      {
        double a = 1;
        numberAfter(analysis, "DELTA S: ", a, q);
        ctx.check(a < 1e-3, "wrong-report", what + fmt("exact data: analysed capture %d differs by %g m", k / 2, a));
        ++k;
      }
      int want = 0;
      for (int v : list[0])
      {
        int seen = 0;
        for (int c = 0; c < nc; ++c)
          seen += usable(c, v);
        want += tool == STEP ? seen == nc : seen >= 2;
      }
      ctx.check(k == 2 * want, "not-reported", what + fmt("%d of %d captures analysed", k / 2, want));
    }
  }
  else if (tool == INTRINSIC)
  {
    if (anyPoor)
      ctx.skip("undetermined");
    std::set<int> use;
    for (int v : list[0])
      if (rich(0, v))
        use.insert(v);
    // a partially seen flat target has a second, mirrored solution within reach of the built-in starting pose
    for (int v : use)
      if (cell.caps[v].feats.size() < 0.7 * nf)
        ctx.skip("mirrored-solution-within-reach");
    if (use.size() < 5)
      ctx.skip("undetermined");
    int m = (int)use.size(), dim = 9 + 6 * m, k = 0;
    MatrixXd N = MatrixXd::Zero(dim, dim);
    for (int v : use)
    {
      auto f = [&](const VectorXd& x) {
        Camera c = cam[0];
        c.fx += x[0], c.fy += x[1], c.cx += x[2], c.cy += x[3];
        for (int i = 0; i < 5; ++i)
          c.dist[i] += x[4 + i];
        Isometry3d P = retract(ct[0][v], x, 9);
        std::vector<double> o;
        for (int i : cell.caps[v].feats)
        {
          Vector2d u = c.project(P * tgt.pts[i]);
          o.push_back(u.x()), o.push_back(u.y());
        }
        return asVec(o);
      };
      MatrixXd J = numJac(f, VectorXd::Zero(15)), A = J.transpose() * J;
      int q = 9 + 6 * k++;
      N.block(0, 0, 9, 9) += A.block(0, 0, 9, 9);
      N.block(0, q, 9, 6) = A.block(0, 9, 9, 6);
      N.block(q, 0, 6, 9) = A.block(9, 0, 6, 9);
      N.block(q, q, 6, 6) = A.block(9, 9, 6, 6);
    }
    Eigen::SelfAdjointEigenSolver<MatrixXd> raw(N);
    if (!(raw.eigenvalues()[0] > 1e-12 * raw.eigenvalues()[dim - 1]))
      ctx.skip("covariance-not-representable");
    VectorXd sc = N.diagonal().cwiseMax(1e-30).cwiseSqrt();
    MatrixXd Q = sc.cwiseInverse().asDiagonal() * N * sc.cwiseInverse().asDiagonal();
    Eigen::SelfAdjointEigenSolver<MatrixXd> es(Q);
    double cond = es.eigenvalues()[0] > 0 ? std::sqrt(es.eigenvalues()[0] / es.eigenvalues()[dim - 1]) : 0;
    ctx.event(fmt("cond %.3g", cond));
    if (cond < 2e-3)
      ctx.skip("undetermined");
    if (!succeed())
      return;
    converged();
    double tol = 2e-3 * cam[0].fx;
    for (const char* title : { "RCT Intrinsics:\n", "OpenCV Intrinsics:\n" })
    {
      std::size_t q = out.find(title);
      double fx, fy, cx, cy;
      ctx.check(q != std::string::npos && numberAfter(out, "fx = ", fx, q) && numberAfter(out, "fy = ", fy, q) && numberAfter(out, "cx = ", cx, q) && numberAfter(out, "cy = ", cy, q), "not-reported",
                what + "no \"" + title + "\" in the report");
      double e = std::max(std::max(std::abs(fx - cam[0].fx), std::abs(fy - cam[0].fy)), std::max(std::abs(cx - cam[0].cx), std::abs(cy - cam[0].cy)));
      ctx.check(e < tol * (title[0] == 'O' ? 5 : 1), "wrong-report", what + fmt("%.20s fx %g fy %g cx %g cy %g instead of %g %g %g %g", title, fx, fy, cx, cy, cam[0].fx, cam[0].fy, cam[0].cx, cam[0].cy));
    }
    std::size_t q = out.find("RCT Distortion:\n");
    static const char* dn[] = { "k1 = ", "k2 = ", "p1 = ", "p2 = ", "k3 = " };
    ctx.check(q != std::string::npos, "not-reported", what + "no distortion in the report");
    // the fit predicts the pixels: compare the distorted rays over the image with the true ones
    Camera e = cam[0];
    for (int i = 0; i < 5; ++i)
      ctx.check(numberAfter(out, dn[i], e.dist[i], q), "not-reported", what + "no distortion in the report");
    ctx.check(std::abs(e.dist[0] - cam[0].dist[0]) < 2e-2 && std::abs(e.dist[2] - cam[0].dist[2]) < 2e-3 && std::abs(e.dist[3] - cam[0].dist[3]) < 2e-3, "wrong-report",
              what + fmt("distortion k1 %g p1 %g p2 %g instead of %g %g %g", e.dist[0], e.dist[2], e.dist[3], cam[0].dist[0], cam[0].dist[2], cam[0].dist[3]));
  }
  else if (tool == PNP)
  {
    const Cap& k = cell.caps[0];
    if (k.what == IMAGE_LOST || k.what == IMAGE_GARBAGE)
    {
      ctx.check(rc != 0 && !claims, "error-unreported", what + "success without a picture");
      return;
    }
    if (!rich(0, 0))
      ctx.skip("undetermined");
    if (!succeed())
      return;
    expect("OpenCV solvePNP", ct[0][0], 1e-3);
    double c = 1;
    std::size_t at = out.find("Did converge?: 1");
    // the program's own guess is fixed and may be too far
    if (at != std::string::npos && numberAfter(out, "Final cost?: ", c, at) && c < 1e-2)
      expect("RCT CAMERA TO TARGET", ct[0][0], 3e-4);
    else
      ctx.skip("guess-too-far");
  }
  else if (tool == MULTIPNP)
  {
    if (!aligned)
      ctx.skip("lists-do-not-line-up");
    if (anyPoor || shaky)
      ctx.skip("undetermined");
    if (!succeed())
      return;
    int i = 0, k = 0;
    std::string all = out;
    for (int v : list[0])
    {
      bool seen = true;
      for (int c = 0; c < nc; ++c)
        seen &= usable(c, v);
      std::size_t q = all.find("* REPROJECT IMAGE " + std::to_string(i) + " *");
      ctx.check((q != std::string::npos) == seen, seen ? "not-reported" : "made-up-result", what + fmt("capture %d of the list is %s by all cameras but %s", i, seen ? "seen" : "not seen", seen ? "not reported" : "reported"));
      if (seen)
      {
        std::size_t e = all.find("* REPROJECT IMAGE ", q + 5);
        out = all.substr(q, e == std::string::npos ? e : e - q);
        double c = 1;
        ctx.check(numberAfter(out, "Final cost?: ", c) && out.find("Did converge?: 1") != std::string::npos && c < 2e-3, "not-converged", what + fmt("capture %d: cost %g", i, c));
        expect("PNP", C[0] * ct[0][v], 3e-4);
        ++k;
      }
      ++i;
    }
    ctx.note("moments", k);
  }
  else if (tool == NOISE)
  {
    std::vector<Isometry3d> ps;
    if (anyPoor)
      ctx.skip("undetermined");
    for (int v : list[0])
      if (usable(0, v))
        ps.push_back(ct[0][v]);
    if (ps.size() < 2)
    {
      ctx.check(rc != 0, "made-up-result", what + fmt("statistics of %zu captures", ps.size()));
      return;
    }
    if (!succeed())
      return;
    Vector3d mean = Vector3d::Zero(), var = Vector3d::Zero();
    Eigen::Matrix4d M = Eigen::Matrix4d::Zero();
    for (auto& x : ps)
    {
      mean += x.translation() / ps.size();
      Quaterniond q(x.linear());
      Eigen::Vector4d u(q.x(), q.y(), q.z(), q.w());
      M += u * u.transpose() / ps.size();
    }
    for (auto& x : ps)
      var += (x.translation() - mean).cwiseAbs2();
    Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(M);
    Eigen::Vector4d qm = es.eigenvectors().col(3);
    double qv = 0;
    for (auto& x : ps)
      qv += std::pow(angleBetween(x.linear(), Quaterniond(qm[3], qm[0], qm[1], qm[2]).toRotationMatrix()), 2);
    std::vector<double> a, b, c;
    double d = -1;
    ctx.check(listAfter(logs, "Position mean (m)\n", a) && a.size() == 3 && listAfter(logs, "Position standard deviation (m)\n", b) && b.size() == 3 && listAfter(logs, "Quaternion mean (qx, qy, qz, qw)\n", c) && c.size() == 4 &&
                  numberAfter(logs, "Quaternion standard deviation\n", d),
              "not-reported", what + "no statistics in the report: " + logs.substr(0, 200));
    auto sd = [&](double got, double sum) {
      double lo = std::sqrt(sum / ps.size()), hi = std::sqrt(sum / (ps.size() - 1));
      return std::abs(got - lo) < 2e-3 * lo + 2e-5 || std::abs(got - hi) < 2e-3 * hi + 2e-5;
    };
    for (int i = 0; i < 3; ++i)
    {
      ctx.check(std::abs(a[i] - mean[i]) < 2e-4 + 7e-4 * std::abs(mean[i]), "wrong-report", what + fmt("mean position %d is %g instead of %g of %zu captures", i, a[i], mean[i], ps.size()));
      ctx.check(sd(b[i], var[i]), "wrong-report", what + fmt("spread of position %d is %g instead of %g of %zu captures", i, b[i], std::sqrt(var[i] / ps.size()), ps.size()));
    }
    Eigen::Vector4d got(c[0], c[1], c[2], c[3]);
    if (got.dot(qm) < 0)
      got = -got;
    ctx.check((got - qm).norm() < 1e-3, "wrong-report", what + fmt("mean orientation is off by %g", (got - qm).norm()));
    ctx.check(sd(d, qv), "wrong-report", what + fmt("spread of orientation is %g instead of %g", d, std::sqrt(qv / ps.size())));
  }
  else if (tool == VALIDATE)
  {
    if (anyPoor)
      ctx.skip("undetermined");
    std::vector<int> use;
    for (int v : list[0])
      if (rich(0, v))
        use.push_back(v);
    if (use.size() < 3)
      ctx.skip("undetermined");
    // the program compares captures feature by feature and says so when it cannot
    for (int v : use)
      if (cell.caps[v].feats.size() != cell.caps[use[0]].feats.size())
        oddErrors = true;
    rct::IntrinsicCalibrationAccuracyResult ref;
    if (slack)
    {
      rct::Observation2D3D::Set obs;
      for (int v : use)
      {
        rct::Observation2D3D ob;
        ob.to_camera_mount = tool_[v], ob.to_target_mount = Isometry3d::Identity();
        const Cap& k = cell.caps[v];
        std::set<int> in(k.feats.begin(), k.feats.end());
        for (int i : in)
          ob.correspondence_set.push_back(rct::Correspondence2D3D(k.px[i], tgt.pts[i]));
        obs.push_back(ob);
      }
      try
      {
        ref = rct::measureIntrinsicCalibrationAccuracy(obs, cam[0].intr(), C[0], T, Isometry3d::Identity(), 1.0);
      }
      catch (const std::exception&)
      {
        ctx.skip("undetermined");
      }
    }
    if (!succeed())
      return;
    if (slack)
    {
      double a = -1, b = -1, sa = -1, sb = -1;
      std::size_t q = logs.find("Positional Error:"), s = logs.find("Angular Error:");
      ctx.check(q != std::string::npos && s != std::string::npos && numberAfter(logs, "Mean (m): ", a, q) && numberAfter(logs, "Std. Dev. (m): ", sa, q) && numberAfter(logs, "Mean (rad): ", b, s) && numberAfter(logs, "Std. Dev. (rad): ", sb, s), "not-reported", what + "no errors in the report");
      double got[] = { a, sa, b, sb }, want[] = { ref.pos_error.first, ref.pos_error.second, ref.ang_error.first, ref.ang_error.second };
      static const char* nm[] = { "mean position error", "spread of the position error", "mean angle", "spread of the angle" };
      for (int i = 0; i < 4; ++i)
        ctx.check(std::abs(got[i] - want[i]) < 5e-3 * std::abs(want[i]) + 2e-6, "wrong-report", what + fmt("%s is %g instead of %g", nm[i], got[i], want[i]));
      double pe = want[0] + 2 * want[1], ae = want[2] + 2 * want[3], pt = 1e-3, at = 0.05 * M_PI / 180;

      bool valid = pe <= pt && ae <= at, close = std::abs(pe - pt) < 0.02 * pt || std::abs(ae - at) < 0.02 * at;
      ctx.check(close || (logs.find("is valid") != std::string::npos) == valid, "wrong-report", what + fmt("errors of %g m, %g rad and %s verdict", pe, ae, valid ? "no" : "a good"));
      ctx.note("inexact poses compared", 1);
      return;
    }
    double a = 1, b = 1;
    std::size_t q = logs.find("Positional Error:"), s = logs.find("Angular Error:");
    ctx.check(q != std::string::npos && s != std::string::npos && numberAfter(logs, "Mean (m): ", a, q) && numberAfter(logs, "Mean (rad): ", b, s), "not-reported", what + "no errors in the report");
    ctx.check(a < 3e-4 && b < 5e-4, "wrong-report", what + fmt("errors of an exact calibration: %g m, %g rad", a, b));
    ctx.check(logs.find("is valid") != std::string::npos, "wrong-report", what + "an exact calibration is not called valid");
  }
}
static Registrar reg({ "C22", gen, run, "distinct recorded sessions (program, fate of every capture, order)" });
