// C13: the data collection node under message loss, delay, duplication, malformed frames, transform outages and disk faults
#include "render.h"
#include "disk.h"
#include "../core/storage.h"
#include <boost/make_shared.hpp>
#include <deque>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <pluginlib/class_loader.h>
#include <rct_ros_tools/data_set.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include <sensor_msgs/Image.h>
#include "../stubs/rct_sim_ros.h"
using namespace world;
using namespace sim;

int rct_node_main(int argc, char** argv);

enum
{
  BGR,
  RGB,
  MONO,
  MONO16,
  BGRA,
  RGBA
};
static const char* encName[] = { "bgr8", "rgb8", "mono8", "mono16", "bgra8", "rgba8" };
// ways in which a frame cannot be used
static const char* badName[] = { "", "frame-unknown-encoding", "frame-data-too-short", "frame-row-length-too-short", "frame-of-no-size", "frame-without-data", "frame-raw-encoding", "frame-float-encoding", "frame-data-too-long" };
// what the finder does with it
static const char* findName[] = { "", "finder-runtime-error", "finder-image-library-error", "finder-logic-error", "finder-finds-nothing", "overlay-image-library-error", "overlay-logic-error" };

static void gen(Rng& r, Plan& p, int tier)
{
  int finder = r.chance(0.88) ? 0 : r.range(1, 2);
  double T = r.uni(0.5, tier ? 25 : 12);
  bool lateTf = r.chance(0.08);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("finder", finder).set("dir", r.chance(0.06) ? 1 : 0).set("config", r.chance(0.03) ? r.range(1, 9) : 0).set("inplace", (int)r.chance(0.6));
  int n = 0, k = 0;
  double outage = r.chance(0.4) ? r.uni(0, T) : 1e9, outageLen = r.chance(0.3) ? r.uni(3, 6) : r.uni(0.1, 3);
  if (!lateTf)
    p.add("tf", true).set("at", -0.001).set("id", k++);
  else
    p.add("tf", true).set("at", r.uni(0, 5)).set("id", k++);
  double rate = r.chance(0.3) ? 0.5 : 0.15;
  for (double t = r.uni(0, 1); t < T; t += r.uni(0.02, 2 * rate))
  {
    double at = t;
    bool dup = false;
    if (r.chance(0.1))
    {
      p.add("gone", true).set("what", "frame-lost");
      continue;
    }
    int late = 0;
    if (r.chance(0.1))
      at += r.uni(0.05, 2), late = 1;
    if (r.chance(0.06))
      dup = true;
    int bad = r.chance(0.15) ? r.range(1, 8) : 0, find = r.chance(0.3) ? r.range(1, 6) : 0;
    int enc = r.chance(0.5) ? BGR : r.range(0, 5);
    for (int d = 0; d < 1 + dup; ++d)
      p.add("img", true).set("at", at + d * r.uni(0.001, 1)).set("id", n).set("enc", enc).set("bad", bad).set("find", find).set("late", late).set("dup", d).set("pad", r.chance(0.2) ? r.range(1, 9) : 0);
    ++n;
  }
  for (double t = r.uni(0, 0.2); t < T; t += r.uni(0.05, 0.6))
  {
    if (t > outage && t < outage + outageLen)
      continue;
    if (r.chance(0.1))
    {
      p.add("gone", true).set("what", "transform-lost");
      continue;
    }
    p.add("tf", true).set("at", t + (r.chance(0.1) ? r.uni(0, 1) : 0)).set("id", k++);
  }
  if (outage < T)
    p.add("tfdown", true).set("at", outage);
  for (double t = r.uni(0, 1.5); t < T + 1; t += r.uni(0.05, 1.5))
    p.add("trig", true).set("at", t);
  int ns = r.chance(0.5) ? 0 : r.range(1, 3);
  for (int s = 0; s < ns; ++s)
  {
    p.add("save", true).set("at", r.uni(0, T + 1)).set("key", s);
    int nf = r.chance(0.35) ? 0 : r.range(1, 2);
    for (int i = 0; i < nf; ++i)
    {
      int kind = r.range(0, 3);
      p.add("fault", true).set("key", s).set("at", r.chance(0.3) ? r.range(0, 4) : r.range(0, 30)).set("part", r.u01()).set("err", kind == 0 ? ENOSPC : kind == 1 ? EIO : kind == 2 ? EACCES : 0).set("stays", (int)r.chance(0.5));
    }
  }
}

namespace
{
// a scripted finder: the first pixel of a frame tells what happens with it
struct Script
{
  std::map<uint32_t, int> what;
  bool inplace = false;
  int finds = 0, draws = 0;
} script;
struct NoTarget : rct_image_tools::Target
{
  rct_optimizations::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures&) const override { return {}; }
};
uint32_t tag(const cv::Mat& m)
{
  if (m.empty() || m.type() != CV_8UC3)
    return 0;
  uint64_t h = 1469598103934665603ull;
  for (int y = 0; y < m.rows; ++y)
    h = fnv(m.ptr(y), m.cols * m.elemSize(), h);
  return (uint32_t)(h ^ (h >> 32));
}
struct ScriptedFinder : rct_ros_tools::TargetFinderPlugin
{
  NoTarget t;
  void init(const YAML::Node&) override {}
  int of(const cv::Mat& m) const
  {
    auto f = script.what.find(tag(m));
    return f == script.what.end() ? 0 : f->second;
  }
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& m) const override
  {
    ++script.finds;
    int w = of(m);
    if (w == 1)
      throw std::runtime_error("no target");
    if (w == 2)
      CV_Error(cv::Error::StsAssert, "image library");
    if (w == 3)
      throw std::out_of_range("map::at");
    rct_image_tools::TargetFeatures f;
    if (w != 4)
      f[0].push_back(Vector2d(1, 1));
    return f;
  }
  cv::Mat drawTargetFeatures(const cv::Mat& m, const rct_image_tools::TargetFeatures& f) const override
  {
    ++script.draws;
    int w = of(m);
    cv::Mat o = script.inplace ? m : m.clone();
    if (!o.empty())
      o.row(0).setTo(cv::Scalar(7, 7, 7));
    if (w == 5)
      CV_Error(cv::Error::StsAssert, "image library");
    if (w == 6)
      throw std::out_of_range("map::at");
    return o;
  }
  const rct_image_tools::Target& target() const override { return t; }
};
bool sameImage(const cv::Mat& a, const cv::Mat& b)
{
  if (a.size() != b.size() || a.type() != b.type())
    return false;
  for (int y = 0; y < a.rows; ++y)
    if (memcmp(a.ptr(y), b.ptr(y), a.cols * a.elemSize()) != 0)
      return false;
  return true;
}
bool samePose(const Isometry3d& a, const Isometry3d& b)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      if (!(std::abs(a(i, j) - b(i, j)) <= 1e-11 * std::max(1.0, std::abs(b(i, j)))))
        return false;
  return true;
}
struct Pair
{
  int frame;               // which frame
  std::vector<int> poses;  // one of these
  std::string when;
};
}  // namespace

static void run(const Plan& p, Ctx& ctx)
{
  const Item& st = p.need("setup");
  const uint64_t seed = (uint64_t)st.i("seed");
  int kind = (int)st.i("finder");
  disk::Scratch scratch;
  std::string dir = scratch.dir + (st.i("dir") ? "/missing/data" : "/data");
  auto& S = rct_sim_ros::state();
  script = Script();
  script.inplace = st.i("inplace");
  // ---- the pictures the camera takes
  render::Circles pc(4, 5, 0.02);
  render::Charuco ph(4, 4, 0.04, 0.03, cv::aruco::DICT_4X4_50);
  std::map<int, cv::Mat> pics, greys;
  auto picture = [&](int id, bool grey) -> const cv::Mat& {
    auto& store = grey ? greys : pics;
    auto f = store.find(id);
    if (f != store.end())
      return f->second;
    Rng r(seed + id * 977, "picture");
    cv::Mat g;
    if (kind && r.chance(0.7))
    {
      Camera c;
      c.fx = c.fy = 200, c.cx = 79.5, c.cy = 59.5, c.w = 160, c.h = 120;
      render::Look look;
      look.ss = 2;
      const render::Pattern& pat = kind == 1 ? (const render::Pattern&)pc : ph;
      g = render::draw(c, { { &pat, render::facing(r, c, pat, 0.1, 0.1, 1.0, 1.05) } }, look);
    }
    else
    {
      int h = r.chance(0.1) ? r.range(1, 3) : r.range(4, 24), w = r.chance(0.1) ? r.range(1, 3) : r.range(4, 30);
      g.create(h, w, CV_8UC1);
      for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
          g.at<uchar>(y, x) = (uchar)r.range(0, 255);
    }
    cv::Mat c(g.rows, g.cols, CV_8UC3);
    for (int y = 0; y < g.rows; ++y)
      for (int x = 0; x < g.cols; ++x)
        c.at<cv::Vec3b>(y, x) = grey ? cv::Vec3b::all(g.at<uchar>(y, x)) : cv::Vec3b(g.at<uchar>(y, x), (uchar)(g.at<uchar>(y, x) ^ (x * 3)), (uchar)(g.at<uchar>(y, x) + y));
    return store[id] = c;
  };
  auto poseOf = [&](int id) {
    Rng r(seed + id * 131, "pose");
    return mountPose(r, 2.0);
  };
  auto isGrey = [](const Item& it) { return it.i("enc") == MONO || it.i("enc") == MONO16; };
  auto message = [&](const Item& it) {
    auto m = boost::make_shared<sensor_msgs::Image>();
    const cv::Mat& c = picture((int)it.i("id"), isGrey(it));
    int enc = (int)it.i("enc"), bad = (int)it.i("bad"), px = enc == MONO ? 1 : enc == MONO16 ? 2 : enc >= BGRA ? 4 : 3;
    m->header.frame_id = "camera";
    m->header.seq = (uint32_t)it.i("id");
    m->width = c.cols, m->height = c.rows, m->encoding = encName[enc];
    m->step = c.cols * px + (uint32_t)it.i("pad") * (enc == MONO16 ? 2 : 1);
    m->data.assign((size_t)m->step * m->height, 0xEE);
    for (int y = 0; y < c.rows; ++y)
      for (int x = 0; x < c.cols; ++x)
      {
        uint8_t* d = &m->data[(size_t)y * m->step + x * px];
        cv::Vec3b v = c.at<cv::Vec3b>(y, x);
        if (enc == MONO)
          d[0] = v[0];
        else if (enc == MONO16)
          d[0] = v[0], d[1] = 0;
        else
        {
          bool swap = enc == RGB || enc == RGBA;
          d[0] = v[swap ? 2 : 0], d[1] = v[1], d[2] = v[swap ? 0 : 2];
          if (px == 4)
            d[3] = 0xEE;
        }
      }
    switch (bad)
    {
      case 1:
        m->encoding = it.i("id") % 2 ? "yuv_strange" : "";
        break;
      case 2:
        m->data.resize(m->data.size() / 2);
        break;
      case 3:
        m->step = m->step > 1 ? m->step / 2 : 0;
        break;
      case 4:
        m->width = m->height = m->step = 0;
        m->data.clear();
        break;
      case 5:
        m->data.clear();
        break;
      case 6:
        m->encoding = "8UC3";
        break;
      case 7:
        m->encoding = "32FC1";
        break;
      case 8:
        m->data.push_back(0);
        break;
    }
    return m;
  };
  // ---- events in the order of their time
  struct Ev
  {
    double t;
    const Item* it;
  };
  std::vector<Ev> ev;
  for (auto& it : p.items)
    if (it.op == "img" || it.op == "tf" || it.op == "tfdown" || it.op == "trig" || it.op == "save")
      ev.push_back({ it.d("at"), &it });
    else if (it.op == "gone")
      ctx.fault(it.str("what"));
  std::stable_sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; });
  for (auto& e : ev)
    if (e.it->op == "img" && e.it->i("find") && !e.it->i("bad"))
      script.what[tag(picture((int)e.it->i("id"), isGrey(*e.it)))] = (int)e.it->i("find");
  // ---- the middleware
  double now = 0;
  std::size_t next = 0;
  bool avail = false, spun = false, finished = false;
  int latest = -1, inHand = -1;  // newest transform; item index of the newest good frame received
  const Item* good = nullptr;
  std::vector<int> during;
  struct Job
  {
    bool frame;
    const Item* it;
  };
  std::deque<Job> q;
  std::deque<const Item*> pending;
  std::size_t dropped = 0;
  uint64_t path = 0;
  static const char* topic = "camera/image";
  auto arrive = [&](const Item& it) {
    if (it.op == "tf")
    {
      avail = true, latest = (int)it.i("id"), during.push_back(latest);
    }
    else if (it.op == "tfdown")
      avail = false, ctx.fault("transform-outage");
    else if (it.op == "img")
    {
      if (!S.topics.count(topic))
        return;
      pending.push_back(&it);
      unsigned depth = std::max(1u, S.queue[topic]);
      if (pending.size() > depth)
        pending.pop_front(), ++dropped;  // the slot in the queue stays
      else
        q.push_back({ true, nullptr });
    }
    else
      q.push_back({ false, &it });
  };
  S.now = 0;
  S.params.clear();
  int cfg = (int)st.i("config");
  if (cfg != 1)
    S.params["base_frame"] = "base";
  if (cfg != 2)
    S.params["tool_frame"] = "tool0";
  if (cfg != 3)
    S.params["image_topic"] = topic;
  if (cfg != 4)
    S.params["save_dir"] = dir;
  XmlRpc::XmlRpcValue tf = XmlRpc::XmlRpcValue::structure();
  tf["type"] = kind == 0 ? "sim/ScriptedFinder" : kind == 1 ? "rct_ros_tools::ModifiedCircleGridTargetFinderPlugin" : "rct_ros_tools::CharucoGridTargetFinderPlugin";
  tf["rows"] = 4, tf["cols"] = kind == 1 ? 5 : 4;
  if (kind == 1)
    tf["spacing"] = 0.02;
  else
    tf["chessboard_dim"] = 0.04, tf["aruco_marker_dim"] = 0.03, tf["dictionary"] = 0;
  if (cfg == 6)
    tf = XmlRpc::XmlRpcValue("text");
  else if (cfg == 7)
  {
    XmlRpc::XmlRpcValue x = XmlRpc::XmlRpcValue::structure();
    x["rows"] = 4;
    tf = x;
  }
  else if (cfg == 8)
    tf["type"] = 3;
  else if (cfg == 9)
    tf["type"] = "nothing/known";
  if (cfg != 5)
    S.params["target_finder"] = tf;
  rct_sim_ros::plugins()["sim/ScriptedFinder"] = []() -> void* { return static_cast<rct_ros_tools::TargetFinderPlugin*>(new ScriptedFinder()); };
  S.lookup = [&](const std::string& target, const std::string& source, double t, double timeout, double* o) {
    bool fwd = target == "base" && source == "tool0", rev = target == "tool0" && source == "base";
    if (!fwd && !rev)
      return 1;
    double until = now + timeout;
    std::size_t have = during.size();
    auto there = [&]() { return avail && (t <= 0 || now >= t || during.size() > have); };
    while (!there() && next < ev.size() && ev[next].t <= until)
    {
      now = S.now = std::max(now, ev[next].t);
      arrive(*ev[next++].it);
    }
    if (!there())
    {
      now = S.now = until;
      return 3;
    }
    Isometry3d x = poseOf(latest);
    if (rev)
      x = x.inverse();
    Eigen::Quaterniond qq(x.linear());
    o[0] = x.translation().x(), o[1] = x.translation().y(), o[2] = x.translation().z();
    o[3] = qq.x(), o[4] = qq.y(), o[5] = qq.z(), o[6] = qq.w(), o[7] = now;
    return 0;
  };
  int overlays = 0;
  S.onPublish = [&](const std::string& t, const void*) { overlays += t == std::string(topic) + "_observer"; };
  // ---- the model
  std::vector<Pair> taken;
  auto call = [&](const std::string& name) {
    auto f = S.services.find(name);
    ctx.check(f != S.services.end(), "service-missing", "the node does not offer " + name);
    try
    {
      return f->second();
    }
    catch (const std::exception& e)
    {
      return false;  // the middleware answers the client with a failure
    }
  };
  auto matches = [&](const rct_ros_tools::ExtrinsicDataSet& d, std::size_t i, const Pair& x) {
    const Item& it = p.items[x.frame];
    if (!sameImage(d.images[i], picture((int)it.i("id"), isGrey(it))))
      return 1;
    for (int k : x.poses)
      if (samePose(d.tool_poses[i], poseOf(k)))
        return 0;
    return 2;
  };
  auto doSave = [&](const std::vector<DiskFault>& fl, const std::string& when) {
    Storage::arm(scratch.dir, fl);
    bool ok = call("save");
    DiskLog l = Storage::disarm();
    for (auto& f : fl)
      if (f.at < l.ops)
        ctx.fault(f.err == ENOSPC ? "disk-full" : f.err == EIO ? "io-error" : f.err ? "open-refused" : "short-write");
    ctx.event(when + (ok ? ": saved" : ": save failed"));
    std::string ab = when + fmt(" with %zu pairs captured", taken.size()) + (l.hard ? " (" + l.text.substr(0, 300) + ")" : "");
    if (l.hard == 0 && !st.i("dir"))
      ctx.check(ok, "save-failed", ab + ": failure reported although storage worked");
    boost::optional<rct_ros_tools::ExtrinsicDataSet> d;
    try
    {
      d = rct_ros_tools::parseFromFile(dir + "/data.yaml");
    }
    catch (const std::exception&)
    {
    }
    if (!ok)
    {
      if (d && !d->images.empty())
      {
        std::size_t j = 0;
        for (std::size_t i = 0; i < d->images.size() && i < d->tool_poses.size(); ++i)
        {
          while (j < taken.size() && matches(*d, i, taken[j]) != 0)
            ++j;
          ctx.check(j++ < taken.size(), "lying-set", ab + ": after the failed save a pair was read that was never captured");
        }
      }
      return;
    }
    ctx.check(!!d, "not-stored", ab + ": success reported, but no data set can be read");
    ctx.check(d->images.size() == taken.size() && d->tool_poses.size() == taken.size(), "pairs",
              ab + fmt(": %zu pictures and %zu poses stored", d->images.size(), d->tool_poses.size()));
    for (std::size_t i = 0; i < taken.size(); ++i)
    {
      int m = matches(*d, i, taken[i]);
      ctx.check(m != 1, "wrong-picture", ab + fmt(": picture %zu is not the newest frame at its capture, ", i) + taken[i].when);
      ctx.check(m != 2, "wrong-pose", ab + fmt(": pose %zu is not the robot pose at its capture, ", i) + taken[i].when);
    }
  };
  S.spin = [&]() {
    spun = true;
    for (;;)
    {
      if (q.empty())
      {
        if (next >= ev.size())
          break;
        now = S.now = std::max(now, ev[next].t);
        arrive(*ev[next++].it);
        continue;
      }
      Job j = q.front();
      q.pop_front();
      if (j.frame)
      {
        const Item& it = *pending.front();
        pending.pop_front();
        auto m = message(it);
        int bad = (int)it.i("bad"), find = (int)it.i("find");
        if (bad)
          ctx.fault(badName[bad]);
        else if (kind == 0 && find)
          ctx.fault(findName[find]);
        if (it.i("late"))
          ctx.fault("frame-late");
        if (it.i("dup"))
          ctx.fault("frame-duplicated");
        ctx.event(fmt("%.3f frame %lld%s%s", now, it.i("id"), bad ? " " : "", bad ? badName[bad] : ""));
        path = fnv(&bad, sizeof bad, path * 31 + 1 + find);
        // whether the frame can be used follows from its fields alone
        sensor_msgs::ImageConstPtr cm = m;
        int before = script.finds;
        m.reset();
        S.topics[topic](&cm);
        (void)before;
        if (!bad)
          good = &it, inHand = (int)(&it - &p.items[0]);
      }
      else if (j.it->op == "trig")
      {
        bool had = avail;
        int l0 = latest;
        std::size_t d0 = during.size();
        double t0 = now;
        bool ok = call("collect");
        std::string when = fmt("capture asked at %.3f", t0);
        ctx.event(when + (ok ? ": done" : ": failed"));
        path = path * 31 + 7 + ok + 2 * had;
        if (ok)
        {
          ctx.check(good != nullptr, "capture-without-picture", when + ": success without any good frame");
          Pair x;
          x.frame = inHand, x.when = when;
          if (had)
            x.poses.push_back(l0);
          else
            x.poses.assign(during.begin() + d0, during.end());
          ctx.check(!x.poses.empty(), "capture-without-pose", when + ": success without any pose");
          taken.push_back(x);
          ctx.note("captures", 1);
        }
        else
        {
          ctx.check(!good || !had, "capture-refused", when + ": failed although a good frame and a pose were there");
          ctx.note("captures-refused", 1);
        }
      }
      else
      {
        std::vector<DiskFault> fl;
        for (auto* x : p.all("fault"))
          if (x->i("key") == j.it->i("key"))
          {
            DiskFault f;
            f.at = x->i("at"), f.err = (int)x->i("err"), f.stays = x->i("stays"), f.part = x->d("part");
            fl.push_back(f);
          }
        doSave(fl, fmt("save asked at %.3f", now));
        path = path * 31 + 3;
      }
    }
    finished = true;
    doSave({}, "save at the end");
  };
  // ---- the node lives
  for (; next < ev.size() && ev[next].t < 0; ++next)
    arrive(*ev[next].it);
  bool tf0 = avail;
  for (auto& e : ev)
    tf0 = tf0 || (e.it->op == "tf" && e.t <= 0.0);
  char name[] = "node";
  char* argv[] = { name, nullptr };
  int rc = -99;
  std::string err;
  try
  {
    rc = rct_node_main(1, argv);
  }
  catch (const XmlRpc::XmlRpcException& e)
  {
    err = "uncaught parameter error: " + e.getMessage();
  }
  catch (const std::exception& e)
  {
    err = e.what();
  }
  ctx.simTime(now);
  ctx.check(!spun || !cfg, "unconfigured-node-runs", "the node runs although its configuration is incomplete");
  if (spun && !finished)
    ctx.fail("node-died", fmt("the node ended at %.3f", now) + (err.empty() ? "" : ": " + err));
  if (!spun)
  {
    ctx.check(cfg != 0 || !tf0, "node-not-started", "the node did not start although its configuration and the transform were there");
    ctx.check(err.empty(), "node-died", "the node died while starting: " + err);
    ctx.check(rc != 0, "error-unreported", "the node could not start but ends with success");
    ctx.fault(cfg ? "configuration-incomplete" : "no-transform-at-start");
    ctx.note("never-started", 1);
  }
  ctx.note("frames-overtaken-in-queue", dropped);
  ctx.note("overlays", overlays);
  ctx.state(path);
  ctx.event(fmt("end: rc %d, %zu pairs", rc, taken.size()));
}
static Registrar reg({ "C13", gen, run, "distinct sequences of frame kinds, finder outcomes and request outcomes" });
