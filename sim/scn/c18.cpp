// C18: configuration from a parameter service and files that lose, mistype and cut entries
#include "world.h"
#include "disk.h"
#include "../core/storage.h"
#include <boost/shared_ptr.hpp>
#include <pluginlib/class_loader.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
#include <rct_ros_tools/loader_utils.h>
#include <rct_ros_tools/parameter_loaders.h>
#include <rct_ros_tools/target_finder_plugin.h>
#include "../stubs/rct_sim_ros.h"
using namespace world;
using namespace sim;

// what is loaded, and from where
enum
{
  INTR_PARAM,
  POSE_PARAM,
  INTR_FILE,
  POSE_FILE,
  CIRCLES,
  CHARUCO,
  LOADS
};
static const char* loadName[LOADS] = { "intrinsics parameter", "pose parameter", "intrinsics file", "pose file", "circle grid definition", "charuco definition" };
// what befell an entry (or, with entry -1, the whole record)
enum
{
  MISSING,
  INT,
  TEXT,
  BOOL,
  LIST,
  EMPTYLIST,
  STRUCT,
  OTHER,       // date or binary, no value in a file
  NUMTEXT,     // a number, but written as text
  FRACTION,    // a number with a fraction where a count is expected
  RANGE,       // a number outside of what the entry may be
  MIXEDLIST,
  FAULTS
};
static const char* faultName[FAULTS] = { "entry-missing", "entry-integer", "entry-text", "entry-boolean", "entry-list", "entry-empty-list", "entry-structure", "entry-other-type", "entry-number-as-text", "entry-fraction", "entry-out-of-range", "entry-mixed-list" };

// entries the target does not need: they must not matter, and come through the conversion as they are
static XmlRpc::XmlRpcValue moreEntries(Rng& r, int depth)
{
  XmlRpc::XmlRpcValue v = XmlRpc::XmlRpcValue::structure();
  int n = r.range(1, 5);
  for (int i = 0; i < n; ++i)
  {
    int kind = r.range(0, depth > 0 ? 8 : 7), len = r.range(1, 5);
    auto one = [&](int k) -> XmlRpc::XmlRpcValue {
      switch (k)
      {
        case 0:
          return XmlRpc::XmlRpcValue(r.chance(0.5));
        case 1:
          return XmlRpc::XmlRpcValue(r.range(-100000, 100000));
        case 2:
          return XmlRpc::XmlRpcValue(r.uni(-10, 10) * std::pow(10., r.range(-8, 8)));
        default:
        {
          static const char* words[] = { "", "a", "two words", "12", "true", "x: y", "[1]", "~", "#", "1.5e3" };
          return XmlRpc::XmlRpcValue(std::string(words[r.range(0, 9)]));
        }
      }
    };
    std::string name = fmt("e%d", i);
    if (kind == 8)
      v[name] = moreEntries(r, depth - 1);
    else if (kind < 4)
      v[name] = one(kind);
    else
    {
      XmlRpc::XmlRpcValue a = XmlRpc::XmlRpcValue::array();
      for (int j = 0; j < len; ++j)
        a[j] = one(kind - 4);
      v[name] = a;
    }
  }
  return v;
}
// where a converted configuration differs from the one the service holds ("" when nowhere)
static std::string differs(const YAML::Node& n, XmlRpc::XmlRpcValue v)
{
  try
  {
    switch (v.getType())
    {
      case XmlRpc::XmlRpcValue::TypeStruct:
        for (auto& m : v)
        {
          if (m.second.getType() == XmlRpc::XmlRpcValue::TypeStruct && m.second.size() == 0)
            continue;
          const YAML::Node c = n[m.first];
          std::string d = c ? differs(c, m.second) : "missing";
          if (!d.empty())
            return m.first + " " + d;
        }
        return n.IsMap() && (int)n.size() != v.size() ? "other number of entries" : "";
      case XmlRpc::XmlRpcValue::TypeArray:
        if (!n.IsSequence() || (int)n.size() != v.size())
          return "other number of elements";
        for (int i = 0; i < v.size(); ++i)
        {
          std::string d = differs(n[i], v[i]);
          if (!d.empty())
            return fmt("element %d ", i) + d;
        }
        return "";
      case XmlRpc::XmlRpcValue::TypeBoolean:
        return n.as<bool>() == static_cast<bool>(v) ? "" : "other flag";
      case XmlRpc::XmlRpcValue::TypeInt:
        return n.as<int>() == static_cast<int>(v) ? "" : "other count";
      case XmlRpc::XmlRpcValue::TypeDouble:
        return n.as<double>() == static_cast<double>(v) ? "" : "other number";
      case XmlRpc::XmlRpcValue::TypeString:
        return n.as<std::string>() == static_cast<std::string>(v) ? "" : "other text";
      default:
        return "";
    }
  }
  catch (const YAML::Exception& e)
  {
    return std::string("another kind of entry: ") + e.what();
  }
}

static void gen(Rng& r, Plan& p, int tier)
{
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24));
  int n = r.range(1, 6);
  for (int k = 0; k < n; ++k)
  {
    int what = r.range(0, LOADS - 1);
    p.add("load", true).set("step", k).set("what", what).set("bool", r.range(0, 1)).set("params", what == CIRCLES ? r.range(0, 2) : 0).set("again", (int)r.chance(0.4)).set("nested", (int)r.chance(0.2));
    int nf = r.chance(0.25) ? 0 : r.chance(0.7) ? 1 : r.range(2, 4);
    for (int i = 0; i < nf; ++i)
    {
      int w = r.range(0, 9);
      if (w == 0)
        p.add("outage", true).set("step", k);  // parameter service down / file cannot be opened
      else if (w == 1)
        p.add("lost", true).set("step", k);  // nothing stored at all
      else if (w == 2)
        p.add("cut", true).set("step", k).set("lines", r.range(0, 7));
      else if (w == 3)
        p.add("record", true).set("step", k).set("as", r.range(1, 8));
      else
        p.add("entry", true).set("step", k).set("i", r.range(0, 30)).set("as", r.range(0, FAULTS - 1)).set("key", (unsigned long)r.range(0, 1000000));
    }
  }
}
struct Entry
{
  std::string name;
  XmlRpc::XmlRpcValue value;
  double num = 0;     // what the entry means
  bool count = false; // a whole number
  bool opt = false;   // part of the optional detector parameters
  bool flag = false;
  int harm = -1;      // worst thing that befell it
  bool gone = false;
  std::string text;   // in a file
  bool isFloat = false;
};
struct Peek : rct_ros_tools::TargetFinderPlugin
{
  static std::shared_ptr<const rct_image_tools::TargetFinder> get(rct_ros_tools::TargetFinderPlugin& p) { return p.*(&Peek::finder_); }
};
static std::string g17(double v) { return fmt("%.17g", v); }

static void run(const Plan& p, Ctx& ctx)
{
  Rng r((uint64_t)p.need("setup").i("seed"), "values");
  disk::Scratch scratch;
  auto& S = rct_sim_ros::state();
  boost::shared_ptr<rct_ros_tools::TargetFinderPlugin> plugin[2];
  std::string pname[2] = { "rct_ros_tools::ModifiedCircleGridTargetFinderPlugin", "rct_ros_tools::CharucoGridTargetFinderPlugin" };
  std::vector<Entry> loaded[2];  // what each plugin was last loaded with
  pluginlib::ClassLoader<rct_ros_tools::TargetFinderPlugin> loader("rct_ros_tools", "rct_ros_tools::TargetFinderPlugin");
  auto loads = p.all("load");
  if (loads.empty())
    ctx.skip("nothing-to-load");
  for (auto* ld : loads)
  {
    int k = (int)ld->i("step"), what = (int)ld->i("what"), par = (int)ld->i("params");
    bool file = what == INTR_FILE || what == POSE_FILE;
    Rng v(r.u64(), "entries");
    std::vector<Entry> e;
    auto num = [&](const char* n, double x) {
      Entry q;
      q.name = n, q.value = x, q.num = x, q.text = g17(x);
      e.push_back(q);
    };
    auto flt = [&](const char* n, float x) {
      num(n, (double)x);
      e.back().isFloat = true;
      if (v.chance(0.3) && x == std::floor(x) && std::abs(x) < 1e6)
        e.back().value = (int)x;
    };
    auto cnt = [&](const char* n, int x) {
      Entry q;
      q.name = n, q.value = x, q.num = x, q.text = std::to_string(x), q.count = true;
      e.push_back(q);
    };
    auto any = [&](double lo, double hi) { return v.chance(0.1) ? v.uni(-1, 1) * std::pow(10.0, v.range(-12, 12)) : v.chance(0.1) ? (double)v.range(-500, 500) : v.uni(lo, hi); };
    if (what == INTR_PARAM || what == INTR_FILE)
    {
      static const char* in[] = { "fx", "fy", "cx", "cy" };
      for (auto n : in)
        num(n, any(100, 2000));
    }
    else if (what == POSE_PARAM || what == POSE_FILE)
    {
      num("x", any(-2, 2)), num("y", any(-2, 2)), num("z", any(-2, 2));
      Eigen::Quaterniond q(rotVec(unit(v) * v.uni(0, 3.1)));
      if (v.chance(0.1))
        q = Eigen::Quaterniond::Identity();
      else if (v.chance(0.3))
        q.coeffs() = -q.coeffs();
      num("qx", q.x()), num("qy", q.y()), num("qz", q.z()), num("qw", q.w());
    }
    else if (what == CIRCLES)
    {
      cnt("rows", v.range(1, 12)), cnt("cols", v.range(1, 12)), num("spacing", v.chance(0.1) ? 1.0 : v.uni(0.001, 0.3));
    }
    else
    {
      float sq = (float)v.uni(0.01, 0.1);
      cnt("rows", v.range(2, 8)), cnt("cols", v.range(2, 8)), flt("chessboard_dim", sq), flt("aruco_marker_dim", sq * (float)v.uni(0.3, 0.9)), cnt("dictionary", v.range(0, 20));
    }
    std::size_t req = e.size();
    if (par)
    {
      auto flag = [&](const char* n) {
        Entry q;
        q.name = n, q.num = v.range(0, 1), q.value = q.num != 0, q.flag = true;
        e.push_back(q);
      };
      cnt("nThresholds", v.range(1, 40)), flt("minThreshold", v.range(0, 100)), flt("maxThreshold", (float)v.uni(120, 255)), cnt("minRepeatability", v.range(1, 9));
      flt("circleInclusionRadius", (float)v.uni(1, 20)), flt("maxRadiusDiff", (float)v.uni(1, 20)), flt("maxAverageEllipseError", (float)v.uni(0, 0.5));
      flag("filterByColor"), cnt("circleColor", v.chance(0.5) ? 255 : 0), flag("filterByArea"), flt("minArea", v.range(1, 99)), flt("maxArea", (float)v.uni(100, 1e5));
      flag("filterByCircularity"), flt("minCircularity", (float)v.u01()), flt("maxCircularity", (float)v.uni(1, 9)), flag("filterByInertia"), flt("minInertiaRatio", (float)v.u01());
      flt("maxInertiaRatio", (float)v.uni(1, 9)), flag("filterByConvexity"), flt("minConvexity", (float)v.u01()), flt("maxConvexity", (float)v.uni(1, 9));
      for (std::size_t i = req; i < e.size(); ++i)
        e[i].opt = true;
    }
    // ---- faults
    auto junk = [&](int as, Rng& q, const Entry* x) {
      XmlRpc::XmlRpcValue z;
      switch (as)
      {
        case INT:
          return XmlRpc::XmlRpcValue(x ? (int)x->num : 3);
        case TEXT:
          return XmlRpc::XmlRpcValue(q.chance(0.5) ? "abc" : q.chance(0.5) ? "" : "12 apples");
        case BOOL:
          return XmlRpc::XmlRpcValue(q.chance(0.5));
        case LIST:
          z.setSize(2);
          z[0] = 1.0, z[1] = 2.0;
          return z;
        case EMPTYLIST:
          return XmlRpc::XmlRpcValue::array();
        case STRUCT:
          z["a"] = 1.0;
          return z;
        case NUMTEXT:
          return XmlRpc::XmlRpcValue(x ? (x->count ? std::to_string((int)x->num) : g17(x->num)) : std::string("1"));
        case FRACTION:
          return XmlRpc::XmlRpcValue(x ? std::floor(x->num) + 0.5 : 0.5);
        case RANGE:
          return x && x->count ? XmlRpc::XmlRpcValue(x->name == "dictionary" ? (q.chance(0.5) ? 21 + q.range(0, 500) : -1 - q.range(0, 5)) : -q.range(0, 3)) : XmlRpc::XmlRpcValue(q.chance(0.5));
        case MIXEDLIST:
          z.setSize(2);
          z[0] = 1.0, z[1] = "b";
          return z;
        default:
          return q.chance(0.5) ? XmlRpc::XmlRpcValue::dateTime() : XmlRpc::XmlRpcValue::base64();
      }
    };
    static const char* fileJunk[] = { "", "", "abc", "true", "[1, 2]", "[]", "{a: 1}", "~", "", "", "\"\"", "[1, b]" };
    bool down = false, lost = false, whole = true, optBad = false;
    int record = -1, cut = -1;
    for (auto& it : p.items)
    {
      if (it.op == "load" || it.op == "setup" || it.i("step", -1) != k)
        continue;
      if (it.op == "outage")
        down = true, ctx.fault(file ? "file-unreadable" : "service-outage");
      else if (it.op == "lost")
        lost = true, ctx.fault(file ? "file-missing" : "parameter-missing");
      else if (it.op == "cut" && file)
        cut = (int)it.i("lines"), ctx.fault("file-cut");
      else if (it.op == "record")
        record = (int)it.i("as"), ctx.fault("record-of-wrong-kind");
      else if (it.op == "entry")
      {
        Entry& x = e[it.i("i") % e.size()];
        int as = (int)it.i("as");
        Rng q((uint64_t)it.i("key"), "junk");
        if (as == RANGE && !(x.count && x.name != "circleColor" && !x.opt))
          as = MISSING;
        if (as == FRACTION && !x.count)
          as = MISSING;
        if (x.flag && (as == INT || as == BOOL || as == NUMTEXT))
          as = MISSING;
        if (file && (as == INT || as == NUMTEXT))
          continue;  // the same text
        ctx.fault(faultName[as]);
        x.harm = as;
        x.gone = as == MISSING;
        if (!x.gone)
        {
          if (as == INT && !x.count && x.num != std::floor(x.num))
            x.num = std::trunc(x.num);  // what the service holds now
          x.value = junk(as, q, &x);
          x.text = fileJunk[as];
        }
      }
    }
    if (file && down && lost)
      lost = true;
    // ---- what must come of it. mayRefuse: the value is there, but in another form
    bool mustRefuse = down || lost || record >= 0, mayRefuse = false;
    if (what >= CIRCLES)
      mustRefuse = lost || record >= 0;  // (the service is read by the caller)
    if (what >= CIRCLES && down)
      mustRefuse = true;
    std::size_t kept = 0, lines = 0;
    for (auto& x : e)
    {
      if (x.harm < 0)
        continue;
      bool form = x.harm == INT || x.harm == NUMTEXT;
      if (x.opt)
      {
        optBad = true;
        mayRefuse = true;
      }
      else if (form)
        mayRefuse = true;
      else
        mustRefuse = true;
    }
    (void)kept, (void)whole;
    // ---- store it
    std::string path = scratch.dir + fmt("/f%d.yaml", k), key = ld->i("nested") && !file ? fmt("group%d/rec", k) : fmt("rec%d", k);
    XmlRpc::XmlRpcValue rec = XmlRpc::XmlRpcValue::structure(), sub = XmlRpc::XmlRpcValue::structure();
    std::string text;
    for (auto& x : e)
    {
      if (x.gone)
        continue;
      if (file)
      {
        if (cut >= 0 && (int)lines >= cut)
        {
          mustRefuse = true;
          break;
        }
        text += x.name + ": " + x.text + "\n";
        ++lines;
      }
      (x.opt ? sub : rec)[x.name] = x.value;
    }
    if (par)
      rec["circle_detector_params"] = sub;
    if (what >= CIRCLES)
    {
      Rng x((uint64_t)(p.seed + 77 * k), "more entries");
      if (x.chance(0.5))
        rec["notes"] = moreEntries(x, 2);
    }
    Rng jr(r.u64(), "record");
    if (record >= 0 && !file)
    {
      rec = junk(record == STRUCT ? LIST : record, jr, nullptr);
    }
    if (record >= 0 && file)
      text = record == 1 ? "" : record == 2 ? "just words\n" : record == 3 ? "- 1\n- 2\n" : record == 4 ? "a: [1, 2\nb: }\n" : record == 5 ? "fx\n" : record == 6 ? "~\n" : record == 7 ? "{}\n" : std::string("\x01\x02\xff\xfe", 4);
    S.params.clear();
    S.paramService = !(down && !file);
    if (!file && !lost)
    {
      if (ld->i("nested"))
      {
        XmlRpc::XmlRpcValue g = XmlRpc::XmlRpcValue::structure();
        g["rec"] = rec;
        S.params[fmt("group%d", k)] = g;
      }
      else
        S.params[key] = rec;
    }
    if (file && !lost)
      disk::spill(path, text);
    if (file)
    {
      Storage::arm(scratch.dir, {});
      if (down)
        Storage::unreadable({ path });
    }
    // ---- load
    ros::NodeHandle nh("~");
    bool refused = false;
    std::string err;
    rct::CameraIntrinsics intr;
    Isometry3d pose = Isometry3d::Identity();
    int which = what == CHARUCO;
    try
    {
      bool b = ld->i("bool");
      switch (what)
      {
        case INTR_PARAM:
          if (b)
            refused = !rct_ros_tools::loadIntrinsics(nh, key, intr);
          else
            intr = rct_ros_tools::loadIntrinsics(nh, key);
          break;
        case POSE_PARAM:
          if (b)
            refused = !rct_ros_tools::loadPose(nh, key, pose);
          else
            pose = rct_ros_tools::loadPose(nh, key);
          break;
        case INTR_FILE:
          if (b)
            refused = !rct_ros_tools::loadIntrinsics(path, intr);
          else
            intr = rct_ros_tools::loadIntrinsics(path);
          break;
        case POSE_FILE:
          if (b)
            refused = !rct_ros_tools::loadPose(path, pose);
          else
            pose = rct_ros_tools::loadPose(path);
          break;
        default:
        {
          if (!plugin[which] || !ld->i("again"))
          {
            plugin[which] = loader.createInstance(pname[which]);
            loaded[which].clear();
          }
          XmlRpc::XmlRpcValue cfg;
          if (!nh.getParam(key, cfg))
            throw std::runtime_error("no parameter");
          YAML::Node node = rct_ros_tools::toYAML(cfg);
          std::string lost = differs(node, cfg);
          ctx.check(lost.empty(), "conversion", fmt("step %d, %s: the configuration came through changed: ", k, loadName[what]) + lost);
          plugin[which]->init(node);
        }
      }
    }
    catch (const std::exception& x)
    {
      refused = true;
      err = x.what();
    }
    catch (const XmlRpc::XmlRpcException& x)
    {
      refused = true;
      err = x.getMessage();
    }
    if (file)
      Storage::disarm();
    std::string ab = fmt("step %d, %s", k, loadName[what]);
    for (auto& x : e)
      if (x.harm >= 0)
        ab += ", " + x.name + " " + faultName[x.harm];
    if (down || lost || record >= 0 || cut >= 0)
      ab += fmt(" (down %d lost %d record %d cut %d)", down, lost, record, cut);
    ctx.event(ab + (refused ? ": refused" : ": loaded"));
    ctx.note(refused ? "refused" : "loaded", 1);
    if (refused)
      ctx.check(mustRefuse || mayRefuse, "good-refused", ab + ": a complete record was refused: " + err);
    else
      ctx.check(!mustRefuse, "bad-accepted", ab + ": an incomplete record was accepted");
    // ---- values
    auto of = [&](const char* n) {
      for (auto& x : e)
        if (x.name == n)
          return x.num;
      throw std::logic_error("no entry");
    };
    if (!refused && (what == INTR_PARAM || what == INTR_FILE))
    {
      static const char* in[] = { "fx", "fy", "cx", "cy" };
      double got[] = { intr.fx(), intr.fy(), intr.cx(), intr.cy() };
      for (int i = 0; i < 4; ++i)
        ctx.check(got[i] == of(in[i]), "value", ab + fmt(": %s is %.17g instead of %.17g", in[i], got[i], of(in[i])));
    }
    if (!refused && (what == POSE_PARAM || what == POSE_FILE))
    {
      bool anyInt = false;
      for (auto& x : e)
        anyInt = anyInt || x.harm >= 0;
      static const char* in[] = { "x", "y", "z" };
      for (int i = 0; i < 3; ++i)
        ctx.check(pose.translation()[i] == of(in[i]), "value", ab + fmt(": %s is %.17g instead of %.17g", in[i], pose.translation()[i], of(in[i])));
      Eigen::Quaterniond q(of("qw"), of("qx"), of("qy"), of("qz"));
      if (!anyInt)
        ctx.check((pose.linear() - q.toRotationMatrix()).norm() < 1e-12, "value", ab + fmt(": orientation off by %.3g", (pose.linear() - q.toRotationMatrix()).norm()));
    }
    auto checkTarget = [&](int w, const std::vector<Entry>& c, const std::string& when) {
      auto val = [&](const char* n) {
        for (auto& x : c)
          if (x.name == n)
            return x.num;
        throw std::logic_error("no entry");
      };
      auto fin = Peek::get(*plugin[w]);
      ctx.check((bool)fin, "no-finder", when + ": no target finder");
      int rows = (int)val("rows"), cols = (int)val("cols");
      rct_image_tools::TargetFeatures tf;
      std::vector<Vector3d> want;
      if (w == 0)
      {
        auto* f = dynamic_cast<const rct_image_tools::ModifiedCircleGridTargetFinder*>(fin.get());
        ctx.check(f != nullptr, "wrong-finder", when + ": another finder");
        double s = val("spacing");
        for (int i = 0; i < rows; ++i)
          for (int j = 0; j < cols; ++j)
          {
            tf[i * cols + j].push_back(Vector2d(i, j));
            want.push_back(Vector3d(j * s, (rows - 1 - i) * s, 0));
          }
        // detector parameters: all of them, or all defaults
        const rct_image_tools::CircleDetectorParams& g = f->getCircleDetectorParams();
        rct_image_tools::CircleDetectorParams d;
        bool all = c.size() > 3, def = true;
        auto cmp = [&](const char* n, double got, double dflt) {
          def = def && got == dflt;
          if (c.size() > 3)
            all = all && got == val(n);
        };
#define C(x) cmp(#x, (double)g.x, (double)d.x)
        C(nThresholds), C(minThreshold), C(maxThreshold), C(minRepeatability), C(circleInclusionRadius), C(maxRadiusDiff), C(maxAverageEllipseError), C(filterByColor), C(circleColor), C(filterByArea), C(minArea), C(maxArea), C(filterByCircularity), C(minCircularity), C(maxCircularity), C(filterByInertia),
            C(minInertiaRatio), C(maxInertiaRatio), C(filterByConvexity), C(minConvexity), C(maxConvexity);
        bool bad = false;
        for (auto& x : c)
          bad = bad || (x.opt && x.harm >= 0);
        if (c.size() > 3 && !bad)
          ctx.check(all, "detector-parameters", when + ": the configured detector parameters are not used");
        else
          ctx.check(def || (bad && all), "detector-parameters", when + ": the detector parameters are neither those configured nor the defaults");
      }
      else
      {
        auto* t = dynamic_cast<const rct_image_tools::CharucoGridTarget*>(&fin->target());
        ctx.check(t != nullptr, "wrong-finder", when + ": another finder");
        float s = (float)val("chessboard_dim");
        for (int i = 0; i + 1 < rows; ++i)
          for (int j = 0; j + 1 < cols; ++j)
          {
            tf[i * (cols - 1) + j].push_back(Vector2d(i, j));
            want.push_back(Vector3d((j + 1) * s, (i + 1) * s, 0));
          }
        ctx.check(t->board->getMarkerLength() == (float)val("aruco_marker_dim") && t->board->getSquareLength() == s, "value", when + ": marker or square size differs");
        auto dict = cv::aruco::getPredefinedDictionary((int)val("dictionary"));
        cv::Mat a = t->board->dictionary->bytesList, b = dict->bytesList;
        ctx.check(a.size() == b.size() && a.type() == b.type() && memcmp(a.data, b.data, a.total() * a.elemSize()) == 0, "value", when + ": another marker dictionary");
      }
      auto corr = plugin[w]->target().createCorrespondences(tf);
      ctx.check(corr.size() == want.size(), "geometry", when + fmt(": %zu features instead of %zu", corr.size(), want.size()));
      std::size_t i = 0;
      for (auto& x : tf)
      {
        ctx.check((corr[i].in_target - want[i]).norm() <= 1e-6 * want[i].norm() + 1e-15 && corr[i].in_image == x.second[0], "geometry",
                  when + fmt(": feature %u sits at (%g %g %g) instead of (%g %g %g)", x.first, corr[i].in_target.x(), corr[i].in_target.y(), corr[i].in_target.z(), want[i].x(), want[i].y(), want[i].z()));
        ++i;
      }
    };
    if (what >= CIRCLES)
    {
      if (!refused)
      {
        loaded[which] = e;
        checkTarget(which, e, ab);
      }
      else if (plugin[which] && !loaded[which].empty())
        checkTarget(which, loaded[which], ab + ", definition loaded before");
    }
  }
}
static Registrar reg({ "C18", gen, run, "distinct configuration fault histories" });
