// C12: the camera-by-image table under failing finders and cameras that captured unequally many images
#include "world.h"
#include <rct_ros_tools/data_set.h>
#include <rct_image_tools/modified_circle_grid_target.h>
#include <rct_image_tools/charuco_grid_target.h>
#include <opencv2/core.hpp>
#include <system_error>
using namespace world;
using namespace sim;

// What happens in one camera's image. 0 found, 1.. failures
enum
{
  FOUND,
  NONE,        // no features, no error
  RUNTIME,     // std::runtime_error
  CVERR,       // cv::Exception
  LOGIC,       // std::out_of_range
  SYSTEM,      // std::system_error
  FOREIGN,     // found, but a feature the target does not have
  KINDS
};
static void gen(Rng& r, Plan& p, int tier)
{
  int nc = r.chance(0.06) ? 0 : r.chance(0.25) ? 1 : r.range(2, 5);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("cams", nc).set("bad", r.chance(0.3) ? 0.0 : r.uni(0.05, 0.9)).set("twice", (int)r.chance(0.2));
  int base = r.chance(0.06) ? (int)std::pow(10, r.uni(0.9, 2.6)) : r.range(0, tier ? 12 : 7);  // now and then hundreds of images
  bool uneven = r.chance(0.6);
  for (int c = 0; c < nc; ++c)
    p.add("camera").set("images", uneven ? (r.chance(0.15) ? 0 : std::max(0, base + r.range(-3, 3))) : base);
  int n = r.range(0, 6);
  for (int i = 0; i < n && nc > 0; ++i)
    p.add("fail", true).set("cam", r.range(0, nc - 1)).set("image", r.range(0, std::max(0, base))).set("kind", r.range(1, KINDS - 1));
  if (r.chance(0.2) && nc > 0)
    p.add("blind", true).set("cam", r.range(0, nc - 1)).set("kind", r.range(1, KINDS - 1));
  p.add("heap").set("seed", (unsigned long)(r.chance(0.8) ? r.u64() >> 24 : 0));
}

struct Grid : rct_image_tools::Target
{
  std::map<unsigned, Vector3d> pts;
  rct_optimizations::Correspondence2D3D::Set createCorrespondences(const rct_image_tools::TargetFeatures& f) const override
  {
    rct_optimizations::Correspondence2D3D::Set o;
    for (auto& e : f)
      for (auto& u : e.second)
      {
        rct_optimizations::Correspondence2D3D c;
        c.in_target = pts.at(e.first);  // throws for a feature the target does not have
        c.in_image = u;
        o.push_back(c);
      }
    return o;
  }
};
// the image carries what the finder is going to see in it
struct Finder : rct_image_tools::TargetFinder
{
  Grid grid;
  mutable int calls = 0;
  std::map<int, rct_image_tools::TargetFeatures> sees;
  std::map<int, int> kind;
  rct_image_tools::TargetFeatures findTargetFeatures(const cv::Mat& m) const override
  {
    ++calls;
    int id = m.at<int>(0, 0);
    switch (kind.at(id))
    {
      case NONE:
        return {};
      case RUNTIME:
        throw std::runtime_error("no target");
      case CVERR:
        throw cv::Exception(-215, "assertion", "find", "finder.cpp", 1);
      case LOGIC:
        throw std::out_of_range("map::at");
      case SYSTEM:
        throw std::system_error(std::make_error_code(std::errc::io_error));
      default:
        return sees.at(id);
    }
  }
  cv::Mat drawTargetFeatures(const cv::Mat& m, const rct_image_tools::TargetFeatures&) const override { return m; }
  const rct_image_tools::Target& target() const override { return grid; }
};
static void run(const Plan& p, Ctx& ctx)
{
  const Item& st = p.need("setup");
  Rng r((uint64_t)st.i("seed"), "table");
  Finder f;
  int np = r.range(1, 20);
  for (int i = 0; i < np; ++i)
    f.grid.pts[i * 3] = Vector3d(r.uni(-1, 1), r.uni(-1, 1), 0);
  std::vector<rct_ros_tools::ExtrinsicDataSet> sets;
  auto cams = p.all("camera");
  std::vector<std::vector<int>> id;
  int next = 1;
  std::size_t most = 0;
  static const char* nm[] = { "", "nothing-found", "finder-error", "image-library-error", "logic-error", "system-error", "foreign-feature" };
  for (std::size_t c = 0; c < cams.size(); ++c)
  {
    rct_ros_tools::ExtrinsicDataSet d;
    id.emplace_back();
    for (int i = 0; i < cams[c]->i("images"); ++i)
    {
      int k = next++;
      cv::Mat m(2, 2, CV_32SC1);
      m.setTo(0);
      m.at<int>(0, 0) = k;
      d.images.push_back(m);
      d.tool_poses.push_back(Isometry3d::Identity());
      id[c].push_back(k);
      int kind = r.chance(st.d("bad")) ? r.range(1, KINDS - 1) : FOUND;
      for (auto* x : p.all("blind"))
        if (x->i("cam") == (int)c)
          kind = (int)x->i("kind");
      for (auto* x : p.all("fail"))
        if (x->i("cam") == (int)c && x->i("image") == i)
          kind = (int)x->i("kind");
      f.kind[k] = kind;
      if (kind != FOUND)
        ctx.fault(nm[kind]);
      rct_image_tools::TargetFeatures t;
      for (auto& e : f.grid.pts)
        if (t.empty() || r.chance(0.7))
          for (int q = r.range(1, 3); q > 0; --q)
            t[e.first].push_back(Vector2d(r.uni(0, 1000), r.uni(0, 1000)));
      if (kind == FOREIGN)
        t[1].push_back(Vector2d(1, 1));
      f.sees[k] = t;
    }
    most = std::max(most, d.images.size());
    sets.push_back(d);
  }
  bool uneven = false;
  for (auto& d : sets)
    uneven = uneven || d.images.size() != most;
  if (uneven)
    ctx.fault("camera-with-fewer-images");
  if (sets.empty())
    ctx.fault("no-cameras");
  for (int round = 0; round < (st.i("twice") ? 2 : 1); ++round)
  {
    Alloc::layout((uint64_t)p.need("heap").i("seed") + round);
    std::string ab = fmt("%zu cameras, up to %zu images", sets.size(), most);
    std::unique_ptr<rct_ros_tools::ExtrinsicCorrespondenceDataSet> t;
    try
    {
      t.reset(new rct_ros_tools::ExtrinsicCorrespondenceDataSet(sets, f));
    }
    catch (const std::exception& e)
    {
      ctx.check(sets.empty(), "threw", ab + ": building the table threw " + e.what());
      ctx.event("no cameras refused");
      continue;
    }
    ctx.check(t->getCameraCount() == sets.size(), "camera-count", ab + fmt(": table for %zu cameras", t->getCameraCount()));
    ctx.check(sets.empty() || t->getImageCount() == most, "image-count", ab + fmt(": table for %zu images", t->getImageCount()));
    std::vector<std::size_t> per(most, 0);
    for (std::size_t c = 0; c < sets.size(); ++c)
    {
      std::size_t found = 0;
      for (std::size_t i = 0; i < most; ++i)
      {
        bool w = i < id[c].size() && f.kind[id[c][i]] == FOUND;
        std::string at = ab + fmt(", camera %zu of %zu images, image %zu: ", c, id[c].size(), i);
        ctx.check(t->foundCorrespondence(c, i) == w, w ? "found-marked-missing" : "missing-marked-found", at + (w ? "found, but the table says not" : i < id[c].size() ? std::string("not found (") + nm[f.kind[id[c][i]]] + "), but the table says found" : "never captured, but the table says found"));
        found += w;
        per[i] += w;
        ctx.note("entries", 1);
        if (!w)
          continue;
        auto want = f.grid.createCorrespondences(f.sees[id[c][i]]);
        auto& got = t->getCorrespondenceSet(c, i);
        ctx.check(got.size() == want.size(), "correspondences", at + fmt("%zu correspondences instead of %zu", got.size(), want.size()));
        for (std::size_t k = 0; k < want.size(); ++k)
          ctx.check(got[k].in_image == want[k].in_image && got[k].in_target == want[k].in_target, "correspondences", at + fmt("correspondence %zu is another one's", k));
      }
      ctx.check(t->getCameraImageCount(c) == found, "count-per-camera", ab + fmt(": camera %zu found %zu, the table says %zu", c, found, t->getCameraImageCount(c)));
    }
    for (std::size_t i = 0; i < most; ++i)
      ctx.check(t->getImageCameraCount(i) == per[i], "count-per-image", ab + fmt(": image %zu found by %zu, the table says %zu", i, per[i], t->getImageCameraCount(i)));
    ctx.event(ab);
    for (std::size_t i = 0; i < most; ++i)
      ctx.event64("per-image", per[i]);
  }
}
static Registrar reg({ "C12", gen, run, "distinct capture/failure histories" });
