// C14: target finders on rendered frames with occlusion, noise, blur, strays, damaged images and any order of parallel work
#include "render.h"
#include <opencv2/core/parallel/parallel_backend.hpp>
#include <opencv2/imgproc.hpp>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
using namespace world;
using namespace sim;
namespace img = rct_image_tools;

enum
{
  CIRCLES,
  ARUCO,
  CHARUCO
};
static const char* kindName[] = { "circle grid", "ArUco", "ChArUco" };

static void gen(Rng& r, Plan& p, int tier)
{
  int kind = r.range(0, 2);
  int rows = kind == CIRCLES ? r.range(2, 6) : kind == ARUCO ? r.range(1, 4) : r.range(3, 6);
  int cols = kind == CIRCLES ? r.range(2, 6) : kind == ARUCO ? r.range(1, 4) : r.range(3, 6);
  if (kind == CIRCLES && r.chance(0.05))
    (r.chance(0.5) ? rows : cols) = 1;
  p.add("setup").set("kind", kind).set("rows", rows).set("cols", cols).set("dict", r.range(0, 11)).set("size", r.uni(0.5, 2)).set("gap", r.uni(0.25, 0.6)).set("params", kind == CIRCLES ? (r.chance(0.8) ? 0 : r.range(1, 4)) : 0).set("ids", r.chance(0.35) ? (long)r.range(1, 1 << 30) : 0L);
  int n = r.range(1, tier ? 4 : 2);
  for (int f = 0; f < n; ++f)
  {
    bool rect = r.chance(0.5);
    p.add("view", f > 0).set("frame", f).set("key", (unsigned long)(r.u64() >> 40)).set("w", rect ? 400 : 320).set("h", rect ? 280 : 320).set("tilt", r.chance(0.3) ? r.uni(0, 0.6) : r.uni(0, 0.25)).set("roll", r.chance(0.3) ? 0.5 * M_PI * r.range(-1, 2) : r.uni(-M_PI, M_PI)).set("zoom", r.chance(0.2) ? r.uni(1.3, 2.2) : r.uni(1.02, 1.2)).set("colour", (int)r.chance(0.5));
    int nf = r.chance(0.3) ? 0 : r.chance(0.6) ? 1 : r.range(2, 3);
    for (int i = 0; i < nf; ++i)
    {
      auto& it = p.add("fault", true).set("frame", f).set("key", (unsigned long)(r.u64() >> 40));
      switch (r.range(0, 9))
      {
        case 0:
        case 1:
          it.set("what", "occlusion").set("x", r.u01()).set("y", r.u01()).set("dx", r.uni(0.02, 0.5)).set("dy", r.uni(0.02, 0.5)).set("level", r.range(0, 255));
          break;
        case 2:
          it.set("what", "noise").set("amount", r.chance(0.2) ? r.uni(10, 40) : r.uni(0.5, 8));
          break;
        case 3:
          it.set("what", "specks").set("amount", r.range(1, 200));
          break;
        case 4:
          it.set("what", "blur").set("amount", r.range(1, 5));
          break;
        case 5:
        case 6:
          it.set("what", "stray").set("amount", r.range(0, 2));
          break;
        case 7:
          it.set("what", "cut").set("x", r.uni(0, 0.6)).set("side", r.range(0, 3));
          break;
        case 8:
          it.set("what", "exposure").set("gain", r.uni(0.3, 1.6)).set("offset", r.uni(-60, 60)).set("gradient", r.uni(-0.6, 0.6));
          break;
        default:
          it.set("what", "damaged").set("amount", r.range(0, 8));
      }
    }
    // another sheet beside the target, not covering any of it
    if (kind != CIRCLES && r.chance(0.4))
      p.add("aside", true).set("frame", f).set("key", (unsigned long)(r.u64() >> 40)).set("n", r.range(1, 3));
    p.add("order", true).set("frame", f).set("key", (unsigned long)(r.u64() >> 40)).set("threads", r.range(1, 8));
  }
}

// OpenCV's parallel loops, run by the simulator: the strips in a seeded order, on one thread
struct Strips : cv::parallel::ParallelForAPI
{
  Rng r;
  int threads = 1;
  uint64_t loops = 0, strips = 0;
  bool busy = false;
  void parallel_for(int tasks, FN_parallel_for_body_cb_t body, void* data) override
  {
    ++loops;
    if (threads <= 1 || busy)
    {
      body(0, tasks, data);
      return;
    }
    busy = true;
    std::vector<std::pair<int, int>> s;
    for (int i = 0; i < tasks;)
    {
      int n = std::min(tasks - i, r.range(1, std::max(1, tasks / threads)));
      s.push_back({ i, i + n });
      i += n;
    }
    r.shuffle(s);
    try
    {
      for (auto& x : s)
        ++strips, body(x.first, x.second, data);
    }
    catch (...)
    {
      busy = false;
      throw;
    }
    busy = false;
  }
  int getThreadNum() const override { return 0; }
  int getNumThreads() const override { return threads; }
  int setNumThreads(int) override { return threads; }
  const char* getName() const override { return "sim"; }
};
static std::string oob;
static int onError(int code, const char* func, const char* msg, const char* file, int line, void*)
{
  std::string f = file ? file : "";
  if (f.find("mat.inl.hpp") != std::string::npos)
    oob = fmt("%s (%s:%d)", msg, f.substr(f.rfind('/') + 1).c_str(), line);
  return 0;
}
static uint64_t digest(const cv::Mat& m)
{
  uint64_t h = m.type() * 31 + m.rows * 7 + m.cols;
  for (int y = 0; y < m.rows; ++y)
    h = fnv(m.ptr(y), m.cols * m.elemSize(), h);
  return h;
}
static bool same(const img::TargetFeatures& a, const img::TargetFeatures& b)
{
  if (a.size() != b.size())
    return false;
  for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
  {
    if (i->first != j->first || i->second.size() != j->second.size())
      return false;
    for (std::size_t k = 0; k < i->second.size(); ++k)
      if (memcmp(i->second[k].data(), j->second[k].data(), 16) != 0)
        return false;
  }
  return true;
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& st = p.need("setup");
  int kind = (int)st.i("kind"), rows = (int)st.i("rows"), cols = (int)st.i("cols"), dict = (int)st.i("dict");
  double size = st.d("size");
  auto strips = std::make_shared<Strips>();
  cv::parallel::setParallelForBackend(strips, false);
  cv::redirectError(onError);
  std::unique_ptr<render::Pattern> pat;
  std::unique_ptr<img::TargetFinder> finder;
  std::vector<Vector3d> where;  // feature positions on the target: index * per + k
  int per = 1, ids = 0;
  // the markers printed on the sheet: 0 .. n - 1, a later range of the dictionary, or any choice in any order
  std::vector<int> marks, foreign;
  auto choose = [&](int n) {
    std::vector<int> pool = allFeats(50);
    if (long k = st.i("ids", 0))
    {
      Rng ri((uint64_t)k, "ids");
      if (ri.chance(0.3))
        std::rotate(pool.begin(), pool.begin() + ri.range(0, 50 - n), pool.end());
      else
        ri.shuffle(pool);
    }
    marks.assign(pool.begin(), pool.begin() + n);
    foreign.assign(pool.begin() + n, pool.end());
    ctx.note(std::is_sorted(marks.begin(), marks.end()) ? "marker-ids-ascending" : "marker-ids-any-order", 1);
  };
  auto index = [&](unsigned id) {  // of the feature on the target, -1 for none of it
    if (kind != ARUCO)
      return (int)id < ids ? (int)id : -1;
    auto it = std::find(marks.begin(), marks.end(), (int)id);
    return it == marks.end() ? -1 : (int)(it - marks.begin());
  };
  double unit = 0;  // distance of neighbouring features
  if (kind == CIRCLES)
  {
    unit = 0.02 * size;
    auto* c = new render::Circles(rows, cols, unit, 0.25, 0.4);
    pat.reset(c);
    ids = rows * cols;
    for (int k = 0; k < ids; ++k)
      where.push_back(c->feature(k));
    img::CircleDetectorParams q;
    switch (st.i("params"))
    {
      case 1:
        q.filterByArea = false;
        break;
      case 2:
        q.filterByArea = false, q.filterByConvexity = false, q.maxAverageEllipseError = 0.2f;
        break;
      case 3:
        q.nThresholds = 1, q.minRepeatability = 1;
        break;
      case 4:
        q.filterByCircularity = true, q.filterByInertia = true, q.minInertiaRatio = 0.1f;
        break;
    }
    finder.reset(new img::ModifiedCircleGridTargetFinder(img::ModifiedCircleGridTarget(rows, cols, unit), q));
  }
  else if (kind == ARUCO)
  {
    unit = 0.04 * size;
    double gap = unit * st.d("gap");
    choose(rows * cols);
    auto* a = new render::Aruco(rows, cols, (float)unit, (float)gap, dict, 0, marks);
    pat.reset(a);
    ids = rows * cols, per = 4;
    for (int k = 0; k < ids; ++k)
      for (int c = 0; c < 4; ++c)
        where.push_back(a->corner(k, c));
    if (!st.i("ids", 0))
      finder.reset(new img::ArucoGridBoardTargetFinder(img::ArucoGridTarget(rows, cols, (float)unit, (float)gap, dict)));
    else
    {
      auto board = cv::aruco::GridBoard::create(cols, rows, (float)unit, (float)gap, cv::aruco::getPredefinedDictionary(dict), marks[0]);
      board->ids = marks;
      finder.reset(new img::ArucoGridBoardTargetFinder(img::ArucoGridTarget(board)));
    }
  }
  else
  {
    double m = 0.04 * size * (1 - st.d("gap") * 0.7);
    unit = 0.04 * size;
    choose(rows * cols / 2);
    auto* c = new render::Charuco(rows, cols, (float)unit, (float)m, dict, marks);
    pat.reset(c);
    ids = c->features();
    for (int k = 0; k < ids; ++k)
      where.push_back(c->feature(k));
    if (!st.i("ids", 0))
      finder.reset(new img::CharucoGridBoardTargetFinder(img::CharucoGridTarget(rows, cols, (float)unit, (float)m, dict)));
    else
    {
      auto board = cv::aruco::CharucoBoard::create(cols, rows, (float)unit, (float)m, cv::aruco::getPredefinedDictionary(dict));
      board->ids = marks;
      finder.reset(new img::CharucoGridBoardTargetFinder(img::CharucoGridTarget(board)));
    }
  }
  auto views = p.all("view");
  if (views.empty())
    ctx.skip("no-frame");
  for (auto* v : views)
  {
    int f = (int)v->i("frame");
    Rng r((uint64_t)v->i("key"), "view");
    Camera c;
    c.w = v->i("w"), c.h = v->i("h");
    c.fx = c.fy = 420, c.cx = c.w / 2 - 0.5 + r.uni(-5, 5), c.cy = c.h / 2 - 0.5 + r.uni(-5, 5);
    double tilt = v->d("tilt");
    Isometry3d pose = render::facing(r, c, *pat, tilt, v->d("roll"), v->d("zoom"), v->d("zoom") * 1.01, 0.02);
    std::vector<Vector2d> px;
    bool allIn = true;
    for (auto& w : where)
    {
      Vector3d q = pose * w;
      px.push_back(Vector2d(c.fx * q.x() / q.z() + c.cx, c.fy * q.y() / q.z() + c.cy));
      allIn = allIn && px.back().x() > 3 && px.back().y() > 3 && px.back().x() < c.w - 4 && px.back().y() < c.h - 4;
    }
    // smallest distance between neighbouring features in the picture
    double step = 1e9;
    for (std::size_t i = 0; i < px.size(); ++i)
      for (std::size_t j = 0; j < i; ++j)
        step = std::min(step, (px[i] - px[j]).norm());
    double side = step;  // size of what is identified as one
    if (kind == ARUCO)
    {
      side = 1e9;
      for (std::size_t i = 0; i < px.size(); i += 4)
        for (int k = 0; k < 4; ++k)
          side = std::min(side, (px[i + k] - px[i + (k + 1) % 4]).norm());
    }
    // ---- the picture and its faults
    std::vector<render::Layer> layers;
    std::vector<std::unique_ptr<render::Pattern>> strays;
    render::Look look;
    look.ss = 3;
    std::string what = fmt("%s %dx%d frame %d (tilt %.2f roll %.2f gap %.2f, features %.0f px apart, %.0f px wide)", kindName[kind], rows, cols, f, tilt, v->d("roll"), st.d("gap"), step, side);
    bool clean = true, covered = false;
    for (auto* x : p.all("fault"))
      if (x->i("frame") == f && x->str("what") == "stray")
      {
        Rng q((uint64_t)x->i("key"), "stray");
        int rr = q.range(1, 2), cc = q.range(1, 2);
        std::vector<int> other = kind == CIRCLES ? allFeats(4) : foreign;
        double m = unit * q.uni(0.6, 1.5);
        if (kind == CIRCLES)
          m *= 2;
        // other sheets lying around: markers of the same or another dictionary
        strays.emplace_back(new render::Aruco(rr, cc, m, m * 0.3, x->i("amount") == 0 ? (dict + 4) % 12 : dict, 0, other));
        Isometry3d sp = render::facing(q, c, *strays.back(), q.uni(0, 0.4), q.uni(-M_PI, M_PI), 1, 1.01, 0);
        double z = pose.translation().z() * 0.98;
        sp.translation() = Vector3d(q.uni(-0.4, 0.4) * c.w / c.fx * z, q.uni(-0.4, 0.4) * c.h / c.fy * z, z);
        layers.push_back({ strays.back().get(), sp });
      }
      else if (x->i("frame") == f && x->str("what") == "exposure")
        look.gradient = x->d("gradient");
    // a circle-like blob of another sheet that covers part of a circle grid can stand in for a circle
    bool replaced = false;
    for (auto& l : layers)
      for (auto& q : px)
        for (int k = 0; k < 9 && kind == CIRCLES; ++k)
        {
          Vector2d e = q + 0.45 * step * (k ? Vector2d(std::cos(k), std::sin(k)) : Vector2d(0, 0));
          Vector3d d((e.x() - c.cx) / c.fx, (e.y() - c.cy) / c.fy, 1);
          Matrix3d h;
          h.col(0) = l.camToTarget.linear().col(0), h.col(1) = l.camToTarget.linear().col(1), h.col(2) = l.camToTarget.translation();
          Vector3d s = h.inverse() * d;
          replaced = replaced || l.pat->at(s.x() / s.z(), s.y() / s.z()) >= 0;
        }
    layers.push_back({ pat.get(), pose });
    for (auto* x : p.all("aside"))
      if (x->i("frame") == f && kind != CIRCLES)
      {
        // the picture is wider than the target needs; beside it lie markers of the same dictionary
        Rng q((uint64_t)x->i("key"), "aside");
        bool left = q.chance(0.5);
        double W = c.w, z = pose.translation().z(), m = 46 / c.fx * z;
        const int extra = 110;
        c.w += extra;
        if (left)
        {
          c.cx += extra;
          for (auto& u : px)
            u.x() += extra;
        }
        int n = (int)x->i("n"), off = q.range(0, (int)foreign.size() - n);
        for (int i = 0; i < n; ++i)
        {
          strays.emplace_back(new render::Aruco(1, 1, m, 0, dict, foreign[off + i]));
          Isometry3d sp = makePose(rotVec(Vector3d(0, 0, q.uni(-M_PI, M_PI))), Vector3d(0, 0, z));
          Vector2d at((left ? 0 : W) + extra / 2.0 + q.uni(-3, 3), c.h * (i + 0.5) / n);
          Vector3d mid((strays.back()->x0 + strays.back()->x1) / 2, (strays.back()->y0 + strays.back()->y1) / 2, 0);
          sp.translation() = Vector3d((at.x() - c.cx) / c.fx * z, (at.y() - c.cy) / c.fy * z, z) - sp.linear() * mid;
          layers.insert(layers.begin(), { strays.back().get(), sp });
        }
        what += fmt(", %d foreign markers beside it", n);
        ctx.fault("foreign-markers-aside");
        break;
      }
    cv::Mat im = render::draw(c, layers, look);
    if (v->i("colour"))
    {
      cv::Mat t;
      cv::cvtColor(im, t, cv::COLOR_GRAY2BGR);
      im = t;
    }
    const int ch = im.channels();
    for (auto* x : p.all("fault"))
    {
      if (x->i("frame") != f)
        continue;
      clean = false;
      covered = covered || x->str("what") == "occlusion" || x->str("what") == "cut" || x->str("what") == "stray";
      const std::string& w = x->str("what");
      ctx.fault(w);
      what += ", " + w;
      Rng q((uint64_t)x->i("key"), "fault");
      if (im.empty() || im.depth() != CV_8U || im.channels() == 4 || im.rows < 10 || im.cols < 10)
        continue;
      auto each = [&](auto fn) {
        for (int y = 0; y < im.rows; ++y)
          for (int xx = 0; xx < im.cols; ++xx)
            for (int k = 0; k < im.channels(); ++k)
            {
              uchar& b = im.ptr<uchar>(y)[xx * im.channels() + k];
              b = (uchar)std::min(255.0, std::max(0.0, fn((double)b)));
            }
      };
      if (w == "occlusion")
      {
        int W = std::max(1, (int)(x->d("dx") * im.cols)), H = std::max(1, (int)(x->d("dy") * im.rows));
        int X = (int)(x->d("x") * (im.cols - W)), Y = (int)(x->d("y") * (im.rows - H));
        im(cv::Rect(X, Y, W, H)).setTo(cv::Scalar::all((double)x->i("level")));
      }
      else if (w == "noise")
        each([&](double b) { return b + q.gauss() * x->d("amount"); });
      else if (w == "specks")
        for (int i = 0; i < x->i("amount"); ++i)
        {
          uchar* b = im.ptr<uchar>(q.range(0, im.rows - 1)) + q.range(0, im.cols - 1) * im.channels();
          memset(b, q.chance(0.5) ? 255 : 0, im.channels());
        }
      else if (w == "blur")
      {
        cv::Mat t;
        int k = 2 * (int)x->i("amount") + 1;
        cv::blur(im, t, cv::Size(k, k));
        im = t;
      }
      else if (w == "exposure")
        each([&](double b) { return b * x->d("gain") + x->d("offset"); });
      else if (w == "cut")
      {
        int s = (int)x->i("side");
        double k = x->d("x");
        // the rest of the picture never arrived
        cv::Rect z = s == 0 ? cv::Rect(0, (int)(im.rows * (1 - k)), im.cols, im.rows - (int)(im.rows * (1 - k))) :
                     s == 1 ? cv::Rect(0, 0, im.cols, (int)(im.rows * k)) :
                     s == 2 ? cv::Rect(0, 0, (int)(im.cols * k), im.rows) :
                              cv::Rect((int)(im.cols * (1 - k)), 0, im.cols - (int)(im.cols * (1 - k)), im.rows);
        if (s == 0 && q.chance(0.5))
          im = im(cv::Rect(0, 0, im.cols, std::max(1, (int)(im.rows * (1 - k))))).clone();
        else if (z.area() > 0)
          im(z).setTo(cv::Scalar::all(q.chance(0.5) ? 0 : 128));
      }
      else if (w == "damaged")
        switch (x->i("amount"))
        {
          case 0:
            im = cv::Mat();
            break;
          case 1:
            im = im(cv::Rect(0, 0, 1, 1)).clone();
            break;
          case 2:
            im = im(cv::Rect(0, 0, im.cols, 2)).clone();
            break;
          case 3:
          {
            cv::Mat t;
            im.convertTo(t, CV_16U, 256);
            im = t;
            break;
          }
          case 4:
          {
            cv::Mat t;
            im.convertTo(t, CV_32F, 1 / 255.0);
            im = t;
            break;
          }
          case 5:
          {
            cv::Mat t;
            cv::cvtColor(im, t, im.channels() == 1 ? cv::COLOR_GRAY2BGRA : cv::COLOR_BGR2BGRA);
            im = t;
            break;
          }
          case 6:
            im.setTo(cv::Scalar::all(q.range(0, 255)));
            break;
          case 7:
            for (int y = 0; y < im.rows; ++y)
              for (int k = 0; k < im.cols * im.channels(); ++k)
                im.ptr<uchar>(y)[k] = (uchar)q.range(0, 255);
            break;
          default:
            im = im(cv::Rect(0, 0, std::min(im.cols, q.range(3, 30)), std::min(im.rows, q.range(3, 30)))).clone();
        }
    }
    (void)ch;
    // ---- find
    auto find = [&](const img::TargetFinder& g, const cv::Mat& m, std::string& err) {
      img::TargetFeatures t;
      err.clear();
      try
      {
        t = g.findTargetFeatures(m);
      }
      catch (const std::exception& e)
      {
        err = e.what();
        if (err.empty())
          err = "?";
      }
      return t;
    };
    uint64_t d0 = digest(im);
    std::string err;
    strips->threads = 1;
    auto got = find(*finder, im, err);
    ctx.event(what + fmt(": %zu features", got.size()) + (err.empty() ? "" : " (" + err.substr(0, 60) + ")"));
    ctx.check(oob.empty(), "out-of-bounds", what + ": access outside an image: " + oob);
    ctx.check(digest(im) == d0, "image-altered", what + ": finding features altered the image");
    // ---- identity and accuracy
    // a covered marker edge moves the corners found by up to the width of the marker's frame
    double tol = clean && side > 20 ? 2.5 : 0.45 * side;
    double worst = 0;
    for (auto& g : got)
    {
      const int at = index(g.first);
      ctx.check(at >= 0, "foreign-feature", what + fmt(": feature %u is none of the target's", g.first));
      ctx.check((int)g.second.size() == per, "feature-size", what + fmt(": feature %u has %zu points", g.first, g.second.size()));
      for (int k = 0; k < per; ++k)
      {
        double e = (g.second[k] - px[at * per + k]).norm();
        worst = std::max(worst, e);
        // a detector told to accept any shape finds circles in strays and occluders
        if ((st.i("params") && covered) || replaced)
          continue;
        ctx.check(e <= tol, "misidentified", what + fmt(": feature %u.%d reported at (%.1f %.1f), it is at (%.1f %.1f)", g.first, k, g.second[k].x(), g.second[k].y(), px[at * per + k].x(), px[at * per + k].y()));
      }
    }
    ctx.note(clean ? "features-clean" : "features-faulty", got.size());
    if (got.size())
      ctx.note(worst < 0.5 ? "worst<0.5px" : worst < 1 ? "worst<1px" : worst < 2 ? "worst<2px" : "worst>=2px", 1);
    if (clean && allIn)
    {
      bool easy = tilt < 0.25 && step > (kind == CIRCLES ? 22 : kind == ARUCO ? 22 : 36) && !st.i("params") && std::min(rows, cols) > (kind == CIRCLES);
      if (kind == CHARUCO)
        easy = easy && 0.35 * st.d("gap") * step >= 6;  // white frame of the markers in pixels
      ctx.note(got.size() == (std::size_t)ids ? "clean-complete" : got.size() ? "clean-partial" : "clean-none", 1);
      if (easy)
        ctx.check((int)got.size() == ids, "not-found", what + fmt(": %zu of %d features of a clean view found", got.size(), ids) + " " + err);
    }
    // ---- matching with the geometry
    if (!got.empty())
    {
      auto corr = finder->target().createCorrespondences(got);
      ctx.check(corr.size() == got.size() * per, "correspondences", what + fmt(": %zu correspondences of %zu features", corr.size(), got.size()));
      std::size_t i = 0;
      for (auto& g : got)
        for (int k = 0; k < per; ++k, ++i)
          ctx.check((corr[i].in_target - where[index(g.first) * per + k]).norm() < 1e-5 * size && corr[i].in_image == g.second[k], "correspondences",
                    what + fmt(": feature %u.%d is matched with (%g %g %g)", g.first, k, corr[i].in_target.x(), corr[i].in_target.y(), corr[i].in_target.z()));
    }
    // ---- drawing
    if (!got.empty() && im.depth() == CV_8U && im.channels() != 4)
    {
      cv::Mat o;
      try
      {
        o = finder->drawTargetFeatures(im, got);
      }
      catch (const std::exception& e)
      {
        ctx.fail("drawing", what + ": drawing the found features threw " + e.what());
      }
      ctx.check(oob.empty(), "out-of-bounds", what + ": access outside an image: " + oob);
      ctx.check(digest(im) == d0, "image-altered", what + ": drawing features altered the caller's image");
      ctx.check(o.size() == im.size(), "drawing", what + ": the drawing has another size");
    }
    // ---- any order of the parallel work, and a finder used before
    for (auto* x : p.all("order"))
      if (x->i("frame") == f)
      {
        strips->r = Rng((uint64_t)x->i("key"), "order");
        strips->threads = (int)x->i("threads");
        std::string e2;
        auto again = find(*finder, im, e2);
        ctx.fault("parallel-order");
        ctx.check(same(got, again) && err.empty() == e2.empty(), "order-dependent", what + fmt(": %zu features, and %zu with the parallel work in another order", got.size(), again.size()));
      }
    ctx.note("parallel-loops", strips->loops);
    ctx.note("parallel-strips", strips->strips);
    strips->loops = strips->strips = 0;
  }
}
static Registrar reg({ "C14", gen, run, "" });
