// C11: calibration data sets saved and loaded on a disk that fills up, fails, tears writes, loses files and processes
#include "world.h"
#include "disk.h"
#include "../core/storage.h"
#include <rct_ros_tools/data_set.h>
#include <opencv2/core.hpp>
#include <sys/wait.h>
using namespace world;
using namespace sim;

// history items: save dir set (faults follow as "fault" items with the same step), lose, load
static void gen(Rng& r, Plan& p, int tier)
{
  int nd = r.chance(0.7) ? 1 : 2, ns = r.range(1, 3);
  p.add("setup").set("seed", (unsigned long)(r.u64() >> 24)).set("dirs", nd).set("sets", ns).set("deep", (int)r.chance(0.15)).set("rel", (int)r.chance(0.2));
  for (int i = 0; i < ns; ++i)
    p.add("set").set("n", r.chance(0.06) ? 0 : r.chance(0.015) ? r.range(100, 130) : r.chance(0.2) ? r.range(8, tier ? 24 : 13) : r.range(1, 6)).set("big", r.chance(0.05) ? 2 : (int)r.chance(0.3)).set("grey", (int)r.chance(0.1)).set("bad", r.chance(0.06) ? r.range(1, 4) : 0);
  int steps = r.range(1, 5);
  for (int k = 0; k < steps; ++k)
  {
    int s = r.range(0, ns - 1), n = (int)p.all("set")[s]->i("n");
    p.add("save", k > 0).set("step", k).set("dir", r.range(0, nd - 1)).set("set", s);
    int nf = r.chance(0.3) ? 0 : r.chance(0.7) ? 1 : r.range(2, 5);
    for (int i = 0; i < nf; ++i)
    {
      // the interesting places are spread over the whole save: folders, pictures, poses, index
      int span = 4 + n * 6 + 4;
      int kind = r.range(0, 9);
      auto& f = p.add("fault", true).set("step", k).set("at", r.chance(0.15) ? r.range(0, 6) : r.chance(0.15) ? span - r.range(0, 8) : r.range(0, span));
      f.set("part", r.chance(0.2) ? 0.0 : r.chance(0.2) ? 1.0 : r.u01());
      if (kind < 3)
        f.set("crash", 1);
      else if (kind < 5)
        f.set("err", ENOSPC).set("stays", (int)r.chance(0.7));
      else if (kind < 7)
        f.set("err", EIO).set("stays", (int)r.chance(0.2));
      else if (kind < 8)
        f.set("err", r.chance(0.5) ? EMFILE : EACCES).set("stays", (int)r.chance(0.2));
      else
        f.set("err", 0);
    }
    int nl = r.chance(0.7) ? 0 : r.range(1, 4);
    for (int i = 0; i < nl; ++i)
      p.add("lose", true).set("step", k).set("what", r.chance(0.08) ? 2 : r.range(0, 1)).set("i", r.range(0, std::max(0, n - 1))).set("how", r.range(0, 2));
    int nb = r.chance(0.8) ? 0 : r.range(1, 3);
    for (int i = 0; i < nb; ++i)
      p.add("noread", true).set("step", k).set("what", r.range(0, 1)).set("i", r.range(0, std::max(0, n - 1)));
  }
}

struct Pair
{
  cv::Mat image;
  Isometry3d pose;
};
typedef std::vector<Pair> Set;
static bool sameImage(const cv::Mat& a, const cv::Mat& b)
{
  if (a.size() != b.size() || a.type() != b.type())
    return false;
  for (int y = 0; y < a.rows; ++y)
    if (memcmp(a.ptr(y), b.ptr(y), a.cols * a.elemSize()) != 0)
      return false;
  return true;
}
static bool samePose(const Isometry3d& a, const Isometry3d& b)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      if (!(std::abs(a(i, j) - b(i, j)) <= 1e-12 * std::max(1.0, std::abs(b(i, j)))))
        return false;
  return true;
}
// is the loaded list part of s, in order and each pair whole?
static bool partOf(const rct_ros_tools::ExtrinsicDataSet& d, const Set& s)
{
  std::size_t j = 0;
  for (std::size_t i = 0; i < d.images.size(); ++i)
  {
    while (j < s.size() && !(sameImage(d.images[i], s[j].image) && samePose(d.tool_poses[i], s[j].pose)))
      ++j;
    if (j++ >= s.size())
      return false;
  }
  return true;
}
static cv::Mat colour(const cv::Mat& m)
{
  if (m.channels() == 3)
    return m.clone();
  cv::Mat o(m.rows, m.cols, CV_8UC3);
  for (int y = 0; y < m.rows; ++y)
    for (int x = 0; x < m.cols; ++x)
      o.at<cv::Vec3b>(y, x) = cv::Vec3b::all(m.at<uchar>(y, x));
  return o;
}

static void run(const Plan& p, Ctx& ctx)
{
  const Item& st = p.need("setup");
  Rng r((uint64_t)st.i("seed"), "pictures");
  disk::Scratch scratch;
  std::vector<rct_ros_tools::ExtrinsicDataSet> sets;
  std::vector<Set> want;
  std::vector<int> bad;
  for (auto* it : p.all("set"))
  {
    rct_ros_tools::ExtrinsicDataSet d;
    Set w;
    for (int i = 0; i < it->i("n"); ++i)
    {
      bool grey = it->i("grey");
      int h = it->i("big") ? r.range(30, 60) : r.range(1, 12), c = it->i("big") ? r.range(30, 80) : r.range(1, 16);
      if (it->i("big") == 2 && i < 3)  // as large as real ones
        h = r.range(150, 520), c = r.range(150, 700);
      cv::Mat m(h, c, grey ? CV_8UC1 : CV_8UC3);
      for (int y = 0; y < h; ++y)
        for (int x = 0; x < c * (grey ? 1 : 3); ++x)
          m.ptr<uchar>(y)[x] = (uchar)r.range(0, 255);
      Isometry3d pose = mountPose(r, 2.0);
      if (r.chance(0.1))
        pose = Isometry3d::Identity();
      d.images.push_back(m);
      d.tool_poses.push_back(pose);
      w.push_back({ colour(m), pose });
    }
    int b = (int)it->i("bad");
    if (b == 1 && !d.images.empty())
      d.images[r.range(0, (int)d.images.size() - 1)] = cv::Mat();  // a picture without content cannot be stored
    else if (b == 2)
      d.tool_poses.push_back(Isometry3d::Identity());  // one pose too many
    else if (b == 3 && !d.tool_poses.empty())
      d.tool_poses.pop_back();
    else
      b = 0;
    sets.push_back(d);
    want.push_back(w);
    bad.push_back(b);
  }
  struct Folder
  {
    std::string path;
    std::vector<int> maybe;  // sets whose pairs may be found
    int whole = -1;          // the set that is certainly stored
    std::vector<char> gone;
    bool noIndex = true;
  };
  std::vector<Folder> dirs(st.i("dirs"));
  for (std::size_t i = 0; i < dirs.size(); ++i)
    dirs[i].path = scratch.dir + (st.i("deep") ? "/missing" + std::to_string(i) + "/sub" : "/d" + std::to_string(i));
  bool rel = st.i("rel") && !st.i("deep");
  auto load = [&](Folder& f) {
    boost::optional<rct_ros_tools::ExtrinsicDataSet> d;
    if (rel)
    {
      char cwd[1024];
      if (!getcwd(cwd, sizeof cwd))
        throw std::logic_error("no working directory");
      bool in = chdir(f.path.c_str()) == 0;
      d = rct_ros_tools::parseFromFile(in ? "data.yaml" : f.path + "/data.yaml");
      if (chdir(cwd) != 0)
        throw std::logic_error("cannot go back");
    }
    else
      d = rct_ros_tools::parseFromFile(f.path + "/data.yaml");
    return d;
  };
  // what a load of this folder may give
  auto verify = [&](Folder& f, const std::string& when, const std::vector<char>& unread, const std::string& log) {
    bool threw = false;
    std::string err;
    boost::optional<rct_ros_tools::ExtrinsicDataSet> d;
    try
    {
      d = load(f);
    }
    catch (const std::exception& e)
    {
      threw = true;
      err = e.what();
    }
    std::string ab = when + " (" + log + ")";
    ctx.event(when + (threw ? ": load threw" : !d ? ": load failed" : ": loaded " + std::to_string(d->images.size())));
    if (d)
      ctx.check(d->images.size() == d->tool_poses.size(), "unequal-lists", ab + fmt(": %zu pictures and %zu poses", d->images.size(), d->tool_poses.size()));
    if (f.whole >= 0)
    {
      const Set& w = want[f.whole];
      if (f.noIndex)
      {
        ctx.check(!d, "invented-set", ab + ": the index is lost, yet a data set was returned");
        return;
      }
      ctx.check(!threw && d, "stored-set-not-loaded", ab + ": " + (threw ? "loading threw " + err : "loading failed"));
      Set expect;
      for (std::size_t i = 0; i < w.size(); ++i)
        if (!f.gone[i] && !(i < unread.size() && unread[i]))
          expect.push_back(w[i]);
      ctx.check(d->images.size() == expect.size(), "pairs-missing", ab + fmt(": %zu of %zu stored pairs came back", d->images.size(), expect.size()));
      for (std::size_t i = 0; i < expect.size(); ++i)
      {
        ctx.check(sameImage(d->images[i], expect[i].image), "picture-altered", ab + fmt(": picture %zu is not the one captured", i));
        ctx.check(samePose(d->tool_poses[i], expect[i].pose), "pose-altered", ab + fmt(": pose %zu is not the one captured with its picture", i));
      }
      ctx.note("loads-exact", 1);
      return;
    }
    ctx.note("loads-of-damaged", 1);
    if (!d || d->images.empty())
      return;
    for (int s : f.maybe)
      if (partOf(*d, want[s]))
        return;
    ctx.fail("lying-set", ab + fmt(": a set of %zu pairs was returned that was never captured like that", d->images.size()));
  };
  int nsteps = 0;
  for (auto* sv : p.all("save"))
  {
    int k = (int)sv->i("step"), s = (int)sv->i("set");
    Folder& f = dirs[sv->i("dir")];
    std::vector<DiskFault> fl;
    bool crash = false;
    for (auto* x : p.all("fault"))
      if (x->i("step") == k)
      {
        DiskFault q;
        q.at = x->i("at");
        q.err = (int)x->i("err", 0);
        q.crash = x->i("crash", 0);
        q.stays = x->i("stays", 0);
        q.part = x->d("part");
        crash = crash || q.crash;
        fl.push_back(q);
      }
    std::string when = fmt("step %d: set %d (%zu pairs) into folder %d", k, s, want[s].size(), (int)sv->i("dir"));
    // the save runs in its own process when the process may die
    struct
    {
      int done, ok, threw, hard, soft, ops;
      char log[1200];
    } out = {};
    auto doSave = [&]() {
      Storage::arm(scratch.dir, fl);
      try
      {
        out.ok = rct_ros_tools::saveToDirectory(f.path, sets[s]);
      }
      catch (const std::exception& e)
      {
        out.threw = 1;
      }
      DiskLog l = Storage::disarm();
      out.done = 1;
      out.hard = l.hard, out.soft = l.soft, out.ops = (int)l.ops;
      snprintf(out.log, sizeof out.log, "%s", (l.text.size() > 700 ? l.text.substr(0, 200) + " ... " + l.text.substr(l.text.size() - 480) : l.text).c_str());
    };
    if (crash)
    {
      int fd[2];
      if (pipe(fd))
        throw std::logic_error("pipe");
      pid_t c = fork();
      if (c == 0)
      {
        close(fd[0]);
        doSave();
        if (write(fd[1], &out, sizeof out) != (ssize_t)sizeof out)
          _exit(3);
        _exit(0);
      }
      close(fd[1]);
      std::size_t n = 0;
      for (ssize_t m; n < sizeof out && (m = read(fd[0], (char*)&out + n, sizeof out - n)) > 0;)
        n += m;
      close(fd[0]);
      int status = 0;
      waitpid(c, &status, 0);
      if (n != sizeof out)
      {
        out = {};
        ctx.check(WIFEXITED(status) && WEXITSTATUS(status) == 77, "save-crashed", when + fmt(": the save died by itself (status %x)", status));
      }
    }
    else
      doSave();
    for (auto& q : fl)
      if (q.crash ? !out.done : out.done && q.at < out.ops)
        ctx.fault(q.crash ? "process-death-during-save" : q.err == ENOSPC ? (q.stays ? "disk-full" : "no-space-once") : q.err == EIO ? "io-error" : q.err ? "open-refused" : "short-write");
    ctx.note("saves", 1);
    ctx.note("disk-operations", out.ops);
    bool ok = out.done && out.ok && !out.threw;
    ctx.event(when + (!out.done ? ": died" : out.threw ? ": threw" : ok ? ": reported success" : ": reported failure"));
    std::string ab = when + " (" + out.log + ")";
    if (out.done)
    {
      if (bad[s])
        ctx.check(!ok, "false-success", ab + (bad[s] == 1 ? ": a picture without content" : ": unequal numbers of pictures and poses") + " was reported as stored");
      else if (out.hard == 0 && !st.i("deep"))
        ctx.check(ok, "false-failure", ab + ": failure reported although storage worked");
      if (ok && st.i("deep"))
        ctx.check(disk::exists(f.path + "/data.yaml"), "false-success", ab + ": success reported although the folder could not be made");
    }
    if (ok)
    {
      f.whole = s;
      f.maybe = { s };
      f.gone.assign(want[s].size(), 0);
      f.noIndex = false;
    }
    else
    {
      f.whole = -1;
      f.maybe.push_back(s);
    }
    verify(f, when + (ok ? ", success" : out.done ? ", failure" : ", process died"), {}, out.log);
    for (auto& g : dirs)
      if (&g != &f && g.whole >= 0)
        verify(g, when + ", other folder", {}, "");
    // later losses
    bool lost = false;
    for (auto* x : p.all("lose"))
      if (x->i("step") == k && disk::exists(f.path))
      {
        int w = (int)x->i("what"), i = (int)x->i("i");
        std::string file = f.path + (w == 0 ? "/images/" + std::to_string(i) + ".png" : w == 1 ? "/poses/" + std::to_string(i) + ".yaml" : "/data.yaml");
        if (!disk::exists(file))
          continue;
        int how = w == 2 ? 0 : (int)x->i("how");
        if (how == 0)
          ::unlink(file.c_str());
        else
          disk::spill(file, how == 1 ? "" : w == 1 ? disk::slurp(file).substr(0, 3) : disk::slurp(file).substr(0, 20));  // emptied, or cut to its beginning
        if (w == 2)
          f.noIndex = true;
        else if (f.whole >= 0 && i < (int)f.gone.size())
          f.gone[i] = 1;
        lost = true;
        ctx.fault(w == 0 ? "picture-lost" : w == 1 ? "pose-lost" : "index-lost");
      }
    if (lost)
      verify(f, when + ", then files lost", {}, out.log);
    std::vector<std::string> block;
    std::vector<char> unread(256, 0);
    for (auto* x : p.all("noread"))
      if (x->i("step") == k)
      {
        int w = (int)x->i("what"), i = (int)x->i("i");
        block.push_back(f.path + (w == 0 ? "/images/" + std::to_string(i) + ".png" : "/poses/" + std::to_string(i) + ".yaml"));
        if (i < 256)
          unread[i] = 1;
        ctx.fault("unreadable-file");
      }
    if (!block.empty())
    {
      Storage::arm(scratch.dir, {});
      Storage::unreadable(block);
      verify(f, when + ", some files cannot be opened", unread, "");
      Storage::disarm();
      verify(f, when + ", readable again", {}, "");
    }
    ++nsteps;
  }
  if (!nsteps)
    ctx.skip("no-save");
}
static Registrar reg({ "C11", gen, run, "distinct save/fault/load histories" });
