// C16: validation tools fed with clean, corrupted, reordered, repeated and insufficient data
#include "world.h"
#include <memory>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/projection.h>
using namespace world;
using namespace sim;

static void gen(Rng& r, Plan& p, int tier)
{
  int kind = r.range(0, 3);  // 0 1: homography, 2: re-projection, 3: intrinsic accuracy
  Item& s = p.add("setup").set("kind", kind).set("seed", (unsigned long)(r.u64() >> 24)).set("rows", r.range(2, 9)).set("cols", r.range(2, 9));
  if (kind < 2)
  {
    s.set("three", (int)r.chance(0.4)).set("sampler", r.range(0, 2)).set("stride", r.chance(0.3) ? 4 : 1).set("nsamp", r.chance(0.6) ? 4 : r.range(2, 24)).set("sseed", r.chance(0.3) ? (unsigned long)r.range(0, 3) : (unsigned long)(r.u64() >> 40)).set("claim", r.chance(0.1) ? r.range(1, 400) : 0).set("mix", (unsigned long)(r.chance(0.5) ? r.u64() >> 40 : 0));
    int n = r.chance(0.3) ? 0 : r.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
      int k = r.range(0, 2);
      p.add("corrupt", true).set("mode", k == 0 ? "swap" : "displace").set("a", r.range(0, 5000)).set("b", r.range(0, 5000)).set("d", std::pow(10.0, r.uni(-0.5, 2)) * (r.chance(0.5) ? 1 : -1)).set("th", r.uni(0, 6.3));
    }
    if (r.chance(0.15))
      p.add("truncate", true).set("n", r.range(0, 40));
  }
  else
  {
    s.set("n", r.chance(0.04) ? r.range(12, 40) : r.range(0, kind == 2 ? 6 : 5)).set("noise", r.chance(0.6) ? 0.0 : r.uni(0.05, 1.0)).set("order", (unsigned long)(r.u64() >> 40));
    if (kind == 3)
      s.set("thr", r.chance(0.3) ? r.uni(0, 0.5) : 1.0).set("feats", r.chance(0.25) ? r.range(0, 11) : 999);
    static const char* m[] = { "none", "fx", "fy", "cx", "cy", "cam", "tgt" };
    p.add("wrong", true).set("what", m[r.range(0, 6)]).set("by", r.uni(-0.03, 0.03));
    if (kind == 2)
    {
      double k = r.uni(0, 0.6);
      genFaults(r, p, 1, 6, 16, k, 0, true, true);
      if (r.chance(0.05))
        p.add("edge", true).set("view", r.range(0, 5));
    }
    else
    {
      if (r.chance(0.1))
        p.add("missing", true).set("view", r.range(0, 4)).set("n", r.range(1, 5));
      if (r.chance(0.4))
        p.add("dup", true).set("cam", 0).set("view", r.range(0, 4)).set("at", r.range(0, 4));
    }
  }
}

// -------- homography
static void homography(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  Rng r((uint64_t)s.i("seed"), "world");
  int rows = (int)s.i("rows"), cols = (int)s.i("cols"), stride = (int)s.i("stride");
  bool three = s.i("three");
  TargetGeom g;
  g.rows = rows, g.cols = cols, g.spacing = r.uni(0.01, 0.06);
  Vector3d off(r.uni(-0.2, 0.2), r.uni(-0.2, 0.2), 0);
  std::vector<Vector3d> pts;
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j)
      for (int k = 0; k < stride; ++k)
        pts.push_back(off + g.spacing * Vector3d(j + 0.5 * (k == 1 || k == 2), i + 0.5 * (k >= 2), 0));
  g.pts = pts;
  Camera cam = randCamera(r);
  Isometry3d T = lookAt(r, cam, g, 0.6, 1.15, 2.0);
  std::vector<Vector2d> px;
  std::vector<Vector3d> c3;
  for (auto& x : pts)
  {
    px.push_back(cam.project(T * x));
    c3.push_back(T * x);
  }
  int N = (int)pts.size();
  std::vector<int> touched(N, 0);
  std::vector<double> moved(N, 0);
  for (auto* it : p.all("corrupt"))
  {
    int a = (int)(it->i("a") % N), b = (int)(it->i("b") % N);
    if (it->str("mode") == "swap")
    {
      if (a == b)
        continue;
      std::swap(px[a], px[b]);
      std::swap(c3[a], c3[b]);
      touched[a] = touched[b] = 1;
      ctx.fault("feature-swapped");
    }
    else
    {
      double d = it->d("d"), th = it->d("th");
      px[a] += d * Vector2d(std::cos(th), std::sin(th));
      c3[a] += 0.001 * d * Vector3d(std::cos(th), std::sin(th), 0);
      touched[a] = 1;
      ctx.fault("feature-displaced");
    }
  }
  rct::Correspondence2D3D::Set s2;
  rct::Correspondence3D3D::Set s3;
  for (int i = 0; i < N; ++i)
  {
    s2.push_back({ px[i], pts[i] });
    s3.push_back({ c3[i], pts[i] });
  }
  if (auto* t = p.find("truncate"))
  {
    std::size_t n = std::min<std::size_t>(N, (std::size_t)t->i("n"));
    s2.resize(n);
    s3.resize(n);
    ctx.fault("observation-truncated");
  }
  int M = (int)s2.size();
  int which = (int)s.i("sampler");
  if (which > 0 && s.i("mix"))
  {
    // random sampling does not need an order
    Rng q((uint64_t)s.i("mix"), "mix");
    std::vector<int> o(M);
    for (int i = 0; i < M; ++i)
      o[i] = i;
    q.shuffle(o);
    auto a = s2;
    auto b = s3;
    auto t = touched;
    for (int i = 0; i < M; ++i)
      s2[i] = a[o[i]], s3[i] = b[o[i]], touched[i] = t[o[i]];
    ctx.fault("feature-reordered");
  }
  std::size_t nsamp = (std::size_t)s.i("nsamp"), claim = s.i("claim") ? (std::size_t)s.i("claim") : (std::size_t)M;
  std::unique_ptr<rct::CorrespondenceSampler> sm;
  std::string what = fmt("%s %dx%dx%d, %d correspondences, sampler %d (%zu of %zu)", three ? "3D" : "2D", rows, cols, stride, M, which, nsamp, claim);
  bool mustRefuse = false;
  std::vector<std::size_t> idx, idx2;
  bool refused = false;
  try
  {
    if (which == 0)
    {
      sm.reset(new rct::GridCorrespondenceSampler(rows, cols, stride));
      mustRefuse = rows * cols < 8;
      nsamp = 4;
      claim = (std::size_t)N;
    }
    else
    {
      mustRefuse = nsamp < 4 || nsamp > claim;
      sm.reset(new rct::RandomCorrespondenceSampler(claim, nsamp, (unsigned)s.i("sseed")));
    }
    idx = sm->getSampleCorrespondenceIndices();
    idx2 = sm->getSampleCorrespondenceIndices();
  }
  catch (const std::exception&)
  {
    refused = true;
  }
  ctx.event(fmt("refused %d", (int)refused));
  ctx.check(refused == mustRefuse, mustRefuse ? "degenerate-accepted" : "sampler-refused", what);
  if (refused)
    return;
  ctx.check(idx == idx2, "sample-not-repeatable", what);
  if (which > 0)
  {
    rct::RandomCorrespondenceSampler other(claim, nsamp, (unsigned)s.i("sseed"));
    ctx.check(other.getSampleCorrespondenceIndices() == idx, "sample-depends-on-more-than-seed", what);
  }
  ctx.check(idx.size() == nsamp, "sample-size", what);
  for (auto i : idx)
    ctx.check(i < claim, "sample-outside", fmt("index %zu; ", i) + what);
  if (which == 0)
  {
    // corners of the grid
    std::vector<std::size_t> want = { 0, (std::size_t)(cols - 1) * stride, (std::size_t)(rows - 1) * cols * stride, ((std::size_t)rows * cols - 1) * stride }, got = idx;
    std::sort(want.begin(), want.end());
    std::sort(got.begin(), got.end());
    ctx.check(got == want, "not-the-corners", what);
  }
  Eigen::VectorXd e;
  bool ok = true;
  std::string err;
  auto b2 = s2;
  auto b3 = s3;
  try
  {
    e = three ? rct::calculateHomographyError(s3, *sm) : rct::calculateHomographyError(s2, *sm);
  }
  catch (const std::exception& x)
  {
    ok = false;
    err = x.what();
  }
  ctx.check(s2 == b2 && s3 == b3, "input-changed", what);
  bool few = M < 2 * (int)nsamp;
  bool outside = false;
  for (auto i : idx)
    outside |= (int)i >= M;
  if (few || outside)
  {
    ctx.check(!ok, few ? "too-few-accepted" : "sample-outside-data", what);
    ctx.nontrivial();
    return;
  }
  ctx.check(ok, "refused", err + "; " + what);
  ctx.check(e.size() == M, "size", what);
  for (int i = 0; i < M; ++i)
    ctx.eventD("e", e[i]);
  // the reference: homography from the sample (normalised null vector), and every error
  auto im = [&](int i) -> Vector2d { return three ? Vector2d((s3[i].in_image / s3[i].in_image.z()).head<2>()) : Vector2d(s2[i].in_image); };
  Eigen::MatrixXd A(2 * nsamp, 8);
  Eigen::VectorXd b(2 * nsamp);
  double sc = three ? 1 : cam.fx, g0 = g.spacing * std::max(rows, cols);
  Vector2d c0 = three ? Vector2d(0, 0) : Vector2d(cam.cx, cam.cy);
  for (std::size_t k = 0; k < nsamp; ++k)
  {
    Vector2d u = (im((int)idx[k]) - c0) / sc;
    double x = s2[idx[k]].in_target.x() / g0, y = s2[idx[k]].in_target.y() / g0;
    A.row(2 * k) << x, y, 1, 0, 0, 0, -u.x() * x, -u.x() * y;
    A.row(2 * k + 1) << 0, 0, 0, x, y, 1, -u.y() * x, -u.y() * y;
    b[2 * k] = u.x();
    b[2 * k + 1] = u.y();
  }
  Eigen::JacobiSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
  double cond = svd.singularValues()[7] / svd.singularValues()[0];
  if (cond < 1e-5)
    ctx.skip("sample-degenerate");
  Eigen::VectorXd h = svd.solve(b);
  bool sampleHit = false, any = false;
  for (int i = 0; i < M; ++i)
    any |= touched[i] != 0;
  for (auto i : idx)
    sampleHit |= touched[i] != 0;
  double unit = three ? T.translation().norm() : 1;
  double floor_ = (three ? 1e-9 : 1e-6) * unit / std::min(1.0, cond * 1e3);
  if (nsamp == 4 || !sampleHit)
  {
    // the homography is determined: every error has one right value
    for (int i = 0; i < M; ++i)
    {
      double x = s2[i].in_target.x() / g0, y = s2[i].in_target.y() / g0;
      double w = h[6] * x + h[7] * y + 1;
      if (std::abs(w) < 1e-3)
        continue;
      Vector2d u = c0 + sc * Vector2d(h[0] * x + h[1] * y + h[2], h[3] * x + h[4] * y + h[5]) / w;
      double want = (u - im(i)).norm() * (three ? std::abs(s3[i].in_image.z()) : 1);
      ctx.check(std::abs(std::abs(e[i]) - want) < floor_ + 1e-5 * want / std::min(1.0, std::abs(w)), any ? "error-wrong" : "clean-data-flagged", fmt("feature %d: error %.9g, expected %.9g (sample conditioning %.2g); ", i, e[i], want, cond) + what);
    }
    ctx.note("exact_error_compared", 1);
  }
  else
  {
    // a corrupted feature is part of an over-determined sample: some error must show, at least as large as the
    // smallest one any homography leaves
    Eigen::VectorXd x0 = h;
    double best = 1e300;
    for (int it = 0; it < 30; ++it)
    {
      Eigen::VectorXd rr(2 * M);
      Eigen::MatrixXd J(2 * M, 8);
      for (int i = 0; i < M; ++i)
      {
        double x = s2[i].in_target.x() / g0, y = s2[i].in_target.y() / g0, w = x0[6] * x + x0[7] * y + 1;
        Vector2d u((x0[0] * x + x0[1] * y + x0[2]) / w, (x0[3] * x + x0[4] * y + x0[5]) / w), m = (im(i) - c0) / sc;
        rr.segment<2>(2 * i) = u - m;
        J.row(2 * i) << x / w, y / w, 1 / w, 0, 0, 0, -u.x() * x / w, -u.x() * y / w;
        J.row(2 * i + 1) << 0, 0, 0, x / w, y / w, 1 / w, -u.y() * x / w, -u.y() * y / w;
      }
      if (!rr.allFinite())
        break;
      best = std::min(best, rr.squaredNorm());
      x0 -= J.colPivHouseholderQr().solve(rr);
    }
    double lower = std::sqrt(best / M) * sc * 0.5 * (three ? 0.05 : 1);
    if (lower > 100 * floor_ && best < 1e200)
    {
      // an inconsistent sample may collapse the homography altogether: a non-number is no clean bill either
      double mx = 0;
      for (int i = 0; i < M; ++i)
        mx = std::isfinite(e[i]) ? std::max(mx, std::abs(e[i])) : INFINITY;
      ctx.check(mx >= lower, "corruption-hidden", fmt("largest error %.4g, no homography leaves less than %.4g; ", mx, lower) + what);
      ctx.note("overdetermined_corrupted", 1);
    }
  }
  if (any)
    ctx.nontrivial();
  ctx.state(Digest().u(M).u(which).u(nsamp).u(sampleHit).u(any).d(e.sum()).h);
}

struct Setup
{
  Camera cam;
  TargetGeom tgt;
  Isometry3d X, Y, B;  // camera mount, target mount, camera base to target base
  std::vector<Isometry3d> c2t, camMount, tgtMount;
  std::vector<std::vector<Vector2d>> px;
};
static Setup makeSetup(const Item& s, int n, bool base)
{
  Setup w;
  Rng r((uint64_t)s.i("seed"), "world");
  w.cam = randCamera(r);
  w.tgt.rows = std::max<int>(3, (int)s.i("rows"));
  w.tgt.cols = std::max<int>(3, (int)s.i("cols"));
  w.tgt.spacing = r.uni(0.015, 0.05);
  for (int i = 0; i < w.tgt.rows; ++i)
    for (int j = 0; j < w.tgt.cols; ++j)
      w.tgt.pts.push_back(Vector3d(j * w.tgt.spacing, i * w.tgt.spacing, 0));
  w.X = mountPose(r, 0.2);
  w.Y = mountPose(r, 0.5);
  w.B = base ? mountPose(r, 0.5) : Isometry3d::Identity();
  double noise = s.d("noise");
  for (int i = 0; i < n; ++i)
  {
    Isometry3d T = lookAt(r, w.cam, w.tgt);
    w.c2t.push_back(T);
    Isometry3d tm = mountPose(r, 0.4);
    w.tgtMount.push_back(tm);
    // base -> camera mount such that the camera sees the target at T
    w.camMount.push_back(w.B * tm * w.Y * T.inverse() * w.X.inverse());
    std::vector<Vector2d> u;
    for (auto& x : w.tgt.pts)
    {
      Vector2d v = w.cam.project(T * x);
      if (noise > 0)
        v += noise * Vector2d(r.gauss(), r.gauss());
      u.push_back(v);
    }
    w.px.push_back(u);
  }
  return w;
}
static void applyWrong(const Plan& p, Ctx& ctx, Setup& w, rct::CameraIntrinsics& in)
{
  auto* x = p.find("wrong");
  if (!x)
    return;
  std::string m = x->str("what");
  double by = x->d("by");
  if (m == "fx")
    in.fx() *= 1 + by;
  if (m == "fy")
    in.fy() *= 1 + by;
  if (m == "cx")
    in.cx() += by * w.cam.w;
  if (m == "cy")
    in.cy() += by * w.cam.h;
  if (m == "cam")
    w.X = w.X * makePose(rotVec(Vector3d(by, -by, by * 0.5)), Vector3d(by, by, -by) * 0.3);
  if (m == "tgt")
    w.Y = w.Y * makePose(rotVec(Vector3d(-by, by, by)), Vector3d(by, -by, by) * 0.3);
  if (m != "none")
    ctx.fault("wrong-" + m);
}

static void reprojection(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  int n = (int)s.i("n");
  Setup w = makeSetup(s, n, false);
  auto q = deliver(p, ctx, 0, n, (int)w.tgt.pts.size(), 0);
  rct::CameraIntrinsics in = w.cam.intr();
  bool exact = s.d("noise") == 0;
  Setup t = w;
  applyWrong(p, ctx, t, in);
  auto* wr = p.find("wrong");
  bool clean = exact && (!wr || wr->str("what") == "none");
  rct::Observation2D3D::Set obs;
  std::vector<double> want;
  bool parallel = false;
  for (auto& d : q)
  {
    rct::Observation2D3D o;
    o.to_camera_mount = w.camMount[d.view];
    o.to_target_mount = w.tgtMount[d.view];
    for (int f : d.feats)
      if (f < (int)w.tgt.pts.size())
        o.correspondence_set.push_back({ w.px[d.view][f], w.tgt.pts[f] });
    auto* ed = p.find("edge");
    if (ed && ed->i("view") == d.view && d.feats.size())
    {
      // the target is seen exactly edge-on, through its plane: no intersection
      Isometry3d e = makePose(rotVec(Vector3d(M_PI_2, 0, 0)), Vector3d(0, 0, 1));
      o.to_camera_mount = w.Y.inverse() * Isometry3d::Identity();
      o.to_camera_mount = o.to_target_mount * t.Y * e.inverse() * t.X.inverse();
      for (auto& c : o.correspondence_set)
        c.in_image = Vector2d(in.cx() + 3, in.cy());  // ray in the plane of the target
      parallel = true;
      ctx.fault("edge-on");
    }
    Isometry3d C = (o.to_camera_mount * t.X).inverse() * (o.to_target_mount * t.Y);
    for (auto& c : o.correspondence_set)
    {
      Vector3d ray((c.in_image.x() - in.cx()) / in.fx(), (c.in_image.y() - in.cy()) / in.fy(), 1);
      // in the frame of the target
      Vector3d o0 = C.linear().transpose() * (-C.translation()), dir = C.linear().transpose() * ray;
      Vector3d hit = o0 - dir * (o0.z() / dir.z());
      want.push_back((hit - c.in_target).norm());
    }
    obs.push_back(o);
  }
  auto copy = obs;
  Eigen::ArrayXd e;
  bool ok = true;
  std::string err;
  try
  {
    e = rct::compute3DProjectionError(obs, in, t.X, t.Y);
  }
  catch (const std::exception& x)
  {
    ok = false;
    err = x.what();
  }
  std::string what = fmt("%zu observations, %zu features, wrong %s", obs.size(), want.size(), wr ? wr->str("what").c_str() : "none");
  ctx.event(fmt("ok %d", (int)ok));
  if (parallel)
  {
    ctx.check(!ok, "no-intersection-accepted", what);
    return;
  }
  ctx.check(ok, "refused", err + "; " + what);
  ctx.check(obs == copy, "input-changed", what);
  ctx.check(e.size() == (Eigen::Index)want.size(), "size", what);
  double mx = 0;
  for (std::size_t i = 0; i < want.size(); ++i)
  {
    ctx.eventD("e", e[i]);
    mx = std::max(mx, std::abs(e[i]));
    ctx.check(std::abs(e[i] - want[i]) < 1e-8 + 1e-6 * want[i], "error-wrong", fmt("feature %zu: %.10g, expected %.10g; ", i, e[i], want[i]) + what);
  }
  if (clean)
    ctx.check(mx < 1e-8, "clean-data-flagged", fmt("largest error %.3g; ", mx) + what);
  // one observation alone gives its own part
  std::size_t o = 0;
  for (auto& x : obs)
  {
    Eigen::ArrayXd a = rct::compute3DProjectionError(x, in, t.X, t.Y);
    ctx.check(a.size() == (Eigen::Index)x.correspondence_set.size(), "size-single", what);
    for (int i = 0; i < a.size(); ++i)
      ctx.check(std::abs(a[i] - want[o + i]) < 1e-8 + 1e-6 * want[o + i], "error-wrong-single", what);
    o += a.size();
  }
  ctx.nontrivial();
}

static void accuracy(const Plan& p, Ctx& ctx)
{
  const Item& s = p.need("setup");
  int n = (int)s.i("n");
  Setup w = makeSetup(s, n, true);
  rct::CameraIntrinsics in = w.cam.intr();
  bool exact = s.d("noise") == 0;
  Setup t = w;
  applyWrong(p, ctx, t, in);
  auto* wr = p.find("wrong");
  bool clean = exact && (!wr || wr->str("what") == "none" || wr->str("what") == "cam" || wr->str("what") == "tgt");
  double thr = s.d("thr");
  std::size_t nf = std::min<std::size_t>(w.tgt.pts.size(), (std::size_t)s.i("feats"));
  auto q = deliver(p, ctx, 0, n, (int)nf, 0);
  rct::Observation2D3D::Set obs;
  for (auto& d : q)
  {
    rct::Observation2D3D o;
    o.to_camera_mount = w.camMount[d.view];
    o.to_target_mount = w.tgtMount[d.view];
    for (int f : d.feats)
      o.correspondence_set.push_back({ w.px[d.view][f], w.tgt.pts[f] });
    if (auto* m = p.find("missing"))
      if (m->i("view") == d.view)
      {
        std::size_t k = std::min<std::size_t>(o.correspondence_set.size(), (std::size_t)m->i("n"));
        o.correspondence_set.resize(o.correspondence_set.size() - k);
        ctx.fault("features-missing");
      }
    obs.push_back(o);
  }
  bool mustThrow = obs.empty();
  std::string why = obs.empty() ? "no observations" : "";
  for (auto& o : obs)
    if (o.correspondence_set.size() != obs[0].correspondence_set.size())
      mustThrow = true, why = "different numbers of features";
  // pose of each half, one at a time
  std::vector<double> pe, ae;
  bool known = true;
  for (auto& o : obs)
  {
    if (mustThrow)
      break;
    Isometry3d guess = (o.to_camera_mount * t.X).inverse() * (w.B * o.to_target_mount * t.Y);
    std::size_t h = o.correspondence_set.size() / 2;
    Isometry3d half[2];
    for (int k = 0; k < 2; ++k)
    {
      rct::PnPProblem pr;
      pr.intr = in;
      pr.camera_to_target_guess = guess;
      pr.correspondences.assign(o.correspondence_set.begin() + (k ? h : 0), k ? o.correspondence_set.end() : o.correspondence_set.begin() + h);
      if (pr.correspondences.size() < 3)
      {
        mustThrow = true;
        why = "half of the features do not determine a pose";
        break;
      }
      try
      {
        auto res = rct::optimize(pr);
        if (std::abs(res.final_cost_per_obs - thr) < 1e-9 * thr)
          ctx.skip("on-the-threshold");
        if (!res.converged || res.final_cost_per_obs > thr)
          mustThrow = true, why = "no pose within the threshold";
        half[k] = res.camera_to_target;
      }
      catch (const std::exception&)
      {
        mustThrow = true;
        why = "half of the features cannot be solved";
      }
    }
    if (mustThrow)
      break;
    Isometry3d d = half[0].inverse() * half[1];
    pe.push_back(d.translation().norm());
    ae.push_back(angleBetween(half[0].linear(), half[1].linear()));
    // directly
    bool ok = true;
    rct::VirtualCorrespondenceResult v;
    try
    {
      v = rct::measureVirtualTargetDiff(o.correspondence_set, in, guess, thr);
    }
    catch (const std::exception& e)
    {
      ok = false;
    }
    ctx.check(ok, "virtual-refused", "the two halves can be solved but the comparison was refused");
    PoseErr pd = poseErr(v.t1_to_t2, d);
    ctx.check(std::abs(v.positional_error - pe.back()) < 1e-7 && std::abs(v.angular_error - ae.back()) < 1e-6 && pd.ang < 1e-6 && pd.trans < 1e-7, "virtual-wrong", fmt("positional %.9g (expected %.9g) angular %.9g (expected %.9g)", v.positional_error, pe.back(), v.angular_error, ae.back()));
  }
  rct::IntrinsicCalibrationAccuracyResult res;
  bool ok = true;
  std::string err;
  auto copy = obs;
  try
  {
    res = rct::measureIntrinsicCalibrationAccuracy(obs, in, t.X, t.Y, w.B, thr);
  }
  catch (const std::exception& e)
  {
    ok = false;
    err = e.what();
  }
  std::string what = fmt("%zu observations of %zu features, wrong %s", obs.size(), obs.empty() ? 0 : obs[0].correspondence_set.size(), wr ? wr->str("what").c_str() : "none");
  ctx.event(fmt("ok %d must refuse %d", (int)ok, (int)mustThrow));
  ctx.nontrivial();
  ctx.check(obs == copy, "input-changed", what);
  if (mustThrow)
  {
    ctx.check(!ok, "made-up-statistics", why + "; " + what);
    ctx.note("refused", 1);
    return;
  }
  ctx.check(ok, "refused", err + "; " + what);
  auto stat = [&](const char* nm, std::pair<double, double> got, const std::vector<double>& v, double tol) {
    double m = 0, q2 = 0;
    for (double x : v)
      m += x / v.size();
    for (double x : v)
      q2 += (x - m) * (x - m);
    double a = std::sqrt(q2 / v.size()), b = v.size() > 1 ? std::sqrt(q2 / (v.size() - 1)) : a;
    bool okm = std::abs(got.first - m) < tol, oks = std::abs(got.second - a) < tol || std::abs(got.second - b) < tol;
    ctx.eventD(nm, got.first);
    ctx.check(okm && oks, std::string(nm) + "-statistics", fmt("mean %.9g (expected %.9g), spread %.9g (expected %.9g); ", got.first, m, got.second, a) + what);
  };
  stat("position", res.pos_error, pe, 1e-7);
  stat("orientation", res.ang_error, ae, 1e-6);
  if (clean && obs.size() && obs[0].correspondence_set.size() >= 18)
    ctx.check(res.pos_error.first < 5e-4 && res.ang_error.first < 2e-3, "clean-data-flagged", fmt("%.3g m %.3g rad; ", res.pos_error.first, res.ang_error.first) + what);
  ctx.note("accuracy_compared", 1);
}

static void run(const Plan& p, Ctx& ctx)
{
  int k = (int)p.need("setup").i("kind");
  if (k < 2)
    homography(p, ctx);
  else if (k == 2)
    reprojection(p, ctx);
  else
    accuracy(p, ctx);
  ctx.simTime(0.1);
}
static Registrar reg({ "C16", gen, run, "distinct validated data sets" });
