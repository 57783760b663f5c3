#include "jobs.h"
#include "world.h"
#include "render.h"
#include "adapt/adapt.h"
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/extrinsic_multi_static_camera.h>
#include <rct_optimizations/extrinsic_multi_static_camera_only.h>
#include <rct_optimizations/extrinsic_multi_static_camera_wrist_only.h>
#include <rct_optimizations/pnp.h>
#include <rct_optimizations/circle_fit.h>
#include <rct_optimizations/experimental/multi_camera_pnp.h>
#include <rct_optimizations/experimental/camera_intrinsic.h>
#include <rct_optimizations/validation/homography_validation.h>
#include <rct_optimizations/validation/camera_intrinsic_calibration_validation.h>
#include <rct_optimizations/validation/noise_qualification.h>
#include <rct_optimizations/validation/projection.h>
#include <rct_optimizations/dh_chain.h>
#include <rct_optimizations/dh_chain_kinematic_calibration.h>
#include <rct_optimizations/covariance_analysis.h>
#include <rct_image_tools/aruco_finder.h>
#include <rct_image_tools/charuco_finder.h>
#include <rct_image_tools/modified_circle_grid_finder.h>
using namespace world;
namespace img = rct_image_tools;

namespace jobs
{
struct World
{
  std::unique_ptr<rct::DHChain> robot, small;
  std::unique_ptr<img::ModifiedCircleGridTarget> circles;
  std::unique_ptr<img::ArucoGridTarget> aruco;
  std::unique_ptr<img::CharucoGridTarget> charuco;
  std::unique_ptr<img::ModifiedCircleGridTargetFinder> fCircles;
  std::unique_ptr<img::ArucoGridBoardTargetFinder> fAruco;
  std::unique_ptr<img::CharucoGridBoardTargetFinder> fCharuco;
  cv::Mat imCircles, imAruco, imCharuco, imEmpty;
};
static std::vector<rct::DHTransform> links(Rng& r, int n, std::size_t seed)
{
  std::vector<rct::DHTransform> v;
  static const double al[3] = { 0, M_PI / 2, -M_PI / 2 };
  for (int i = 0; i < n; ++i)
    v.push_back(rct::DHTransform(Eigen::Vector4d(r.uni(0.05, 0.4), r.uni(-1, 1), r.uni(0.05, 0.4), al[(i + 1) % 3]), rct::DHJointType::REVOLUTE, "j" + std::to_string(i), seed + i));
  return v;
}
std::shared_ptr<const World> makeWorld(uint64_t seed, bool images)
{
  auto w = std::make_shared<World>();
  Rng r(seed, "jobs-world");
  w->robot.reset(new rct::DHChain(links(r, 6, 100 + r.range(0, 1000)), mountPose(r, 1)));
  w->small.reset(new rct::DHChain(links(r, 2, 100 + r.range(0, 1000)), mountPose(r, 1)));
  double sp = r.uni(0.02, 0.05);
  w->circles.reset(new img::ModifiedCircleGridTarget(4, 5, sp));
  w->aruco.reset(new img::ArucoGridTarget(2, 3, 0.04f, 0.015f, cv::aruco::DICT_4X4_50));
  w->charuco.reset(new img::CharucoGridTarget(4, 4, 0.04f, 0.03f, cv::aruco::DICT_4X4_50));
  w->fCircles.reset(new img::ModifiedCircleGridTargetFinder(*w->circles));
  w->fAruco.reset(new img::ArucoGridBoardTargetFinder(*w->aruco));
  w->fCharuco.reset(new img::CharucoGridBoardTargetFinder(*w->charuco));
  if (images)
  {
    Camera c;
    c.fx = c.fy = 260;
    c.w = 200, c.h = 160;
    c.cx = 100, c.cy = 80;
    render::Look look;
    look.ss = 2;
    render::Circles pc(4, 5, sp);
    render::Aruco pa(2, 3, 0.04, 0.015, cv::aruco::DICT_4X4_50);
    render::Charuco ph(4, 4, 0.04, 0.03, cv::aruco::DICT_4X4_50);
    w->imCircles = render::draw(c, { { &pc, render::facing(r, c, pc, 0.1, 0.1, 1.0, 1.05) } }, look);
    w->imAruco = render::draw(c, { { &pa, render::facing(r, c, pa, 0.15, 0.3, 1.0, 1.1) } }, look);
    w->imCharuco = render::draw(c, { { &ph, render::facing(r, c, ph, 0.15, 0.3, 1.0, 1.05) } }, look);
  }
  return w;
}

// ---------------------------------------------------------------- recording outcomes
static void put(Out& o, double v) { o.num.push_back(v); }
static void put(Out& o, const Isometry3d& p)
{
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j)
      put(o, p.matrix()(i, j));
}
static void put(Out& o, const Eigen::MatrixXd& m)
{
  put(o, (double)m.rows());
  put(o, (double)m.cols());
  for (int i = 0; i < m.size(); ++i)
    put(o, m(i));
}
static void put(Out& o, const rct::CovarianceResult& c)
{
  for (auto& x : c.standard_deviations)
    o.str.push_back(x.names.first), put(o, x.value);
  for (auto& x : c.covariances)
    o.str.push_back(x.names.first + "|" + x.names.second), put(o, x.value);
}
static void put(Out& o, const rct::Correspondence2D3D::Set& s)
{
  for (auto& c : s)
  {
    put(o, c.in_image.x()), put(o, c.in_image.y());
    for (int k = 0; k < 3; ++k)
      put(o, c.in_target[k]);
  }
}
static void put(Out& o, const img::TargetFeatures& f)
{
  for (auto& k : f)
  {
    o.str.push_back(std::to_string(k.first));
    for (auto& p : k.second)
      put(o, p.x()), put(o, p.y());
  }
}

// ---------------------------------------------------------------- digests of inputs
using sim::Digest;
static void in(Digest& d, const Isometry3d& p) { digestPose(d, p); }
template <class M>
static void inm(Digest& d, const M& m)
{
  for (int i = 0; i < m.size(); ++i)
    d.d(m(i));
}
template <class C>
static void ins(Digest& d, const std::vector<C>& s)
{
  d.u(s.size());
  for (auto& c : s)
    inm(d, c.in_image), inm(d, c.in_target);
}
static void in(Digest& d, const rct::CameraIntrinsics& c)
{
  for (double v : c.values)
    d.d(v);
}
template <class O>
static void ino(Digest& d, const std::vector<O>& v)
{
  for (auto& o : v)
  {
    in(d, o.to_camera_mount), in(d, o.to_target_mount);
    ins(d, o.correspondence_set);
  }
}
template <class T>
static void inv(Digest& d, const std::vector<T>& v)
{
  d.u(v.size());
  for (auto& x : v)
    in(d, x);
}
static void inss(Digest& d, const std::vector<std::vector<rct::Correspondence2D3D::Set>>& v)
{
  for (auto& a : v)
    for (auto& s : a)
      ins(d, s);
}
static void in(Digest& d, const rct::DHChain& c)
{
  auto t = c.getDHTable();
  inm(d, t);
  in(d, c.getBaseOffset());
}

// ---------------------------------------------------------------- a compact measurement world per job
struct Lab
{
  Rng r;
  int variant;
  TargetGeom tgt;
  Camera cam;
  double noise;
  Lab(uint64_t seed, int variant_, bool planar = true) : r(seed, "lab"), variant(variant_)
  {
    tgt.rows = 3, tgt.cols = 4, tgt.spacing = 0.04;
    for (int i = 0; i < 3; ++i)
      for (int j = 0; j < 4; ++j)
        tgt.pts.push_back(Vector3d(j * 0.04, i * 0.04, planar ? 0 : r.uni(-0.03, 0.03)));
    cam = randCamera(r);
    noise = r.uni(0.05, 0.3);
  }
  rct::Correspondence2D3D::Set see(const Isometry3d& ct)
  {
    rct::Correspondence2D3D::Set s;
    for (auto& p : tgt.pts)
    {
      Vector2d u = cam.project(ct * p) + Vector2d(r.gauss(), r.gauss()) * noise;
      s.push_back(rct::Correspondence2D3D(u, p));
    }
    return spoil(s);
  }
  rct::Correspondence3D3D::Set touch(const Isometry3d& ct)
  {
    rct::Correspondence3D3D::Set s;
    for (auto& p : tgt.pts)
    {
      Vector3d u = ct * p + Vector3d(r.gauss(), r.gauss(), r.gauss()) * noise * 1e-3;
      s.push_back(rct::Correspondence3D3D(u, p));
    }
    return spoil(s);
  }
  // variants of bad input: 1 nothing, 2 a value that is not a number, 3 too little
  template <class S>
  S spoil(S s)
  {
    if (variant == 1)
      s.clear();
    else if (variant == 2 && r.chance(0.5))
      s[r.range(0, (int)s.size() - 1)].in_image[0] = std::nan("");
    else if (variant == 3)
      s.resize(r.range(1, 2));
    return s;
  }
  Isometry3d look(double tilt = 0.5) { return lookAt(r, cam, tgt, tilt); }
  Isometry3d guess(const Isometry3d& ct)
  {
    Isometry3d c = makePose(Matrix3d::Identity(), tgt.center());
    return ct * c * randPose(r, 0.05, 0.01) * c.inverse();
  }
};

static const char* NAME[] = { "hand-eye 2D", "hand-eye 3D", "multi static camera", "multi static camera only", "multi static camera wrist only", "PnP 2D", "PnP 3D", "multi camera PnP", "circle fit", "intrinsic estimation",
                              "homography grid", "homography random", "intrinsic accuracy", "virtual target", "noise 2D", "noise 3D", "reprojection", "forward kinematics (shared robot)", "random poses (own robot)",
                              "kinematic calibration 6D", "kinematic calibration 2D", "serialisation", "target geometry (shared targets)", "find circles (shared finder)", "find aruco (shared finder)",
                              "find charuco (shared finder)", "draw features (shared finder)", "quaternion statistics", "covariance", "projection" };
int kinds() { return sizeof(NAME) / sizeof(NAME[0]); }
const char* name(int k) { return NAME[k]; }
bool image(int k) { return k >= 23 && k <= 26; }
bool threads(int k) { return k == 20; }

template <class Fcall, class Fin>
struct Fn : Job
{
  Fcall c;
  Fin i;
  std::shared_ptr<const World> w;
  Fn(Fcall c_, Fin i_, std::shared_ptr<const World> w_) : c(std::move(c_)), i(std::move(i_)), w(w_) {}
  void call(Out& o) override { c(o); }
  uint64_t input() const override
  {
    Digest d;
    i(d);
    return d.h;
  }
};
template <class Fcall, class Fin>
static std::unique_ptr<Job> mk(Fcall c, Fin i, std::shared_ptr<const World> w)
{
  return std::unique_ptr<Job>(new Fn<Fcall, Fin>(std::move(c), std::move(i), w));
}

std::unique_ptr<Job> prepare(std::shared_ptr<const World> w, int kind, uint64_t seed, int variant)
{
  Lab L(seed, variant, kind != 1 && kind != 6);
  Rng& r = L.r;
  switch (kind)
  {
    case 0:
    case 1: {
      Isometry3d cm = mountPose(r, 0.3), tm = mountPose(r, 0.3);
      std::vector<Isometry3d> ct, to;
      for (int i = 0; i < 6; ++i)
      {
        ct.push_back(L.look(0.8));
        to.push_back(makePose(rotVec(unit(r) * r.uni(0.3, 1)), unit(r)) );
      }
      auto fill = [&](auto& pr, auto see) {
        for (int i = 0; i < 6; ++i)
        {
          typename std::decay<decltype(pr.observations[0])>::type o(Isometry3d::Identity(), Isometry3d::Identity());
          // camera on the wrist, target fixed
          o.to_camera_mount = tm * ct[i].inverse() * cm.inverse();
          o.correspondence_set = see(ct[i]);
          pr.observations.push_back(o);
        }
        pr.camera_mount_to_camera_guess = cm * randPose(r, 0.03, 0.01);
        pr.target_mount_to_target_guess = tm * randPose(r, 0.03, 0.01);
      };
      if (kind == 0)
      {
        auto pr = std::make_shared<rct::ExtrinsicHandEyeProblem2D3D>();
        pr->intr = L.cam.intr();
        fill(*pr, [&](const Isometry3d& p) { return L.see(p); });
        return mk([pr](Out& o) {
          auto x = rct::optimize(*pr);
          put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.camera_mount_to_camera), put(o, x.target_mount_to_target), put(o, x.covariance);
        }, [pr](Digest& d) { in(d, pr->intr), in(d, pr->camera_mount_to_camera_guess), in(d, pr->target_mount_to_target_guess), ino(d, pr->observations); }, w);
      }
      auto pr = std::make_shared<rct::ExtrinsicHandEyeProblem3D3D>();
      fill(*pr, [&](const Isometry3d& p) { return L.touch(p); });
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.camera_mount_to_camera), put(o, x.target_mount_to_target), put(o, x.covariance);
      }, [pr](Digest& d) { in(d, pr->camera_mount_to_camera_guess), in(d, pr->target_mount_to_target_guess), ino(d, pr->observations); }, w);
    }
    case 2:
    case 3:
    case 4: {
      int nc = 2, n = 5;
      Isometry3d w2t = mountPose(r, 0.3), b2c0 = randPose(r, 3, 2);
      std::vector<Isometry3d> b2c, b2t;
      b2c.push_back(b2c0);
      for (int i = 0; i < n; ++i)
        b2t.push_back(b2c0 * L.look(0.7));
      // the second camera beside the first one
      b2c.push_back(b2c0 * makePose(rotVec(unit(r) * 0.05), unit(r) * 0.02));
      std::vector<std::vector<rct::Correspondence2D3D::Set>> obs(nc, std::vector<rct::Correspondence2D3D::Set>(n));
      for (int c = 0; c < nc; ++c)
        for (int i = 0; i < n; ++i)
          obs[c][i] = L.see(b2c[c].inverse() * b2t[i]);
      std::vector<Isometry3d> wrist;
      for (int i = 0; i < n; ++i)
        wrist.push_back(b2t[i] * w2t.inverse());
      if (kind == 2)
      {
        auto pr = std::make_shared<rct::ExtrinsicMultiStaticCameraMovingTargetProblem>();
        for (int c = 0; c < nc; ++c)
        {
          pr->intr.push_back(L.cam.intr());
          pr->base_to_camera_guess.push_back(b2c[c] * randPose(r, 0.02, 0.01));
          pr->wrist_poses.push_back(wrist);
          pr->image_observations.push_back(obs[c]);
        }
        pr->wrist_to_target_guess = w2t * randPose(r, 0.02, 0.01);
        return mk([pr](Out& o) {
          auto x = rct::optimize(*pr);
          put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.wrist_to_target), put(o, x.covariance);
          for (auto& p : x.base_to_camera)
            put(o, p);
        }, [pr](Digest& d) { inv(d, pr->intr), inv(d, pr->base_to_camera_guess), in(d, pr->wrist_to_target_guess), inss(d, pr->image_observations); for (auto& v : pr->wrist_poses) inv(d, v); }, w);
      }
      if (kind == 3)
      {
        auto pr = std::make_shared<rct::ExtrinsicMultiStaticCameraOnlyProblem>();
        pr->fix_first_camera = true;
        for (int i = 0; i < n; ++i)
          pr->base_to_target_guess.push_back(b2t[i] * randPose(r, 0.01, 0.005));
        for (int c = 0; c < nc; ++c)
        {
          pr->intr.push_back(L.cam.intr());
          pr->base_to_camera_guess.push_back(c ? b2c[c] * randPose(r, 0.02, 0.01) : b2c[c]);
          pr->image_observations.push_back(obs[c]);
        }
        return mk([pr](Out& o) {
          auto x = rct::optimize(*pr);
          put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.covariance);
          for (auto& p : x.base_to_camera)
            put(o, p);
          for (auto& p : x.base_to_target)
            put(o, p);
        }, [pr](Digest& d) { inv(d, pr->intr), inv(d, pr->base_to_camera_guess), inv(d, pr->base_to_target_guess), inss(d, pr->image_observations); }, w);
      }
      auto pr = std::make_shared<rct::ExtrinsicMultiStaticCameraMovingTargetWristOnlyProblem>();
      pr->wrist_poses = wrist;
      pr->wrist_to_target_guess = w2t * randPose(r, 0.02, 0.01);
      Isometry3d k = randPose(r, 0.02, 0.01);
      for (int c = 0; c < nc; ++c)
      {
        pr->intr.push_back(L.cam.intr());
        pr->base_to_camera_guess.push_back(k * b2c[c]);
        pr->image_observations.push_back(obs[c]);
      }
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.wrist_to_target), put(o, x.covariance);
        for (auto& p : x.base_to_camera)
          put(o, p);
      }, [pr](Digest& d) { inv(d, pr->intr), inv(d, pr->base_to_camera_guess), in(d, pr->wrist_to_target_guess), inss(d, pr->image_observations), inv(d, pr->wrist_poses); }, w);
    }
    case 5: {
      auto pr = std::make_shared<rct::PnPProblem>();
      Isometry3d ct = L.look();
      pr->intr = L.cam.intr();
      pr->correspondences = L.see(ct);
      pr->camera_to_target_guess = L.guess(ct);
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.camera_to_target), put(o, x.covariance);
      }, [pr](Digest& d) { in(d, pr->intr), in(d, pr->camera_to_target_guess), ins(d, pr->correspondences); }, w);
    }
    case 6: {
      auto pr = std::make_shared<rct::PnPProblem3D>();
      Isometry3d ct = L.look();
      pr->correspondences = L.touch(ct);
      pr->camera_to_target_guess = L.guess(ct);
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.camera_to_target), put(o, x.covariance);
      }, [pr](Digest& d) { in(d, pr->camera_to_target_guess), ins(d, pr->correspondences); }, w);
    }
    case 7: {
      auto pr = std::make_shared<rct::MultiCameraPnPProblem>();
      Isometry3d b2c = randPose(r, 3, 1), ct = L.look();
      for (int c = 0; c < 2; ++c)
      {
        Isometry3d d = c ? makePose(rotVec(unit(r) * 0.05), unit(r) * 0.02) : Isometry3d(Isometry3d::Identity());
        pr->intr.push_back(L.cam.intr());
        pr->base_to_camera.push_back(b2c * d);
        pr->image_observations.push_back(L.see(d.inverse() * ct));
      }
      pr->base_to_target_guess = b2c * L.guess(ct);
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.base_to_target);
      }, [pr](Digest& d) { inv(d, pr->intr), inv(d, pr->base_to_camera), in(d, pr->base_to_target_guess); for (auto& s : pr->image_observations) ins(d, s); }, w);
    }
    case 8: {
      auto pr = std::make_shared<rct::CircleFitProblem>();
      double R = r.uni(1, 20), x = r.uni(-30, 30), y = r.uni(-30, 30);
      int n = variant == 1 ? 0 : variant == 3 ? 2 : 14;
      for (int i = 0; i < n; ++i)
      {
        double a = i * 0.5 + r.uni(0, 0.2);
        pr->observations.push_back(Vector2d(x + R * std::cos(a), y + R * std::sin(a)) + 0.01 * R * Vector2d(r.gauss(), r.gauss()));
      }
      if (variant == 2)
        pr->observations[3].x() = std::nan("");
      pr->x_center_initial = x + 0.1 * R, pr->y_center_initial = y - 0.1 * R, pr->radius_initial = R * 1.1;
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.x_center), put(o, x.y_center), put(o, x.radius), put(o, x.covariance);
      }, [pr](Digest& d) { d.d(pr->x_center_initial).d(pr->y_center_initial).d(pr->radius_initial); for (auto& p : pr->observations) inm(d, p); }, w);
    }
    case 9: {
      auto pr = std::make_shared<rct::IntrinsicEstimationProblem>();
      for (int k = 0; k < 5; ++k)
        L.cam.dist[k] = r.uni(-0.02, 0.02) * (k == 2 || k == 3 ? 0.1 : 1);
      // more points for a well determined problem
      L.tgt.pts.clear();
      for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 6; ++j)
          L.tgt.pts.push_back(Vector3d(j * 0.04, i * 0.04, 0));
      L.noise = 0.05;
      pr->use_extrinsic_guesses = !r.chance(0.3);
      for (int i = 0; i < 5; ++i)
      {
        Isometry3d ct = L.look(0.8);
        pr->image_observations.push_back(L.see(ct));
        pr->extrinsic_guesses.push_back(L.guess(ct));
      }
      pr->intrinsics_guess = L.cam.intr();
      pr->intrinsics_guess.fx() *= 1.02, pr->intrinsics_guess.fy() *= 0.99, pr->intrinsics_guess.cx() += 5;
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.intrinsics.fx()), put(o, x.intrinsics.cy()), put(o, x.distortions[0]);
        for (auto& p : x.target_transforms)
          put(o, p);
        for (auto& s : x.covariance.standard_deviations)
          o.str.push_back(s.names.first);
      }, [pr](Digest& d) { in(d, pr->intrinsics_guess), inv(d, pr->extrinsic_guesses); for (auto& s : pr->image_observations) ins(d, s); }, w);
    }
    case 10:
    case 11: {
      auto s = std::make_shared<rct::Correspondence2D3D::Set>(L.see(L.look()));
      auto s3 = std::make_shared<rct::Correspondence3D3D::Set>(L.touch(L.look()));
      unsigned sd = (unsigned)r.range(0, 100000);
      bool d3 = r.chance(0.4);
      int rows = variant == 3 ? 4 : 3, smp = variant == 3 ? 3 : r.range(4, 12);
      return mk([=](Out& o) {
        std::unique_ptr<rct::CorrespondenceSampler> sp;
        if (kind == 10)
          sp.reset(new rct::GridCorrespondenceSampler(rows, 4, 1));
        else
          sp.reset(new rct::RandomCorrespondenceSampler(12, smp, sd));
        for (auto i : sp->getSampleCorrespondenceIndices())
          put(o, (double)i);
        put(o, Eigen::MatrixXd(d3 ? rct::calculateHomographyError(*s3, *sp) : rct::calculateHomographyError(*s, *sp)));
      }, [=](Digest& d) { ins(d, *s), ins(d, *s3); }, w);
    }
    case 12: {
      auto obs = std::make_shared<rct::Observation2D3D::Set>();
      Isometry3d cm = mountPose(r, 0.2), tm = mountPose(r, 0.2);
      L.tgt.pts.clear();
      for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 5; ++j)
          L.tgt.pts.push_back(Vector3d(j * 0.04, i * 0.04, 0));
      for (int i = 0; i < 3; ++i)
      {
        Isometry3d ct = L.look(0.6);
        rct::Observation2D3D o(tm * ct.inverse() * cm.inverse(), Isometry3d::Identity());
        o.correspondence_set = L.see(ct);
        obs->push_back(o);
      }
      auto k = L.cam.intr();
      return mk([=](Out& o) {
        auto x = rct::measureIntrinsicCalibrationAccuracy(*obs, k, cm, tm, Isometry3d::Identity(), 5.0);
        put(o, x.pos_error.first), put(o, x.pos_error.second), put(o, x.ang_error.first), put(o, x.ang_error.second);
      }, [=](Digest& d) { ino(d, *obs); }, w);
    }
    case 13: {
      Isometry3d ct = L.look(0.6);
      L.tgt.pts.clear();
      for (int i = 0; i < 4; ++i)
        for (int j = 0; j < 5; ++j)
          L.tgt.pts.push_back(Vector3d(j * 0.04, i * 0.04, 0));
      auto s = std::make_shared<rct::Correspondence2D3D::Set>(L.see(ct));
      auto k = L.cam.intr();
      Isometry3d g = L.guess(ct);
      double th = r.chance(0.2) ? 1e-9 : 5.0;
      return mk([=](Out& o) {
        auto x = rct::measureVirtualTargetDiff(*s, k, g, th);
        put(o, x.t1_to_t2), put(o, x.positional_error), put(o, x.angular_error);
      }, [=](Digest& d) { ins(d, *s); }, w);
    }
    case 14:
    case 15: {
      auto a = std::make_shared<std::vector<rct::PnPProblem>>();
      auto b = std::make_shared<std::vector<rct::PnPProblem3D>>();
      Isometry3d ct = L.look();
      for (int i = 0; i < 3; ++i)
      {
        Isometry3d g = L.guess(ct);
        if (kind == 14)
        {
          rct::PnPProblem p;
          p.intr = L.cam.intr();
          p.correspondences = L.see(ct);
          p.camera_to_target_guess = g;
          a->push_back(p);
        }
        else
        {
          rct::PnPProblem3D p;
          p.correspondences = L.touch(ct);
          p.camera_to_target_guess = g;
          b->push_back(p);
        }
      }
      return mk([=](Out& o) {
        auto x = kind == 14 ? rct::qualifyNoise2D(*a) : rct::qualifyNoise3D(*b);
        put(o, Eigen::MatrixXd(x.p_stat.mean)), put(o, Eigen::MatrixXd(x.p_stat.stdev)), put(o, x.q_stat.stdev);
        put(o, Eigen::MatrixXd(x.q_stat.mean.toRotationMatrix()));
      }, [=](Digest& d) { for (auto& p : *a) ins(d, p.correspondences), in(d, p.camera_to_target_guess); for (auto& p : *b) ins(d, p.correspondences), in(d, p.camera_to_target_guess); }, w);
    }
    case 16: {
      auto obs = std::make_shared<rct::Observation2D3D::Set>();
      Isometry3d cm = mountPose(r, 0.2), tm = mountPose(r, 0.2);
      for (int i = 0; i < 2; ++i)
      {
        Isometry3d ct = L.look(0.6);
        rct::Observation2D3D o(tm * ct.inverse() * cm.inverse(), Isometry3d::Identity());
        o.correspondence_set = L.see(ct);
        obs->push_back(o);
      }
      auto k = L.cam.intr();
      return mk([=](Out& o) {
        put(o, Eigen::MatrixXd(rct::compute3DProjectionError(*obs, k, cm, tm)));
        if (!obs->empty())
          put(o, Eigen::MatrixXd(rct::compute3DProjectionError((*obs)[0], k, cm, tm)));
      }, [=](Digest& d) { ino(d, *obs); }, w);
    }
    case 17: {
      int n = variant ? 7 : r.range(1, 6);
      Eigen::VectorXd q(n);
      for (int i = 0; i < n; ++i)
        q[i] = r.uni(-3, 3);
      Eigen::MatrixX4d off(6, 4);
      for (int i = 0; i < 24; ++i)
        off(i) = r.uni(-0.1, 0.1);
      return mk([=](Out& o) {
        put(o, rct_sim_adapt::fk(*w->robot, q)), put(o, rct_sim_adapt::fk(*w->robot, q, off));
        put(o, w->robot->getRelativeTransform(n - 1, q[n - 1]));
        for (auto& l : w->robot->getParamLabels())
          for (auto& s : l)
            o.str.push_back(s);
        rct::DHChain c(*w->robot, off);
        put(o, Eigen::MatrixXd(c.getDHTable()));
        put(o, rct_sim_adapt::fk(c, q));
      }, [=](Digest& d) { in(d, *w->robot); }, w);
    }
    case 18: {
      int n = r.range(1, 6), sd = r.range(1, 100000), k = r.range(1, 5);
      bool cp = r.chance(0.5);
      auto lk = std::make_shared<std::vector<rct::DHTransform>>(links(r, n, sd));
      return mk([=](Out& o) {
        rct::DHChain c(*lk);
        rct::DHChain d2 = cp ? rct::DHChain(*w->robot) : c;
        for (int i = 0; i < k; ++i)
        {
          put(o, Eigen::MatrixXd(c.createUniformlyRandomPose()));
          put(o, Eigen::MatrixXd(d2.createUniformlyRandomPose()));
        }
        rct::DHTransform j((*lk)[0]);
        for (int i = 0; i < k; ++i)
          put(o, j.createRandomJointValue());
      }, [=](Digest& d) { in(d, *w->robot); }, w);
    }
    case 19:
    case 20: {
      rct::DHChain chain(*w->small);
      rct::DHChain none(std::vector<rct::DHTransform>{}, Isometry3d::Identity());
      Isometry3d cm = randPose(r, 0.5, 0.2), base = randPose(r, 2, 1);
      auto maskAll = [](auto& pr) {
        for (int b = 4; b < 8; ++b)
          pr.mask[b] = { 0, 1, 2 };
      };
      if (kind == 19)
      {
        auto pr = std::make_shared<rct::KinematicCalibrationProblemPose6D>(chain, none);
        for (int i = 0; i < (variant == 1 ? 0 : variant == 3 ? 1 : 8); ++i)
        {
          rct::KinematicMeasurement m;
          m.camera_chain_joints = Eigen::Vector2d(r.uni(-2, 2), r.uni(-2, 2));
          m.target_chain_joints = Eigen::VectorXd(0);
          m.camera_to_target = (w->small->getFK<double>(m.camera_chain_joints) * cm).inverse() * base * randPose(r, 0.002, 0.001);
          if (variant == 2 && i == 3)
            m.camera_to_target.translation().x() = std::nan("");
          pr->observations.push_back(m);
        }
        pr->camera_mount_to_camera_guess = cm * randPose(r, 0.02, 0.01);
        pr->camera_base_to_target_base_guess = base;
        maskAll(*pr);
        return mk([pr](Out& o) {
          auto x = rct::optimize(*pr, 1.0);
          put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.camera_mount_to_camera), put(o, x.camera_base_to_target_base), put(o, Eigen::MatrixXd(x.camera_chain_dh_offsets));
          for (auto& s : x.covariance.standard_deviations)
            o.str.push_back(s.names.first);
        }, [pr](Digest& d) { in(d, pr->camera_chain), in(d, pr->camera_mount_to_camera_guess), in(d, pr->camera_base_to_target_base_guess); for (auto& m : pr->observations) in(d, m.camera_to_target); }, w);
      }
      auto pr = std::make_shared<rct::KinematicCalibrationProblem2D3D>(chain, none);
      pr->intr = L.cam.intr();
      for (int i = 0; i < (variant == 1 ? 0 : 5); ++i)
      {
        rct::KinObservation2D3D ob;
        ob.camera_chain_joints = Eigen::Vector2d(r.uni(-2, 2), r.uni(-2, 2));
        ob.target_chain_joints = Eigen::VectorXd(0);
        pr->observations.push_back(ob);
      }
      Isometry3d ct = L.look(0.3);
      Isometry3d b = chain.getFK<double>(Eigen::VectorXd(Eigen::Vector2d(0.1, 0.2))) * cm * ct;
      for (auto& ob : pr->observations)
      {
        ob.camera_chain_joints = Eigen::Vector2d(0.1 + r.uni(-0.1, 0.1), 0.2 + r.uni(-0.1, 0.1));
        ob.correspondence_set = L.see((chain.getFK<double>(ob.camera_chain_joints) * cm).inverse() * b);
      }
      pr->camera_mount_to_camera_guess = cm * randPose(r, 0.01, 0.005);
      pr->camera_base_to_target_base_guess = b;
      maskAll(*pr);
      return mk([pr](Out& o) {
        auto x = rct::optimize(*pr);
        put(o, x.converged), put(o, x.initial_cost_per_obs), put(o, x.final_cost_per_obs), put(o, x.camera_mount_to_camera), put(o, x.camera_base_to_target_base), put(o, Eigen::MatrixXd(x.camera_chain_dh_offsets));
        for (auto& s : x.covariance.standard_deviations)
          o.str.push_back(s.names.first);
      }, [pr](Digest& d) { in(d, pr->camera_chain), in(d, pr->camera_mount_to_camera_guess), in(d, pr->camera_base_to_target_base_guess); for (auto& m : pr->observations) ins(d, m.correspondence_set); }, w);
    }
    case 21: {
      auto k = L.cam.intr();
      Isometry3d p = randPose(r, 3, 2);
      auto pr = std::make_shared<rct::ExtrinsicHandEyeProblem2D3D>();
      pr->intr = k;
      pr->camera_mount_to_camera_guess = p, pr->target_mount_to_target_guess = randPose(r, 3, 2);
      for (int i = 0; i < 2; ++i)
      {
        rct::Observation2D3D o(randPose(r, 3, 2), randPose(r, 3, 2));
        o.correspondence_set = L.see(L.look());
        pr->observations.push_back(o);
      }
      std::string bad = "{fx: 1, fy: x}";
      int v = variant;
      return mk([=](Out& o) {
        std::string a = rct_sim_adapt::write(k), b = rct_sim_adapt::write(p), c = rct_sim_adapt::write(*pr);
        o.str = { a, b, c };
        auto k2 = rct_sim_adapt::readIntrinsics(v == 1 ? bad : a);
        for (double x : k2.values)
          put(o, x);
        put(o, rct_sim_adapt::readPose(v == 2 ? a : b));
        auto q = rct_sim_adapt::readProblem(v == 3 ? b : c);
        put(o, q.camera_mount_to_camera_guess);
        for (auto& ob : q.observations)
          put(o, ob.correspondence_set);
      }, [=](Digest& d) { in(d, pr->intr), ino(d, pr->observations), in(d, p); }, w);
    }
    case 22: {
      img::TargetFeatures c, a, h;
      for (unsigned i = 0; i < 20; ++i)
        c[i].push_back(Eigen::Vector2d(r.uni(0, 500), r.uni(0, 500)));
      for (unsigned i = 0; i < 6; ++i)
        if (r.chance(0.7))
          for (int q = 0; q < 4; ++q)
            a[i].push_back(Eigen::Vector2d(r.uni(0, 500), r.uni(0, 500)));
      for (unsigned i = 0; i < 9; ++i)
        if (r.chance(0.7))
          h[i].push_back(Eigen::Vector2d(r.uni(0, 500), r.uni(0, 500)));
      if (variant == 1)
        a[40] = { Eigen::Vector2d(1, 2) };
      if (variant == 2)
        h[1000] = { Eigen::Vector2d(1, 2) };
      return mk([=](Out& o) {
        put(o, w->circles->createCorrespondences(c)), put(o, w->aruco->createCorrespondences(a)), put(o, w->charuco->createCorrespondences(h));
        for (auto& p : w->circles->createPoints())
          put(o, Eigen::MatrixXd(p));
        img::ArucoGridTarget t(2, 3, 0.04f, 0.015f, cv::aruco::DICT_4X4_50);
        img::CharucoGridTarget u(4, 4, 0.04f, 0.03f, cv::aruco::DICT_4X4_50);
        put(o, t == *w->aruco), put(o, u == *w->charuco), put(o, (double)t.points.size()), put(o, (double)u.points.size());
      }, [](Digest&) {}, w);
    }
    case 23:
    case 24:
    case 25: {
      const cv::Mat& base = kind == 23 ? w->imCircles : kind == 24 ? w->imAruco : w->imCharuco;
      cv::Mat im = base;  // shares the pixels
      if (variant == 1)
        im = cv::Mat();
      else if (variant == 2)
        im = cv::Mat(60, 60, CV_8UC1, cv::Scalar(255));
      else if (variant == 3)
        im = base(cv::Rect(0, 0, base.cols / 3, base.rows / 3)).clone();
      return mk([=](Out& o) {
        const img::TargetFinder* f = kind == 23 ? (const img::TargetFinder*)w->fCircles.get() : kind == 24 ? (const img::TargetFinder*)w->fAruco.get() : w->fCharuco.get();
        auto t = f->findTargetFeatures(im);
        put(o, t);
        put(o, f->target().createCorrespondences(t));
      }, [=](Digest& d) { for (int y = 0; y < im.rows; ++y) d.bytes(im.ptr(y), im.cols * im.elemSize()); }, w);
    }
    case 26: {
      cv::Mat im;
      im = (r.chance(0.5) ? w->imAruco : w->imCharuco).clone();
      int which = r.range(0, 2);
      img::TargetFeatures f;
      int nf = which == 0 ? 20 : which == 1 ? 6 : 9;
      for (int i = 0; i < nf; ++i)
        for (int q = 0; q < (which == 1 ? 4 : 1); ++q)
          f[i].push_back(Eigen::Vector2d(r.uni(5, 190), r.uni(5, 150)));
      return mk([=](Out& o) {
        cv::Mat c = im.clone();
        const img::TargetFinder* t = which == 0 ? (const img::TargetFinder*)w->fCircles.get() : which == 1 ? (const img::TargetFinder*)w->fAruco.get() : w->fCharuco.get();
        cv::Mat out = t->drawTargetFeatures(c, f);
        Digest d;
        for (int y = 0; y < out.rows; ++y)
          d.bytes(out.ptr(y), out.cols * out.elemSize());
        o.str.push_back(std::to_string(d.h));
      }, [=](Digest& d) { for (int y = 0; y < im.rows; ++y) d.bytes(im.ptr(y), im.cols * im.elemSize()); }, w);
    }
    case 27: {
      std::vector<Eigen::Quaterniond> q;
      int n = variant == 1 ? 0 : variant == 3 ? 1 : 6;
      Eigen::Quaterniond c(rotVec(unit(r) * r.uni(0, 3)));
      for (int i = 0; i < n; ++i)
        q.push_back(c * Eigen::Quaterniond(rotVec(unit(r) * r.uni(0, 0.3))));
      return mk([=](Out& o) {
        auto s = rct::computeQuaternionStats(q);
        put(o, Eigen::MatrixXd(s.mean.toRotationMatrix())), put(o, s.stdev);
        put(o, Eigen::MatrixXd(rct::computeQuaternionMean(q).toRotationMatrix()));
      }, [=](Digest& d) { for (auto& x : q) inm(d, x.coeffs()); }, w);
    }
    case 28: {
      int n = r.range(2, 6);
      MatrixXd A(n + 2, n);
      for (int i = 0; i < A.size(); ++i)
        A(i) = r.gauss();
      MatrixXd C = A.transpose() * A;
      if (variant == 1)
        C.conservativeResize(n, n - 1);
      std::vector<std::string> nm;
      for (int i = 0; i < n; ++i)
        nm.push_back("p" + std::to_string(i));
      return mk([=](Out& o) {
        put(o, rct::computeCorrelationsFromCovariance(C));
        auto c = rct::computeCovarianceResults(C, nm);
        put(o, c);
        o.str.push_back(rct_sim_adapt::text(c, 0.3));
      }, [=](Digest& d) { inm(d, C); }, w);
    }
    default: {
      auto k = L.cam.intr();
      Isometry3d ct = L.look();
      auto pts = L.tgt.pts;
      return mk([=](Out& o) {
        for (auto& u : rct_sim_adapt::project(k, ct, pts))
          put(o, u.x()), put(o, u.y());
        Eigen::MatrixX2d px(pts.size(), 2);
        Eigen::Matrix3d K;
        K << k.fx(), 0, k.cx(), 0, k.fy(), k.cy(), 0, 0, 1;
        for (std::size_t i = 0; i < pts.size(); ++i)
          px.row(i) = rct_sim_adapt::project(k, ct, pts)[i].transpose();
        put(o, Eigen::MatrixXd(rct::project3D(px, ct, K)));
      }, [](Digest&) {}, w);
    }
  }
}

static bool near(double a, double b, double tol)
{
  if (std::isnan(a) || std::isnan(b))
    return std::isnan(a) && std::isnan(b);
  if (a == b)
    return true;
  if (tol == 0)
    return false;
  return std::abs(a - b) <= tol * std::max({ 1e-3, std::abs(a), std::abs(b) });
}
std::string diff(const Out& w, const Out& g, double tol)
{
  if (g.modified)
    return "the input was modified";
  if (w.threw != g.threw)
    return std::string("alone: ") + (w.threw ? "error '" + w.err + "'" : "a result") + ", now: " + (g.threw ? "error '" + g.err + "'" : "a result");
  if (w.threw)
    return w.err == g.err ? "" : "alone: error '" + w.err + "', now: error '" + g.err + "'";
  if (w.str != g.str)
    return "other names or texts";
  if (w.num.size() != g.num.size())
    return sim::fmt("%zu values alone, %zu now", w.num.size(), g.num.size());
  for (std::size_t i = 0; i < w.num.size(); ++i)
    if (!near(w.num[i], g.num[i], tol))
      return sim::fmt("value %zu of %zu: %.17g alone, %.17g now", i, w.num.size(), w.num[i], g.num[i]);
  return "";
}
static void wr(std::string& b, const void* p, std::size_t n) { b.append((const char*)p, n); }
Out pristine(const std::function<Out()>& f, bool& crashed, std::string& how)
{
  crashed = false;
  int fd[2];
  if (pipe(fd))
    throw std::runtime_error("pipe");
  pid_t pid = fork();
  if (pid == 0)
  {
    close(fd[0]);
    Out o = f();
    std::string b;
    char h[2] = { o.threw, o.modified };
    wr(b, h, 2);
    auto s = [&](const std::string& x) {
      uint64_t n = x.size();
      wr(b, &n, 8);
      wr(b, x.data(), n);
    };
    s(o.err);
    uint64_t n = o.num.size();
    wr(b, &n, 8);
    wr(b, o.num.data(), n * 8);
    n = o.str.size();
    wr(b, &n, 8);
    for (auto& x : o.str)
      s(x);
    std::size_t at = 0;
    while (at < b.size())
    {
      ssize_t k = write(fd[1], b.data() + at, b.size() - at);
      if (k <= 0)
        _exit(3);
      at += (std::size_t)k;
    }
    _exit(0);
  }
  close(fd[1]);
  std::string b;
  char buf[65536];
  for (;;)
  {
    ssize_t k = read(fd[0], buf, sizeof buf);
    if (k <= 0)
      break;
    b.append(buf, (std::size_t)k);
  }
  close(fd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  Out o;
  if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
  {
    crashed = true;
    how = WIFSIGNALED(st) ? std::string("signal ") + strsignal(WTERMSIG(st)) : sim::fmt("exit %d", WEXITSTATUS(st));
    return o;
  }
  std::size_t at = 0;
  auto rd = [&](void* p, std::size_t n) {
    memcpy(p, b.data() + at, n);
    at += n;
  };
  char h[2];
  rd(h, 2);
  o.threw = h[0], o.modified = h[1];
  auto rs = [&]() {
    uint64_t n;
    rd(&n, 8);
    std::string x = b.substr(at, n);
    at += n;
    return x;
  };
  o.err = rs();
  uint64_t n;
  rd(&n, 8);
  o.num.resize(n);
  rd(o.num.data(), n * 8);
  rd(&n, 8);
  for (uint64_t i = 0; i < n; ++i)
    o.str.push_back(rs());
  return o;
}
}  // namespace jobs
