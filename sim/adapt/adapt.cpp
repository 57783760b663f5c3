#include "adapt.h"
#include <sstream>
#include <yaml-cpp/yaml.h>
#include <rct_optimizations/serialization/problems.h>
#include <rct_optimizations/ceres_math_utilities.h>
namespace rct_sim_adapt
{
using namespace rct_optimizations;
Eigen::Isometry3d fk(const DHChain& c, const Eigen::VectorXd& q) { return c.getFK<double>(q); }
Eigen::Isometry3d fk(const DHChain& c, const Eigen::VectorXd& q, const Eigen::MatrixX4d& off) { return c.getFK<double>(q, off); }
template <class T>
static std::string w(const T& t)
{
  YAML::Node n(t);
  std::stringstream s;
  s.precision(17);
  s << n;
  return s.str();
}
std::string write(const CameraIntrinsics& i) { return w(i); }
std::string write(const Eigen::Isometry3d& i) { return w(i); }
std::string write(const ExtrinsicHandEyeProblem2D3D& p) { return w(p); }
CameraIntrinsics readIntrinsics(const std::string& s) { return YAML::Load(s).as<CameraIntrinsics>(); }
Eigen::Isometry3d readPose(const std::string& s) { return YAML::Load(s).as<Eigen::Isometry3d>(); }
ExtrinsicHandEyeProblem2D3D readProblem(const std::string& s) { return YAML::Load(s).as<ExtrinsicHandEyeProblem2D3D>(); }
DHChain readChain(const std::string& s) { return YAML::Load(s).as<DHChain>(); }
std::string text(const CovarianceResult& c, double th) { return c.toString() + c.printCorrelationCoeffAboveThreshold(th); }
std::vector<Eigen::Vector2d> project(const CameraIntrinsics& i, const Eigen::Isometry3d& p, const std::vector<Eigen::Vector3d>& pts)
{
  std::vector<Eigen::Vector2d> o;
  for (auto& x : pts)
  {
    Eigen::Vector3d y = p * x;
    double uv[2];
    projectPoint(i, y.data(), uv);
    o.push_back(Eigen::Vector2d(uv[0], uv[1]));
  }
  return o;
}
std::vector<int> mask(const Eigen::Array<bool, Eigen::Dynamic, 4>& m)
{
  std::vector<int> o;
  for (int c = 0; c < m.cols(); ++c)
    for (int r = 0; r < m.rows(); ++r)
      if (m(r, c))
        o.push_back(c * (int)m.rows() + r);
  return o;
}
}
