// Entry points for the header-only parts of the library, compiled with the code under test (instrumented).
#pragma once
#include <Eigen/Dense>
#include <string>
#include <vector>
#include <rct_optimizations/dh_chain.h>
#include <rct_optimizations/types.h>
#include <rct_optimizations/extrinsic_hand_eye.h>
#include <rct_optimizations/covariance_types.h>
namespace rct_sim_adapt
{
Eigen::Isometry3d fk(const rct_optimizations::DHChain& c, const Eigen::VectorXd& q);
Eigen::Isometry3d fk(const rct_optimizations::DHChain& c, const Eigen::VectorXd& q, const Eigen::MatrixX4d& off);
std::string write(const rct_optimizations::CameraIntrinsics& i);
std::string write(const Eigen::Isometry3d& i);
std::string write(const rct_optimizations::ExtrinsicHandEyeProblem2D3D& p);
rct_optimizations::CameraIntrinsics readIntrinsics(const std::string& s);
Eigen::Isometry3d readPose(const std::string& s);
rct_optimizations::ExtrinsicHandEyeProblem2D3D readProblem(const std::string& s);
rct_optimizations::DHChain readChain(const std::string& s);
std::string text(const rct_optimizations::CovarianceResult& c, double threshold);
std::vector<Eigen::Vector2d> project(const rct_optimizations::CameraIntrinsics& i, const Eigen::Isometry3d& p, const std::vector<Eigen::Vector3d>& pts);
std::vector<int> mask(const Eigen::Array<bool, Eigen::Dynamic, 4>& m);
}
