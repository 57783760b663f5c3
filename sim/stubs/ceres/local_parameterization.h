// The library's kinematic calibration is written against the interface Ceres had before 2.2; the installed Ceres calls
// the same thing a manifold. Names only: every algorithm is the installed Ceres.
#pragma once
#include <ceres/manifold.h>
#include <ceres/problem.h>
namespace ceres
{
using LocalParameterization = Manifold;
using SubsetParameterization = SubsetManifold;
}  // namespace ceres
#define SetParameterization SetManifold
