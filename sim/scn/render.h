// Renders camera images of printed targets from first principles: pattern geometry, pin-hole camera, supersampling.
#pragma once
#include "world.h"
#include <opencv2/core.hpp>
#include <opencv2/aruco.hpp>
#include <memory>

namespace render
{
using namespace world;

// brightness (0 dark .. 1 white) of the printed plane at target coordinates (x, y); outside the sheet: < 0
struct Pattern
{
  double x0, y0, x1, y1;  // printed sheet
  bool down = false;      // y points down on the sheet (and z into it), as on the boards of the image library
  virtual ~Pattern() {}
  virtual double ink(double x, double y) const = 0;
  double at(double x, double y) const { return x < x0 || y < y0 || x > x1 || y > y1 ? -1 : ink(x, y); }
};
// rows x cols discs; the disc at the origin is larger; disc (i, j) at (j, rows - 1 - i) * spacing is feature i * cols + j
struct Circles : Pattern
{
  int rows, cols;
  double sp, rad, big;
  Circles(int r, int c, double s, double rf = 0.25, double bf = 0.40) : rows(r), cols(c), sp(s), rad(rf * s), big(bf * s)
  {
    x0 = y0 = -0.9 * s;
    x1 = (c - 1) * s + 0.9 * s;
    y1 = (r - 1) * s + 0.9 * s;
  }
  double ink(double x, double y) const override
  {
    int j = (int)std::lround(x / sp), i = (int)std::lround(y / sp);
    if (j < 0 || i < 0 || j >= cols || i >= rows)
      return 1;
    double dx = x - j * sp, dy = y - i * sp, r = (i == 0 && j == 0) ? big : rad;
    return dx * dx + dy * dy < r * r ? 0.05 : 1;
  }
  Vector3d feature(int k) const { return Vector3d((k % cols) * sp, (rows - 1 - k / cols) * sp, 0); }
};
// a square marker: corner 0 is the top left one of its picture, the others clockwise as seen
struct Marker
{
  int id;
  double x, y, m;  // top left corner (y down), size
  cv::Mat bits;    // (n+2)^2, 0 or 255, with border
};
inline cv::Mat markerBits(int dict, int id)
{
  auto d = cv::aruco::getPredefinedDictionary(dict);
  int n = d->markerSize + 2;
  cv::Mat im;
  cv::aruco::drawMarker(d, id, n, im, 1);
  return im;
}
inline double markerInk(const Marker& k, double x, double y)
{
  int n = k.bits.cols;
  int c = (int)std::floor((x - k.x) / k.m * n), r = (int)std::floor((y - k.y) / k.m * n);
  if (c < 0 || r < 0 || c >= n || r >= n)
    return -1;
  return k.bits.at<uchar>(r, c) ? 1 : 0.05;
}
struct Aruco : Pattern
{
  std::vector<Marker> mk;
  Aruco(int rows, int cols, double m, double gap, int dict, int first = 0, const std::vector<int>& ids = {})
  {
    auto id = [&](int k) { return ids.empty() ? first + k : ids[k]; };
    double H = rows * m + (rows - 1) * gap;
    down = true;
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j)
        mk.push_back({ id(i * cols + j), j * (m + gap), i * (m + gap), m, markerBits(dict, id(i * cols + j)) });
    double e = std::max(gap, 0.25 * m);
    x0 = y0 = -e;
    x1 = cols * m + (cols - 1) * gap + e;
    y1 = H + e;
  }
  double ink(double x, double y) const override
  {
    for (auto& k : mk)
      if (x >= k.x && x < k.x + k.m && y >= k.y && y < k.y + k.m)
      {
        double v = markerInk(k, x, y);
        return v < 0 ? 1 : v;
      }
    return 1;
  }
  Vector3d corner(int index, int c) const
  {
    const Marker& k = mk[index];
    return Vector3d(k.x + (c == 1 || c == 2 ? k.m : 0), k.y + (c >= 2 ? k.m : 0), 0);
  }
};
struct Charuco : Pattern
{
  int rows, cols;
  double L, m;
  std::vector<Marker> mk;
  std::vector<int> at_;
  Charuco(int r, int c, double L_, double m_, int dict, const std::vector<int>& ids = {}) : rows(r), cols(c), L(L_), m(m_)
  {
    int id = 0;
    at_.assign(rows * cols, -1);
    double o = (L - m) / 2;
    down = true;
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j)
        if (i % 2 != j % 2)
        {
          at_[i * cols + j] = (int)mk.size();
          mk.push_back({ ids.empty() ? id : ids[id], j * L + o, i * L + o, m, markerBits(dict, ids.empty() ? id : ids[id]) });
          ++id;
        }
    x0 = y0 = -0.5 * L;
    x1 = cols * L + 0.5 * L;
    y1 = rows * L + 0.5 * L;
  }
  double ink(double x, double y) const override
  {
    int j = (int)std::floor(x / L), i = (int)std::floor(y / L);
    if (i < 0 || j < 0 || i >= rows || j >= cols)
      return 1;
    int k = at_[i * cols + j];
    if (k < 0)
      return 0.05;
    double v = markerInk(mk[k], x, y);
    return v < 0 ? 1 : v;
  }
  Vector3d feature(int id) const { return Vector3d((id % (cols - 1) + 1) * L, (id / (cols - 1) + 1) * L, 0); }
  int features() const { return (rows - 1) * (cols - 1); }
};

// pose camera -> target for a target facing the camera: x right, y up (or down) in the picture, z towards the camera (or away)
inline Isometry3d facing(Rng& r, const Camera& c, const Pattern& t, double tilt, double roll, double zoomLo = 1.05, double zoomHi = 1.6, double dev = 0.05)
{
  Vector3d ctr((t.x0 + t.x1) / 2, (t.y0 + t.y1) / 2, 0);
  double R = std::hypot(t.x1 - t.x0, t.y1 - t.y0) / 2;
  double half = std::min({ c.cx / c.fx, (c.w - c.cx) / c.fx, c.cy / c.fy, (c.h - c.cy) / c.fy });
  double d = R / half * r.uni(zoomLo, zoomHi) + R * std::sin(tilt);
  double dir = r.uni(-M_PI, M_PI);
  Matrix3d F = Vector3d(1, t.down ? 1 : -1, t.down ? 1 : -1).asDiagonal();
  Matrix3d Rt = rotVec(Vector3d(std::cos(dir), std::sin(dir), 0) * tilt) * rotVec(Vector3d(0, 0, roll)) * F;
  Vector3d place(r.uni(-dev, dev) * half * d, r.uni(-dev, dev) * half * d, d);
  return makePose(Rt, place - Rt * ctr);
}
struct Layer
{
  const Pattern* pat;
  Isometry3d camToTarget;
};
struct Look
{
  double dark = 20, white = 220, ground = 120, gradient = 0;  // grey levels
  int ss = 3;
};
inline cv::Mat draw(const Camera& c, const std::vector<Layer>& ls, const Look& look = Look())
{
  int W = (int)c.w, H = (int)c.h;
  cv::Mat im(H, W, CV_8UC1);
  std::vector<Matrix3d> inv;
  for (auto& l : ls)
  {
    Matrix3d h;
    h.col(0) = l.camToTarget.linear().col(0);
    h.col(1) = l.camToTarget.linear().col(1);
    h.col(2) = l.camToTarget.translation();
    inv.push_back(h.inverse());
  }
  for (int v = 0; v < H; ++v)
    for (int u = 0; u < W; ++u)
    {
      double sum = 0;
      for (int a = 0; a < look.ss; ++a)
        for (int b = 0; b < look.ss; ++b)
        {
          double x = (u + (a + 0.5) / look.ss - 0.5 - c.cx) / c.fx, y = (v + (b + 0.5) / look.ss - 0.5 - c.cy) / c.fy;
          double g = look.ground;
          for (std::size_t k = 0; k < ls.size(); ++k)
          {
            Vector3d q = inv[k] * Vector3d(x, y, 1);
            double w = q.z();
            if (w <= 0)
              continue;
            double i = ls[k].pat->at(q.x() / w, q.y() / w);
            if (i >= 0)
            {
              g = look.dark + (look.white - look.dark) * i;
              break;
            }
          }
          sum += g;
        }
      double g = sum / (look.ss * look.ss) * (1 + look.gradient * (double(u) / W - 0.5));
      im.at<uchar>(v, u) = (uchar)std::min(255.0, std::max(0.0, g + 0.5));
    }
  return im;
}
}  // namespace render
