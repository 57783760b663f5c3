#pragma once
#include <cstdint>
namespace ros
{
struct Duration
{
  double s = 0;
  Duration(double v = 0) : s(v) {}
  double toSec() const { return s; }
};
struct Time
{
  double s = 0;
  Time(double v = 0) : s(v) {}
  double toSec() const { return s; }
  bool isZero() const { return s == 0; }
  static Time now();
  Time operator+(const Duration& d) const { return Time(s + d.s); }
  Time operator-(const Duration& d) const { return Time(s - d.s); }
  Duration operator-(const Time& t) const { return Duration(s - t.s); }
  bool operator<(const Time& t) const { return s < t.s; }
  bool operator>(const Time& t) const { return s > t.s; }
  bool operator<=(const Time& t) const { return s <= t.s; }
  bool operator>=(const Time& t) const { return s >= t.s; }
  bool operator==(const Time& t) const { return s == t.s; }
};
}  // namespace ros
