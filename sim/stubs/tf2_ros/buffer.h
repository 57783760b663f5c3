// Stand-in for the transform buffer: what it knows comes from the simulated middleware; waiting spends simulated time
#pragma once
#include <geometry_msgs/TransformStamped.h>
#include <ros/time.h>
#include <tf2/exceptions.h>
#include "../rct_sim_ros.h"
namespace tf2_ros
{
class Buffer
{
public:
  Buffer(ros::Duration = ros::Duration(10)) {}
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout = ros::Duration(0)) const
  {
    auto& s = rct_sim_ros::state();
    double p[8] = { 0 };
    int r = s.lookup ? s.lookup(target, source, t.toSec(), timeout.toSec(), p) : 1;
    if (r == 1)
      throw tf2::LookupException("frame does not exist");
    if (r == 2)
      throw tf2::ConnectivityException("no connection between the frames");
    if (r != 0)
      throw tf2::ExtrapolationException("lookup would require extrapolation");
    geometry_msgs::TransformStamped o;
    o.header.frame_id = target, o.child_frame_id = source;
    o.header.stamp = ros::Time(p[7]);
    o.transform.translation.x = p[0], o.transform.translation.y = p[1], o.transform.translation.z = p[2];
    o.transform.rotation.x = p[3], o.transform.rotation.y = p[4], o.transform.rotation.z = p[5], o.transform.rotation.w = p[6];
    return o;
  }
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration timeout = ros::Duration(0), std::string* = nullptr) const
  {
    auto& s = rct_sim_ros::state();
    double p[8];
    return s.lookup && s.lookup(target, source, t.toSec(), timeout.toSec(), p) == 0;
  }
};
}  // namespace tf2_ros
