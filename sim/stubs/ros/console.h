#pragma once
#include <cstdio>
#include <sstream>
#include "../rct_sim_ros.h"
#define RCT_SIM_LOG_(l, ...)                                                                                           \
  do                                                                                                                   \
  {                                                                                                                    \
    char b_[2048];                                                                                                     \
    std::snprintf(b_, sizeof b_, __VA_ARGS__);                                                                         \
    rct_sim_ros::log(l, b_);                                                                                           \
  } while (0)
#define RCT_SIM_LOGS_(l, x)                                                                                            \
  do                                                                                                                   \
  {                                                                                                                    \
    std::stringstream s_;                                                                                              \
    s_ << x;                                                                                                           \
    rct_sim_ros::log(l, s_.str());                                                                                     \
  } while (0)
#define ROS_DEBUG(...) RCT_SIM_LOG_(0, __VA_ARGS__)
#define ROS_INFO(...) RCT_SIM_LOG_(1, __VA_ARGS__)
#define ROS_WARN(...) RCT_SIM_LOG_(2, __VA_ARGS__)
#define ROS_ERROR(...) RCT_SIM_LOG_(3, __VA_ARGS__)
#define ROS_FATAL(...) RCT_SIM_LOG_(4, __VA_ARGS__)
#define ROS_DEBUG_STREAM(x) RCT_SIM_LOGS_(0, x)
#define ROS_INFO_STREAM(x) RCT_SIM_LOGS_(1, x)
#define ROS_WARN_STREAM(x) RCT_SIM_LOGS_(2, x)
#define ROS_ERROR_STREAM(x) RCT_SIM_LOGS_(3, x)
#define ROS_FATAL_STREAM(x) RCT_SIM_LOGS_(4, x)
#define ROS_DEBUG_STREAM_THROTTLE(t, x) ROS_DEBUG_STREAM(x)
#define ROS_DEBUG_STREAM_ONCE(x) ROS_DEBUG_STREAM(x)
#define ROS_DEBUG_THROTTLE(t, ...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_STREAM_THROTTLE(t, x) ROS_INFO_STREAM(x)
#define ROS_INFO_STREAM_ONCE(x) ROS_INFO_STREAM(x)
#define ROS_INFO_THROTTLE(t, ...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_STREAM_THROTTLE(t, x) ROS_WARN_STREAM(x)
#define ROS_WARN_STREAM_ONCE(x) ROS_WARN_STREAM(x)
#define ROS_WARN_THROTTLE(t, ...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_STREAM_THROTTLE(t, x) ROS_ERROR_STREAM(x)
#define ROS_ERROR_STREAM_ONCE(x) ROS_ERROR_STREAM(x)
#define ROS_ERROR_THROTTLE(t, ...) ROS_ERROR(__VA_ARGS__)
