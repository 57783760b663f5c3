// Stand-in for pluginlib: plugins register a factory under their name
#pragma once
#include <pluginlib/class_loader.h>
#define RCT_SIM_CAT2_(a, b) a##b
#define RCT_SIM_CAT_(a, b) RCT_SIM_CAT2_(a, b)
#define PLUGINLIB_EXPORT_CLASS(C, B)                                                                                   \
  static bool RCT_SIM_CAT_(rct_sim_plugin_, __COUNTER__) =                                                            \
      (rct_sim_ros::plugins()[#C] = []() -> void* { return static_cast<B*>(new C()); }, true);
