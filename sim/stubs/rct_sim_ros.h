// The simulated middleware: parameter service, topics, services, transforms and clock. One instance, in the library.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>
#include <xmlrpcpp/XmlRpcValue.h>
namespace rct_sim_ros
{
struct State
{
  std::map<std::string, XmlRpc::XmlRpcValue> params;
  bool paramService = true;  // false: the service does not answer
  int reads = 0;
  std::map<std::string, std::function<bool()>> services;             // empty requests
  std::map<std::string, std::function<void(const void*)>> topics;    // message pointer holder
  std::function<void(const std::string&, const void*)> onPublish;    // topic, message pointer holder
  std::function<void()> spin;                                        // body of ros::spin
  std::map<std::string, unsigned> queue;                             // subscriber queue sizes
  std::function<int(const std::string&, const std::string&, double, double, double*)> lookup;  // target, source, time, timeout, pose and stamp; 0 on success
  double now = 0;
  int logs[5] = { 0, 0, 0, 0, 0 };
  bool keep = false;                                                 // keep the text of what is logged
  std::vector<std::pair<int, std::string>> text;
  std::function<void(const std::string&, const void*)> onShow;       // window, cv::Mat shown
};
State& state();
void log(int level, const std::string& text);
}  // namespace rct_sim_ros
