#include "rct_sim_ros.h"
#include <ros/ros.h>
namespace rct_sim_ros
{
State& state()
{
  static State s;
  return s;
}
void log(int level, const std::string& text)
{
  ++state().logs[level];
  if (state().keep)
    state().text.push_back({ level, text });
}
}  // namespace rct_sim_ros
namespace ros
{
bool NodeHandle::getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const
{
  auto& s = rct_sim_ros::state();
  ++s.reads;
  if (!s.paramService)
    return false;
  std::string k = key;
  // nested keys address members of structures, as the parameter server does
  auto f = s.params.find(k);
  if (f != s.params.end())
  {
    v = f->second;
    return true;
  }
  for (std::size_t p = k.rfind('/'); p != std::string::npos && p > 0; p = k.rfind('/', p - 1))
  {
    auto g = s.params.find(k.substr(0, p));
    if (g == s.params.end())
      continue;
    XmlRpc::XmlRpcValue x = g->second;
    std::string rest = k.substr(p + 1);
    while (!rest.empty())
    {
      std::size_t q = rest.find('/');
      std::string h = rest.substr(0, q);
      if (!x.hasMember(h))
        return false;
      XmlRpc::XmlRpcValue y = x[h];
      x = y;
      rest = q == std::string::npos ? "" : rest.substr(q + 1);
    }
    v = x;
    return true;
  }
  return false;
}
void ServiceServer::shutdown() { rct_sim_ros::state().services.erase(name_); }
Time Time::now() { return Time(rct_sim_ros::state().now); }
void init(int&, char**, const std::string&, uint32_t) {}
void spin()
{
  if (rct_sim_ros::state().spin)
    rct_sim_ros::state().spin();
}
bool ok() { return true; }
}  // namespace ros
#include <pluginlib/class_loader.h>
namespace rct_sim_ros
{
std::map<std::string, std::function<void*()>>& plugins()
{
  static std::map<std::string, std::function<void*()>> p;
  return p;
}
}  // namespace rct_sim_ros
