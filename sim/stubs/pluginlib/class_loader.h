#pragma once
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <boost/shared_ptr.hpp>
namespace rct_sim_ros
{
std::map<std::string, std::function<void*()>>& plugins();
}
namespace pluginlib
{
class PluginlibException : public std::runtime_error
{
public:
  PluginlibException(const std::string& m) : std::runtime_error(m) {}
};
class CreateClassException : public PluginlibException
{
public:
  using PluginlibException::PluginlibException;
};
template <class T>
class ClassLoader
{
public:
  ClassLoader(const std::string&, const std::string&) {}
  boost::shared_ptr<T> createInstance(const std::string& n)
  {
    auto& p = rct_sim_ros::plugins();
    auto f = p.find(n);
    if (f == p.end())
      throw CreateClassException("no plugin " + n);
    return boost::shared_ptr<T>(static_cast<T*>(f->second()));
  }
};
}  // namespace pluginlib
