// Stand-in for roscpp's node handle: parameters come from the simulated parameter service
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <boost/shared_ptr.hpp>
#include <ros/console.h>
#include <ros/exceptions.h>
#include <ros/time.h>
#include <xmlrpcpp/XmlRpcValue.h>
namespace ros
{
class ServiceServer
{
public:
  ServiceServer() {}
  explicit ServiceServer(const std::string& n) : name_(n) {}
  std::string getService() const { return name_; }
  void shutdown();

private:
  std::string name_;
};
class NodeHandle
{
public:
  explicit NodeHandle(const std::string& ns = std::string()) : ns_(ns) {}
  bool getParam(const std::string& key, XmlRpc::XmlRpcValue& v) const;
  bool getParam(const std::string& key, std::string& v) const { return get(key, XmlRpc::XmlRpcValue::TypeString, v); }
  bool getParam(const std::string& key, bool& v) const { return get(key, XmlRpc::XmlRpcValue::TypeBoolean, v); }
  bool getParam(const std::string& key, int& v) const
  {
    double d;
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x))
      return false;
    if (x.getType() == XmlRpc::XmlRpcValue::TypeInt)
      return v = (int)x, true;
    return false;
  }
  bool getParam(const std::string& key, double& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x))
      return false;
    if (x.getType() == XmlRpc::XmlRpcValue::TypeInt)
      return v = (int)x, true;
    if (x.getType() == XmlRpc::XmlRpcValue::TypeDouble)
      return v = (double)x, true;
    return false;
  }
  bool hasParam(const std::string& key) const
  {
    XmlRpc::XmlRpcValue x;
    return getParam(key, x);
  }
  template <class T, class A, class B>
  ServiceServer advertiseService(const std::string& name, bool (T::*f)(A&, B&), T* o)
  {
    rct_sim_ros::state().services[name] = [o, f]() {
      A a;
      B b;
      return (o->*f)(a, b);
    };
    return ServiceServer(name);
  }
  const std::string& getNamespace() const { return ns_; }

private:
  template <class T>
  bool get(const std::string& key, XmlRpc::XmlRpcValue::Type t, T& v) const
  {
    XmlRpc::XmlRpcValue x;
    if (!getParam(key, x) || x.getType() != t)
      return false;
    T& r = x;
    v = r;
    return true;
  }
  std::string ns_;
};
namespace init_options
{
enum InitOption
{
  NoSigintHandler = 1 << 0,
  AnonymousName = 1 << 1,
  NoRosout = 1 << 2
};
}
void init(int& argc, char** argv, const std::string& name, uint32_t options = 0);
void spin();
bool ok();
}  // namespace ros
