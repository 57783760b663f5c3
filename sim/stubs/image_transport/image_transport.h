// Stand-in for image_transport: topics of the simulated middleware
#pragma once
#include <boost/function.hpp>
#include <ros/node_handle.h>
#include <sensor_msgs/Image.h>
namespace image_transport
{
class Subscriber
{
public:
  std::string topic;
  std::string getTopic() const { return topic; }
  void shutdown() { rct_sim_ros::state().topics.erase(topic); }
};
class Publisher
{
public:
  std::string topic;
  std::string getTopic() const { return topic; }
  uint32_t getNumSubscribers() const { return 1; }
  void publish(const sensor_msgs::Image& m) const
  {
    auto& s = rct_sim_ros::state();
    if (s.onPublish)
      s.onPublish(topic, &m);
  }
  void publish(const sensor_msgs::ImageConstPtr& m) const { publish(*m); }
};
class ImageTransport
{
public:
  explicit ImageTransport(const ros::NodeHandle&) {}
  Publisher advertise(const std::string& topic, uint32_t, bool = false)
  {
    Publisher p;
    p.topic = topic;
    return p;
  }
  template <class T>
  Subscriber subscribe(const std::string& topic, uint32_t queue, void (T::*f)(const sensor_msgs::ImageConstPtr&), T* o)
  {
    return subscribe(topic, queue, boost::function<void(const sensor_msgs::ImageConstPtr&)>([o, f](const sensor_msgs::ImageConstPtr& m) { (o->*f)(m); }));
  }
  Subscriber subscribe(const std::string& topic, uint32_t queue, const boost::function<void(const sensor_msgs::ImageConstPtr&)>& f)
  {
    auto& s = rct_sim_ros::state();
    s.queue[topic] = queue;
    s.topics[topic] = [f](const void* m) { f(*static_cast<const sensor_msgs::ImageConstPtr*>(m)); };
    Subscriber x;
    x.topic = topic;
    return x;
  }
};
}  // namespace image_transport
