#pragma once
#include <boost/shared_ptr.hpp>
#include <std_msgs/Header.h>
#include <vector>
namespace sensor_msgs
{
struct Image
{
  typedef boost::shared_ptr<Image> Ptr;
  typedef boost::shared_ptr<const Image> ConstPtr;
  std_msgs::Header header;
  uint32_t height = 0, width = 0;
  std::string encoding;
  uint8_t is_bigendian = 0;
  uint32_t step = 0;
  std::vector<uint8_t> data;
};
typedef Image::Ptr ImagePtr;
typedef Image::ConstPtr ImageConstPtr;
}  // namespace sensor_msgs
