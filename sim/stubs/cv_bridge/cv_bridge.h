// Stand-in for cv_bridge with its checks and conversions for the encodings the simulation sends
#pragma once
#include <boost/make_shared.hpp>
#include <opencv2/core.hpp>
#include <opencv2/imgproc.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <stdexcept>
namespace cv_bridge
{
class Exception : public std::runtime_error
{
public:
  Exception(const std::string& m) : std::runtime_error(m) {}
};
class CvImage;
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<CvImage const> CvImageConstPtr;
class CvImage
{
public:
  std_msgs::Header header;
  std::string encoding;
  cv::Mat image;
  boost::shared_ptr<void const> tracked;  // keeps a shared message alive
  CvImage() {}
  CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& m = cv::Mat()) : header(h), encoding(e), image(m) {}
  sensor_msgs::ImagePtr toImageMsg() const
  {
    sensor_msgs::ImagePtr p = boost::make_shared<sensor_msgs::Image>();
    toImageMsg(*p);
    return p;
  }
  void toImageMsg(sensor_msgs::Image& m) const
  {
    m.header = header;
    m.height = image.rows, m.width = image.cols, m.encoding = encoding;
    m.step = image.cols * image.elemSize();
    m.data.resize((size_t)m.step * m.height);
    for (int i = 0; i < image.rows; ++i)
      std::copy(image.ptr(i), image.ptr(i) + m.step, m.data.begin() + (size_t)i * m.step);
  }
};
inline int getCvType(const std::string& e)
{
  namespace E = sensor_msgs::image_encodings;
  if (e == E::MONO8 || e == E::TYPE_8UC1)
    return CV_8UC1;
  if (e == E::MONO16 || e == E::TYPE_16UC1)
    return CV_16UC1;
  if (e == E::RGB8 || e == E::BGR8 || e == E::TYPE_8UC3)
    return CV_8UC3;
  if (e == E::RGBA8 || e == E::BGRA8)
    return CV_8UC4;
  if (e == E::TYPE_32FC1)
    return CV_32FC1;
  throw Exception("Unrecognized image encoding [" + e + "]");
}
inline cv::Mat matFromImage(const sensor_msgs::Image& s)
{
  int type = getCvType(s.encoding);
  std::size_t px = CV_ELEM_SIZE(type);
  if (s.step < s.width * px)
    throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");
  if ((std::size_t)s.height * s.step != s.data.size())
    throw Exception("Image is wrongly formed: height * step != size");
  return cv::Mat(s.height, s.width, type, const_cast<uint8_t*>(s.data.data()), s.step);
}
inline CvImagePtr toCvCopy(const sensor_msgs::Image& s, const std::string& enc = std::string())
{
  namespace E = sensor_msgs::image_encodings;
  CvImagePtr o = boost::make_shared<CvImage>();
  o->header = s.header;
  cv::Mat m = matFromImage(s);
  if (enc.empty() || enc == s.encoding)
  {
    o->encoding = s.encoding;
    m.copyTo(o->image);
    return o;
  }
  o->encoding = enc;
  auto colour = [](const std::string& e) { return e == E::MONO8 || e == E::MONO16 || e == E::RGB8 || e == E::BGR8 || e == E::RGBA8 || e == E::BGRA8; };
  if (!colour(s.encoding) || !colour(enc))
  {
    if (!colour(s.encoding) && !colour(enc) && getCvType(s.encoding) == getCvType(enc))
    {
      m.copyTo(o->image);
      return o;
    }
    throw Exception("[" + s.encoding + "] is not a color format. but [" + enc + "] is. The conversion does not make sense");
  }
  auto ch = [](const std::string& e) { return e == E::MONO8 || e == E::MONO16 ? 0 : e == E::RGB8 ? 1 : e == E::BGR8 ? 2 : e == E::RGBA8 ? 3 : 4; };
  static const int code[5][5] = { { -1, cv::COLOR_GRAY2RGB, cv::COLOR_GRAY2BGR, cv::COLOR_GRAY2RGBA, cv::COLOR_GRAY2BGRA },
                                  { cv::COLOR_RGB2GRAY, -1, cv::COLOR_RGB2BGR, cv::COLOR_RGB2RGBA, cv::COLOR_RGB2BGRA },
                                  { cv::COLOR_BGR2GRAY, cv::COLOR_BGR2RGB, -1, cv::COLOR_BGR2RGBA, cv::COLOR_BGR2BGRA },
                                  { cv::COLOR_RGBA2GRAY, cv::COLOR_RGBA2RGB, cv::COLOR_RGBA2BGR, -1, cv::COLOR_RGBA2BGRA },
                                  { cv::COLOR_BGRA2GRAY, cv::COLOR_BGRA2RGB, cv::COLOR_BGRA2BGR, cv::COLOR_BGRA2RGBA, -1 } };
  int c = code[ch(s.encoding)][ch(enc)];
  cv::Mat t = m.clone();
  if (c >= 0)
    cv::cvtColor(m, t, c);
  int d0 = CV_MAT_DEPTH(getCvType(s.encoding)), d1 = CV_MAT_DEPTH(getCvType(enc));
  if (d0 != d1)
  {
    cv::Mat u;
    t.convertTo(u, CV_MAT_DEPTH(getCvType(enc)), d0 == CV_16U && d1 == CV_8U ? 255. / 65535. : d0 == CV_8U && d1 == CV_16U ? 65535. / 255. : 1.0);
    t = u;
  }
  o->image = t;
  return o;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& s, const std::string& enc = std::string()) { return toCvCopy(*s, enc); }
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& s, const std::string& enc = std::string())
{
  if ((!enc.empty() && s->encoding != enc))
    return toCvCopy(s, enc);
  CvImagePtr o = boost::make_shared<CvImage>();
  o->header = s->header, o->encoding = s->encoding;
  o->image = matFromImage(*s);
  o->tracked = s;
  return o;
}
}  // namespace cv_bridge
