// Stand-in for the display: what a program shows goes to the simulator. An empty picture cannot be shown, as in OpenCV.
#include <opencv2/highgui.hpp>
#include "rct_sim_ros.h"
namespace cv
{
void namedWindow(const String&, int) {}
void destroyWindow(const String&) {}
void destroyAllWindows() {}
int waitKey(int) { return -1; }
int pollKey() { return -1; }
void imshow(const String& w, InputArray m)
{
  Mat x = m.getMat();
  if (x.empty())
    CV_Error(Error::StsAssert, "size.width>0 && size.height>0");
  if (rct_sim_ros::state().onShow)
    rct_sim_ros::state().onShow(w, &x);
}
}  // namespace cv
