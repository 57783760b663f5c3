#pragma once
#include <geometry_msgs/TransformStamped.h>
