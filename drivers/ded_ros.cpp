// the message interfaces of curves_ros (engine/spec_ros.py)
#include "vf.h"
#include <vector>
#include <stdexcept>
#include <curves_ros/src/RosJointTrajectoryInterface.cpp>
#include <curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp>
#include <curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp>
using namespace curves;
DRIVER(DED, use_ros) {
  RosJointTrajectoryInterface a; RosMultiDOFJointTrajectoryInterface b; RosMultiDOFJointTrajectoryTranslationInterface c;
  trajectory_msgs::JointTrajectory m; trajectory_msgs::MultiDOFJointTrajectory n; std::string s;
  a.fromMessage(m, s); b.fromMessage(n, s); c.fromMessage(n, s);
}
