#pragma once
#include <kindr/Core>
#include <geometry_msgs/Transform.h>
namespace kindr_ros {
inline void convertFromRosGeometryMsg(const geometry_msgs::Transform& m, kindr::HomTransformQuatD& t) {
  t = kindr::HomTransformQuatD(kindr::Position3D(m.translation.x, m.translation.y, m.translation.z),
                               kindr::RotationQuaternionPD(m.rotation.w, m.rotation.x, m.rotation.y, m.rotation.z));
}
}  // namespace kindr_ros
