#pragma once
namespace geometry_msgs {
struct Vector3 { double x, y, z; Vector3() : x(0.0), y(0.0), z(0.0) {} };
struct Quaternion { double x, y, z, w; Quaternion() : x(0.0), y(0.0), z(0.0), w(0.0) {} };
struct Transform { Vector3 translation; Quaternion rotation; };
struct Twist { Vector3 linear, angular; };
}  // namespace geometry_msgs
