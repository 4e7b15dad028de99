// C18: curves from trajectory messages (ROS, kindr and kindr_ros are the stand-ins stubs/ros, stubs/se3).
#include "vf.h"
#include <string>
#include <vector>
#include <stdexcept>
#include <curves_ros/RosJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp>
#ifdef VF_EXTRACT
#include <curves/src/KeyGenerator.cpp>
#include <curves/src/SE3Curve.cpp>
#include <curves/src/CubicHermiteSE3Curve.cpp>
#include <curves_ros/src/RosJointTrajectoryInterface.cpp>
#include <curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp>
#include <curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp>
#endif
using namespace curves;
namespace {
typedef RosJointTrajectoryInterface JI;
typedef RosMultiDOFJointTrajectoryInterface PI;
typedef RosMultiDOFJointTrajectoryTranslationInterface TI;
typedef trajectory_msgs::JointTrajectory JM;
typedef trajectory_msgs::MultiDOFJointTrajectory MM;
typedef CubicHermiteSE3Curve::ValueType P;
typedef std::vector<std::string> Names;
// short names that contain one another, so that equality is all that counts
std::string name(int i) {
  if (i == 0) return "knee";
  if (i == 1) return "knee2";
  if (i == 2) return "hip";
  if (i == 3) return "";
  return "Knee";
}
// joint names of a message; `first` is the first place of the wanted name, or -1
Names anyNames(const std::string& wanted, bool named, int& first, int most) {
  Names r; const int n = vf::choose("joints", named ? 1 : 0, most);
  const int at = named ? vf::choose("place", 0, n - 1) : -1;
  first = -1;
  for (int i = 0; i < n; ++i) {
    std::string s = i == at ? wanted : name(vf::choose("name", 0, vf::native() ? 4 : 1));
    if (!named) vf::assume(s != wanted);
    if (s == wanted && first < 0) first = i;
    r.push_back(s);
  }
  return r;
}
std::vector<ros::Duration> anyTimes(int n) {
  std::vector<ros::Duration> r; int s = 0;
  for (int i = 0; i < n; ++i) {
    const int sec = vf::native() ? s + vf::choose("sec", 0, 1) : i, ns = vf::native() ? vf::choose("nsec", 0, 999999999) : 0;
    r.push_back(ros::Duration(sec, ns)); s = sec + (ns > 700000000 ? 2 : 1);
  }
  return r;
}
double sec(const ros::Duration& d) { return static_cast<double>(d.sec) + 1e-9 * static_cast<double>(d.nsec); }
int spare() { return vf::native() ? vf::choose("spare", 0, 1) : 0; }
JM anyMessage(const Names& names, int n) {
  JM m; m.joint_names = names; const std::vector<ros::Duration> t = anyTimes(n);
  for (int i = 0; i < n; ++i) {
    trajectory_msgs::JointTrajectoryPoint p; p.time_from_start = t[i];
    const int k = static_cast<int>(names.size()) + spare();
    const bool hold = vf::native() && i > 0 && vf::choose("hold", 0, 3) == 0;  // the joints may stand still
    for (int j = 0; j < k; ++j) { p.positions.push_back(hold && j < static_cast<int>(m.points[i - 1].positions.size()) ? m.points[i - 1].positions[j] : vf::real("x", -3, 3)); if (vf::native()) { p.velocities.push_back(vf::real("v", -3, 3)); p.accelerations.push_back(vf::real("a", -3, 3)); } }
    m.points.push_back(p);
  }
  return m;
}
MM anyPoses(const Names& names, int n) {
  MM m; m.joint_names = names; const std::vector<ros::Duration> t = anyTimes(n);
  for (int i = 0; i < n; ++i) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p; p.time_from_start = t[i];
    const int k = static_cast<int>(names.size()) + spare();
    const bool hold = vf::native() && i > 0 && vf::choose("hold", 0, 3) == 0;
    for (int j = 0; j < k; ++j) {
      if (hold && j < static_cast<int>(m.points[i - 1].transforms.size())) { p.transforms.push_back(m.points[i - 1].transforms[j]); continue; }
      geometry_msgs::Transform f;
      f.translation.x = vf::real("x", -3, 3); f.translation.y = vf::real("y", -3, 3); f.translation.z = vf::real("z", -3, 3);
      double w = vf::real("w", -1, 1), a = vf::real("a", -1, 1), b = vf::real("b", -1, 1), c = vf::real("c", -1, 1);
      if (vf::native()) { const double s = std::sqrt(w * w + a * a + b * b + c * c); vf::assume(s > 0.05); w /= s; a /= s; b /= s; c /= s; }
      f.rotation.w = w; f.rotation.x = a; f.rotation.y = b; f.rotation.z = c;
      p.transforms.push_back(f);
      if (vf::native()) { geometry_msgs::Twist d; d.linear.x = vf::real("d", -3, 3); p.velocities.push_back(d); }
    }
    m.points.push_back(p);
  }
  return m;
}
// the curve is the one through the samples of joint j
void isFitted(const JI& c, const JM& m, int j) {
  const int n = static_cast<int>(m.points.size());
  vf::eq("the curve starts at the first point", c.getMinTime(), sec(m.points[0].time_from_start)); vf::eq("the curve ends at the last point", c.getMaxTime(), sec(m.points[n - 1].time_from_start));
  for (int i = 0; i < n; ++i) { double v = vf::real("junk", -3, 3); vf::require("evaluation succeeds", c.evaluate(v, sec(m.points[i].time_from_start))); vf::eq("the curve takes the joint's position at the point's time", v, m.points[i].positions[j]); }
}
void position(const geometry_msgs::Transform& f, const Eigen::Vector3d& v) {
  vf::eq("the curve takes the joint's translation at the point's time (x)", v(0), f.translation.x); vf::eq("the curve takes the joint's translation at the point's time (y)", v(1), f.translation.y); vf::eq("the curve takes the joint's translation at the point's time (z)", v(2), f.translation.z);
}
void isFitted(const TI& c, const MM& m, int j) {
  const int n = static_cast<int>(m.points.size());
  vf::eq("the curve starts at the first point", c.getMinTime(), sec(m.points[0].time_from_start)); vf::eq("the curve ends at the last point", c.getMaxTime(), sec(m.points[n - 1].time_from_start));
  for (int i = 0; i < n; ++i) { Eigen::Vector3d v(1.0, 2.0, 3.0); vf::require("evaluation succeeds", c.evaluate(v, sec(m.points[i].time_from_start))); position(m.points[i].transforms[j], v); }
}
void isFitted(const PI& c, const MM& m, int j) {
  const int n = static_cast<int>(m.points.size());
  vf::eq("the curve starts at the first point", c.getMinTime(), sec(m.points[0].time_from_start)); vf::eq("the curve ends at the last point", c.getMaxTime(), sec(m.points[n - 1].time_from_start));
  for (int i = 0; i < n; ++i) {
    P v; vf::require("evaluation succeeds", c.evaluate(v, sec(m.points[i].time_from_start))); position(m.points[i].transforms[j], v.getPosition().vector());
    if (!vf::native()) continue;
    const geometry_msgs::Quaternion& q = m.points[i].transforms[j].rotation; const P::Rotation r = v.getRotation();
    const double s = r.w() * q.w + r.x() * q.x + r.y() * q.y + r.z() * q.z;
    vf::eq("the curve takes the joint's rotation at the point's time", s * s, 1.0);
  }
}
int points() { return vf::native() ? vf::choose("points", 2, vf::rare(24) ? 20 : 6) : 2; }
int most() { return vf::native() ? 5 : 2; }
std::string wanted() { return name(vf::native() ? vf::choose("wanted", 0, 4) : 0); }
JM make(const JI&, const Names& n, int k) { return anyMessage(n, k); }
MM make(const TI&, const Names& n, int k) { return anyPoses(n, k); }
MM make(const PI&, const Names& n, int k) { return anyPoses(n, k); }
// named: the curve is refitted, whatever it was before
template <class C, class M> void named(C& c, M* type) {
  int j = 0;
  if (vf::native() && vf::choose("earlier", 0, 1)) { const std::string w = wanted(); const Names n = anyNames(w, true, j, most()); c.fromMessage(make(c, n, points()), w); }
  const std::string w = wanted(); const Names n = anyNames(w, true, j, most()); const M m = make(c, n, points());
  vf::require("a joint the message names is accepted", c.fromMessage(m, w));
  isFitted(c, m, j);
}
// not named: refused, the curve stays
template <class C, class M> void missing(C& c, M* type) {
  int j = 0, k = 0;
  const std::string w0 = wanted(); const Names n0 = anyNames(w0, true, j, vf::native() ? 3 : 1); const M m0 = make(c, n0, points());
  vf::require("a joint the message names is accepted", c.fromMessage(m0, w0));
  const std::string w = wanted(); const Names n = anyNames(w, false, k, most()); M m = make(c, n, points());
  if (vf::native() && vf::choose("no points", 0, 3) == 0) m.points.clear();
  // what lies beyond the named joints must never be read
  vf::require("a joint the message does not name is refused", !c.fromMessage(m, w));
  isFitted(c, m0, j);
}
template <class C, class M> void missingNew(C& c, M* type) {
  int k = 0; const std::string w = wanted(); const Names n = anyNames(w, false, k, most()); const M m = make(c, n, points());
  vf::require("a joint the message does not name is refused", !c.fromMessage(m, w));
}
}  // namespace
BDRIVER(C18, joint) { JI c; named(c, static_cast<JM*>(0)); }
BDRIVER(C18, joint_missing) { JI c; missing(c, static_cast<JM*>(0)); }
BDRIVER(C18, joint_missing_new) { JI c; missingNew(c, static_cast<JM*>(0)); }
BDRIVER(C18, translation) { TI c; named(c, static_cast<MM*>(0)); }
BDRIVER(C18, translation_missing) { TI c; missing(c, static_cast<MM*>(0)); }
BDRIVER(C18, pose) { PI c; named(c, static_cast<MM*>(0)); }
BDRIVER(C18, pose_missing) { PI c; missing(c, static_cast<MM*>(0)); }
BDRIVER(C18, pose_missing_new) { PI c; missingNew(c, static_cast<MM*>(0)); }
