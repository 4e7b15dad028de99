// C19: pose curves saved to CSV files (the rotation library is the stand-in stubs/se3).
#include "vf.h"
#include <string>
#include <vector>
#include <stdexcept>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/helpers.hpp>
#ifdef VF_EXTRACT
#include <curves/src/KeyGenerator.cpp>
#include <curves/src/SE3Curve.cpp>
#include <curves/src/CubicHermiteSE3Curve.cpp>
#include <curves/src/helpers.cpp>
#endif
namespace vf { std::string file(int i); }
#ifdef VF_NATIVE
#include <unistd.h>
namespace vf { std::string file(int i) { return "vf-" + std::to_string(getpid()) + "-" + std::to_string(i) + ".csv"; } }
#endif
using namespace curves;
namespace {
typedef CubicHermiteSE3Curve H;
typedef H::ValueType P;
typedef P::Rotation Q;
typedef std::vector<Time> Times;
P anyPose() {
  const double a = vf::real("x", -3, 3), b = vf::real("y", -3, 3), c = vf::real("z", -3, 3);
  double w = vf::real("w", -1, 1), x = vf::real("i", -1, 1), y = vf::real("j", -1, 1), z = vf::real("k", -1, 1);
  if (vf::native()) { const double s = std::sqrt(w * w + x * x + y * y + z * z); vf::assume(s > 0.05); w /= s; x /= s; y /= s; z /= s; }
  return P(P::Position(a, b, c), Q(w, x, y, z));
}
// the text keeps six digits
void close(const char* l, double a, double b) {
  if (!vf::native()) { vf::eq(l, a, b); return; }
  const double d = a - b, s = 1e-5 * (1 + (a < 0 ? -a : a));
  vf::require(l, -s <= d && d <= s);
}
Times fit(H& c, int n) {
  Times t; std::vector<P> x; double s = vf::grid("t0", -3, 3);
  for (int i = 0; i < n; ++i) { if (i) { const double h = vf::grid("h", 0.5, 2); vf::assume(h > 0); s += h; } t.push_back(s); x.push_back(anyPose()); }
  c.fitCurve(t, x); return t;
}
void rows(const H& c, const std::string& f, const Times& want) {
  Times t; std::vector<Eigen::VectorXd> v; loadTimeVectorCSV(f, &t, &v);
  vf::require("one row per time", t.size() == want.size() && v.size() == want.size());
  for (size_t i = 0; i < want.size(); ++i) {
    close("each row has its time", t[i], want[i]);
    vf::require("each row has the seven entries of a pose", v[i].size() == 7);
    P p; vf::require("evaluation succeeds", c.evaluate(p, want[i]));
    close("position x", v[i](0), p.getPosition().x()); close("position y", v[i](1), p.getPosition().y()); close("position z", v[i](2), p.getPosition().z());
    close("rotation w", v[i](3), p.getRotation().w()); close("rotation x", v[i](4), p.getRotation().x()); close("rotation y", v[i](5), p.getRotation().y()); close("rotation z", v[i](6), p.getRotation().z());
  }
}
}  // namespace
BDRIVER(C19, knots) {
  H c; const Times t = fit(c, vf::choose("n", 1, vf::big(2, 3, 6, 40))); const std::string f = vf::file(0);
  c.saveCurveTimesAndValues(f); rows(c, f, t);
}
BDRIVER(C19, times) {
  H c; const Times t = fit(c, vf::choose("n", 1, vf::big(2, 3, 6, 20))); const std::string f = vf::file(0);
  if (vf::native() && vf::choose("earlier file", 0, 1)) { c.saveCurveTimesAndValues(f); }
  Times q; const int m = vf::choose("rows", 1, vf::big(2, 2, 9, 60));
  for (int i = 0; i < m; ++i) {
    const double lo = t[0], hi = t[t.size() - 1];
    const int how = vf::choose("kind of time", 0, vf::native() ? 3 : 0);  // knots, both ends, times between, in any order, also repeated
    if (how == 0 || t.size() < 2) q.push_back(t[vf::choose("knot", 0, static_cast<int>(t.size()) - 1)]);
    else if (how == 1) q.push_back(hi);
    else { const double u = vf::real("u", 0, 1); vf::assume(u >= 0 && u <= 1); const double s = lo + u * (hi - lo); q.push_back(s > hi ? hi : s); }
  }
  c.saveCurveAtTimes(f, q); rows(c, f, q);
}
