// C16: the cubic Hermite pose curve (the rotation library is the stand-in stubs/se3).
#include "vf.h"
#include <vector>
#include <stdexcept>
#include <curves/CubicHermiteSE3Curve.hpp>
#ifdef VF_EXTRACT
#include <curves/src/KeyGenerator.cpp>
#include <curves/src/SE3Curve.cpp>
#include <curves/src/CubicHermiteSE3Curve.cpp>
#endif
using namespace curves;
namespace {
typedef CubicHermiteSE3Curve H;
typedef Eigen::Vector3d V3;
typedef H::ValueType P;
typedef H::DerivativeType D;
typedef P::Rotation Q;
typedef std::vector<Time> Times;
V3 any3(const char* n) { const double a = vf::real(n, -3, 3), b = vf::real(n, -3, 3), c = vf::real(n, -3, 3); return V3(a, b, c); }
Q anyQ(const char* n) {
  const double w = vf::real(n, -1, 1), x = vf::real(n, -1, 1), y = vf::real(n, -1, 1), z = vf::real(n, -1, 1);
  if (!vf::native()) return Q(w, x, y, z);
  const double s = std::sqrt(w * w + x * x + y * y + z * z);
  vf::assume(s > 0.05);
  return Q(w / s, x / s, y / s, z / s);
}
P anyP(const char* n) { const V3 p = any3(n); const Q q = anyQ(n); return P(P::Position(p), q); }
D anyD(const char* n) { const V3 a = any3(n), b = any3(n); return D(a, b); }
void same(const char* l, const V3& a, const V3& b) { for (int i = 0; i < 3; ++i) vf::eq(l, a(i), b(i)); }
// the same rotation: equal quaternions up to sign
void sameQ(const char* l, const Q& a, const Q& b) {
  if (!vf::native()) return;
  const double s = a.w() * b.w() + a.x() * b.x() + a.y() * b.y() + a.z() * b.z() < 0 ? -1.0 : 1.0;
  vf::require(l, std::fabs(a.w() - s * b.w()) < 1e-7 && std::fabs(a.x() - s * b.x()) < 1e-7 && std::fabs(a.y() - s * b.y()) < 1e-7 && std::fabs(a.z() - s * b.z()) < 1e-7);
}
Times anyTimes(int n) {
  Times t; double s = vf::grid("t0", -3, 3), pace = 1.0;
  if (vf::native() && vf::choose("fast", 0, 5) == 0) for (int e = vf::choose("halvings", 1, 14); e > 0; --e) pace *= 0.5;  // native runs: short intervals
  for (int i = 0; i < n; ++i) { if (i) { const double h = pace * vf::grid("h", 0.5, 2); vf::assume(h > 0); s += h; } t.push_back(s); }
  return t;
}
P ev(const H& c, double t) { P v = anyP("junk"); vf::require("evaluation in range succeeds", c.evaluate(v, t)); return v; }
D dv(const H& c, double t) { D v = anyD("junk"); vf::require("derivative in range succeeds", c.evaluateDerivative(v, t, 1)); return v; }
struct Data { Times t; std::vector<P> x; std::vector<D> d; };
double norm(const V3& v) { return std::sqrt(v(0) * v(0) + v(1) * v(1) + v(2) * v(2)); }
D slope(const P& a, const P& b, double dt) {
  V3 l = b.getPosition().vector(), w(0.0, 0.0, 0.0);
  for (int k = 0; k < 3; ++k) l(k) = (b.getPosition().vector()(k) - a.getPosition().vector()(k)) / dt;
  if (vf::native()) { const V3 r = (b.getRotation() * a.getRotation().inverted()).logarithmicMap(); vf::assume(norm(r) < 3.1); for (int k = 0; k < 3; ++k) w(k) = r(k) / dt; }
  return D(l, w);
}
// what the curve must be after a fit
Data fit(H& c, int n, int how, std::vector<Key>* keys) {
  Data D_; D_.t = anyTimes(n);
  for (int i = 0; i < n; ++i) D_.x.push_back(anyP("x"));
  if (vf::native() && vf::choose("slow", 0, 3) == 0) {  // native runs: poses that turn only a little from one to the next
    double s = 1.0; for (int e = vf::choose("decades", 1, 6); e > 0; --e) s *= 0.1;
    for (int i = 1; i < n; ++i) { const V3 w = any3("turn") * s; D_.x[i] = P(D_.x[i].getPosition(), D_.x[i - 1].getRotation() * Q::exponentialMap(w)); }
  }
  D d0, d1;
  if (how == 2) {
    D_.x[n - 1] = D_.x[0];
    if (keys) c.fitPeriodicCurve(D_.t, D_.x, keys); else c.fitPeriodicCurve(D_.t, D_.x);
    d0 = d1 = slope(D_.x[n - 2], D_.x[1], (D_.t[1] - D_.t[0]) + (D_.t[n - 1] - D_.t[n - 2]));
  } else if (how == 1) {
    d0 = anyD("d0"); d1 = anyD("d1");
    if (keys) c.fitCurveWithDerivatives(D_.t, D_.x, d0, d1, keys); else c.fitCurveWithDerivatives(D_.t, D_.x, d0, d1);
  } else { if (keys) c.fitCurve(D_.t, D_.x, keys); else c.fitCurve(D_.t, D_.x); }
  for (int i = 0; i < n; ++i) {
    if (i == 0) D_.d.push_back(d0); else if (i == n - 1) D_.d.push_back(d1);
    else D_.d.push_back(slope(D_.x[i - 1], D_.x[i + 1], D_.t[i + 1] - D_.t[i - 1]));
  }
  return D_;
}
// angle of the middle part of the turn: at half a turn its direction is decided by rounding
double angle(const Data& D_, int k) {
  const double h = (D_.t[k + 1] - D_.t[k]) / 3.0; const Q a = D_.x[k].getRotation(), b = D_.x[k + 1].getRotation();
  const V3 w = D_.d[k].getRotationalVelocity().vector() * h, z = D_.d[k + 1].getRotationalVelocity().vector() * h;
  const V3 m = (Q::exponentialMap(w * -1.0) * b * a.inverted() * Q::exponentialMap(z * -1.0)).logarithmicMap(), l = (Q::exponentialMap(a.inverseRotate(w) * -1.0) * a.inverted() * b * Q::exponentialMap(b.inverseRotate(z) * -1.0)).logarithmicMap();
  return std::fmax(norm(m), norm(l));
}
void knots(const H& c, const Data& D_) {
  const int n = (int)D_.t.size();
  vf::eq("minimum time", c.getMinTime(), D_.t[0]); vf::eq("maximum time", c.getMaxTime(), D_.t[n - 1]);
  vf::require("one coefficient per pose", c.size() == n && !c.isEmpty());
  Times l; c.getCurveTimes(&l); vf::require("one time per pose", l.size() == D_.t.size());
  for (int i = 0; i < n; ++i) {
    vf::eq("the times are those of the data", l[i], D_.t[i]);
    const P p = ev(c, D_.t[i]); const D v = dv(c, D_.t[i]);
    same("curve passes through every position at its time", p.getPosition().vector(), D_.x[i].getPosition().vector());
    sameQ("curve takes every rotation at its time", p.getRotation(), D_.x[i].getRotation());
    same("linear velocity at the knots", v.getTranslationalVelocity().vector(), D_.d[i].getTranslationalVelocity().vector());
    if (vf::native() && (i == 0 || angle(D_, i - 1) < 3.1) && (i == n - 1 || angle(D_, i) < 3.1)) same("angular velocity at the knots", v.getRotationalVelocity().vector(), D_.d[i].getRotationalVelocity().vector());
  }
}
void between(H& c, const Data& D_) {
  const int n = (int)D_.t.size();
  const int k = vf::choose("interval", 0, n - 2);
  const double h = D_.t[k + 1] - D_.t[k], u = vf::grid("u", 0, 1); vf::assume(u >= 0); vf::assume(u <= 1); vf::assume(u < 1 || k == n - 2);
  const double s = u * h, q = D_.t[k] + s;
  const P p = ev(c, q); const D v = dv(c, q); kindr::Acceleration3D a(any3("junk")); vf::require("acceleration in range succeeds", c.evaluateLinearAcceleration(a, q));
  for (int i = 0; i < 3; ++i) {
    // the cubic with the given values and slopes at both ends of the interval
    const double x0 = D_.x[k].getPosition().vector()(i), x1 = D_.x[k + 1].getPosition().vector()(i), m0 = D_.d[k].getTranslationalVelocity().vector()(i), m1 = D_.d[k + 1].getTranslationalVelocity().vector()(i);
    const double c2 = 3 * (x1 - x0) - h * (2 * m0 + m1), c3 = 2 * (x0 - x1) + h * (m0 + m1);
    vf::eq("position between knots", p.getPosition().vector()(i), x0 + h * m0 * u + c2 * u * u + c3 * u * u * u);
    vf::eq("linear velocity between knots", v.getTranslationalVelocity().vector()(i) * h, h * m0 + 2 * c2 * u + 3 * c3 * u * u);
    vf::eq("linear acceleration between knots", a.vector()(i) * h * h, 2 * c2 + 6 * c3 * u);
  }
  if (vf::native() && u > 0.02 && u < 0.98 && angle(D_, k) < 3.1) {  // the rotation moves with the reported angular velocity
    const double e = 1e-3 * h; Q r[4]; const double o[4] = {-2 * e, -e, e, 2 * e};
    for (int i = 0; i < 4; ++i) r[i] = ev(c, q + o[i]).getRotation();
    const Eigen::Vector4d d = (r[0].vector() - 8.0 * r[1].vector() + 8.0 * r[2].vector() - r[3].vector()) * (1.0 / (12.0 * e));
    const V3 w = (Q(d) * p.getRotation().inverted()).imaginary();
    double scale = 1.0;
    for (int i = 0; i < 3; ++i) scale = std::fmax(scale, std::fabs(v.getRotationalVelocity().vector()(i)));
    for (int i = 0; i < 3; ++i) vf::require("angular velocity is that of the rotation", std::fabs(2.0 * w(i) - v.getRotationalVelocity().vector()(i)) <= 1e-4 * scale);
  }
}
void outside(H& c, const Data& D_) {
  const int n = (int)D_.t.size();
  const double q = vf::grid("q", -6, vf::native() ? D_.t[n - 1] + 3 : 20); vf::assume(q < D_.t[0] || q > D_.t[n - 1]);
  P v = anyP("junk"); D d = anyD("junk"); kindr::Acceleration3D a;
  vf::require("evaluation outside the fitted range is refused", !c.evaluate(v, q));
  vf::require("velocity outside the fitted range is refused", !c.evaluateDerivative(d, q, 1));
  vf::require("acceleration outside the fitted range is refused", !c.evaluateLinearAcceleration(a, q));
}
void orders(const H& c, double q) {
  D v = anyD("junk"); const int o = vf::choose("order", 0, 4);
  vf::require("derivative orders other than 1 are refused", !c.evaluateDerivative(v, q, o == 1 ? 5 : o));
}
void isEmpty(H& c) {
  vf::require("no coefficients", c.size() == 0 && c.isEmpty());
  P v = anyP("junk"); D d = anyD("junk"); kindr::Acceleration3D a; const double q = vf::choose("zero", 0, 1) ? 0.0 : vf::grid("q", -4, 4);
  vf::require("evaluating an empty curve is refused", !c.evaluate(v, q));
  vf::require("differentiating an empty curve is refused", !c.evaluateDerivative(d, q, 1) && !c.evaluateLinearAcceleration(a, q));
}
void before(H& c) {
  const int how = vf::choose("before", 0, 2);
  if (how >= 1) { Times t = anyTimes(2); std::vector<P> x; x.push_back(anyP("old")); x.push_back(anyP("old")); c.fitCurve(t, x); }
  if (how == 2) c.clear();
}
}  // namespace
BDRIVER(C16, knots) { H c; Data D_ = fit(c, vf::choose("knots", 1, vf::big(3, 4, 7, 60)), vf::choose("how", 0, 1), 0); knots(c, D_); }
BDRIVER(C16, between) { H c; Data D_ = fit(c, vf::choose("knots", 2, vf::big(3, 4, 7, 60)), vf::choose("how", 0, 1), 0); between(c, D_); }
BDRIVER(C16, outside) { H c; Data D_ = fit(c, vf::choose("knots", 1, vf::big(3, 3, 7, 60)), 0, 0); outside(c, D_); }
BDRIVER(C16, orders) { H c; Data D_ = fit(c, vf::choose("knots", 1, 2), 0, 0); orders(c, vf::grid("q", -4, 6)); }
BDRIVER(C16, refit) { H c; before(c); Data D_ = fit(c, vf::choose("knots", 1, vf::big(2, 3, 5, 60)), vf::choose("how", 0, 1), 0); knots(c, D_); outside(c, D_); }
BDRIVER(C16, periodic) { H c; before(c); Data D_ = fit(c, vf::choose("knots", 2, vf::big(3, 4, 7, 60)), 2, 0); knots(c, D_); }
BDRIVER(C16, empty) { H c; if (vf::choose("used", 0, 1)) { fit(c, 2, 0, 0); c.clear(); } isEmpty(c); }
BDRIVER(C16, keys) {
  H c; std::vector<Key> k; Data D_ = fit(c, vf::choose("knots", 2, 3), vf::choose("how", 0, 2), &k);
  vf::require("one key per pose", k.size() == D_.t.size());
  for (int i = 0; i < (int)k.size(); ++i) for (int j = 0; j < i; ++j) vf::require("keys are distinct", k[i] != k[j]);
}
