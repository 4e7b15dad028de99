// C14: the cubic Hermite position curve.
#include "vf.h"
#include <vector>
#include <stdexcept>
#include <curves/CubicHermiteE3Curve.hpp>
#ifdef VF_EXTRACT
#include <curves/src/KeyGenerator.cpp>
#include <curves/src/CubicHermiteE3Curve.cpp>
#endif
using namespace curves;
namespace {
typedef CubicHermiteE3Curve H;
typedef Eigen::Vector3d V3;
typedef std::vector<Time> Times;
V3 any3(const char* n) { const double a = vf::real(n, -3, 3), b = vf::real(n, -3, 3), c = vf::real(n, -3, 3); return V3(a, b, c); }
void same(const char* l, const V3& a, const V3& b) { for (int i = 0; i < 3; ++i) vf::eq(l, a(i), b(i)); }
Times anyTimes(int n) {
  Times t; double s = vf::grid("t0", -3, 3);
  for (int i = 0; i < n; ++i) { if (i) { const double h = vf::grid("h", 0.5, 2); vf::assume(h > 0); s += h; } t.push_back(s); }
  return t;
}
V3 ev(const H& c, double t) { V3 v = any3("junk"); vf::require("evaluation in range succeeds", c.evaluate(v, t)); return v; }
V3 dv(const H& c, double t, unsigned k) { V3 v = any3("junk"); vf::require("derivative in range succeeds", c.evaluateDerivative(v, t, k)); return v; }
struct Data { Times t; std::vector<V3> x, d; };
// what the curve must be after a fit
Data fit(H& c, int n, int how, std::vector<Key>* keys) {
  VF_TIGHT(1e-10);
  Data D; D.t = anyTimes(n);
  for (int i = 0; i < n; ++i) D.x.push_back(any3("x"));
  V3 d0(0.0, 0.0, 0.0), d1(0.0, 0.0, 0.0);
  if (how == 2) {
    D.x[n - 1] = D.x[0];
    if (keys) c.fitPeriodicCurve(D.t, D.x, keys); else c.fitPeriodicCurve(D.t, D.x);
    const double span = (D.t[1] - D.t[0]) + (D.t[n - 1] - D.t[n - 2]);
    for (int i = 0; i < 3; ++i) d0(i) = d1(i) = (D.x[1](i) - D.x[n - 2](i)) / span;
  } else if (how == 1) {
    d0 = any3("d0"); d1 = any3("d1");
    if (keys) c.fitCurveWithDerivatives(D.t, D.x, d0, d1, keys); else c.fitCurveWithDerivatives(D.t, D.x, d0, d1);
  } else { if (keys) c.fitCurve(D.t, D.x, keys); else c.fitCurve(D.t, D.x); }
  for (int i = 0; i < n; ++i) {
    V3 s(0.0, 0.0, 0.0);
    if (i == 0) s = d0; else if (i == n - 1) s = d1;
    else for (int k = 0; k < 3; ++k) s(k) = (D.x[i + 1](k) - D.x[i - 1](k)) / (D.t[i + 1] - D.t[i - 1]);
    D.d.push_back(s);
  }
  return D;
}
void knots(const H& c, const Data& D) {
  const int n = (int)D.t.size();
  vf::eq("minimum time", c.getMinTime(), D.t[0]); vf::eq("maximum time", c.getMaxTime(), D.t[n - 1]);
  vf::require("one coefficient per position", c.size() == n && !c.isEmpty());
  for (int i = 0; i < n; ++i) {
    same("curve passes through every position at its time", ev(c, D.t[i]), D.x[i]);
    same("slope at the knots", dv(c, D.t[i], 1), D.d[i]);
  }
}
void between(const H& c, const Data& D) {
  const int n = (int)D.t.size();
  const int k = vf::choose("interval", 0, n - 2);
  const double h = D.t[k + 1] - D.t[k], u = vf::grid("u", 0, 1); vf::assume(u >= 0); vf::assume(u <= 1); vf::assume(u < 1 || k == n - 2);
  const double s = u * h, q = D.t[k] + s;
  const V3 p = ev(c, q), v = dv(c, q, 1), a = dv(c, q, 2);
  for (int i = 0; i < 3; ++i) {
    // the cubic with the given values and slopes at both ends of the interval
    const double x0 = D.x[k](i), x1 = D.x[k + 1](i), m0 = D.d[k](i), m1 = D.d[k + 1](i);
    const double c2 = 3 * (x1 - x0) - h * (2 * m0 + m1), c3 = 2 * (x0 - x1) + h * (m0 + m1);
    vf::eq("value between knots", p(i), x0 + h * m0 * u + c2 * u * u + c3 * u * u * u);
    vf::eq("first derivative between knots", v(i) * h, h * m0 + 2 * c2 * u + 3 * c3 * u * u);
    vf::eq("second derivative between knots", a(i) * h * h, 2 * c2 + 6 * c3 * u);
  }
}
void outside(const H& c, const Data& D) {
  const int n = (int)D.t.size();
  const double q = vf::grid("q", -6, vf::native() ? D.t[n - 1] + 3 : 20); vf::assume(q < D.t[0] || q > D.t[n - 1]);
  V3 v = any3("junk");
  vf::require("evaluation outside the fitted range is refused", !c.evaluate(v, q));
  vf::require("first derivative outside the fitted range is refused", !c.evaluateDerivative(v, q, 1));
  vf::require("second derivative outside the fitted range is refused", !c.evaluateDerivative(v, q, 2));
}
void orders(const H& c, double q) {
  V3 v = any3("junk"); const int o = vf::choose("order", 0, 4);
  vf::require("derivative orders other than 1 and 2 are refused", !c.evaluateDerivative(v, q, o == 1 || o == 2 ? o + 4 : o));
}
void isEmpty(const H& c) {
  vf::require("no coefficients", c.size() == 0 && c.isEmpty());
  V3 v = any3("junk"); const double q = vf::choose("zero", 0, 1) ? 0.0 : vf::grid("q", -4, 4);
  vf::require("evaluating an empty curve is refused", !c.evaluate(v, q));
  vf::require("differentiating an empty curve is refused", !c.evaluateDerivative(v, q, 1) && !c.evaluateDerivative(v, q, 2));
}
void before(H& c) {
  const int how = vf::choose("before", 0, 2);
  if (how >= 1) { Times t = anyTimes(2); std::vector<V3> x; x.push_back(any3("old")); x.push_back(any3("old")); c.fitCurve(t, x); }
  if (how == 2) c.clear();
}
}  // namespace
BDRIVER(C14, knots) { H c; Data D = fit(c, vf::choose("knots", 1, vf::big(3, 4, 7, 60)), vf::choose("how", 0, 1), 0); knots(c, D); }
BDRIVER(C14, between) { H c; Data D = fit(c, vf::choose("knots", 2, vf::big(3, 4, 7, 60)), vf::choose("how", 0, 1), 0); between(c, D); }
BDRIVER(C14, outside) { H c; Data D = fit(c, vf::choose("knots", 1, vf::big(3, 3, 7, 60)), 0, 0); outside(c, D); }
BDRIVER(C14, orders) { H c; Data D = fit(c, vf::choose("knots", 1, 2), 0, 0); orders(c, vf::grid("q", -4, 6)); }
BDRIVER(C14, refit) { H c; before(c); Data D = fit(c, vf::choose("knots", 1, vf::big(2, 3, 5, 60)), vf::choose("how", 0, 1), 0); knots(c, D); outside(c, D); }
BDRIVER(C14, periodic) { H c; before(c); Data D = fit(c, vf::choose("knots", 2, vf::big(3, 4, 7, 60)), 2, 0); knots(c, D); }
BDRIVER(C14, empty) { H c; if (vf::choose("used", 0, 1)) { fit(c, 2, 0, 0); c.clear(); } isEmpty(c); }
BDRIVER(C14, keys) {
  H c; std::vector<Key> k; Data D = fit(c, vf::choose("knots", 2, 3), vf::choose("how", 0, 2), &k);
  vf::require("one key per position", k.size() == D.t.size());
  for (int i = 0; i < (int)k.size(); ++i) for (int j = 0; j < i; ++j) vf::require("keys are distinct", k[i] != k[j]);
}
