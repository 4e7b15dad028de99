// C09, C10: scalar and vector curves on top of the spline sequences.
#include "vf.h"
#include <stdexcept>
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
using namespace curves;
namespace {
typedef PolynomialSplineQuinticScalarCurve SC;
typedef PolynomialSplineQuinticVector3Curve VC;
typedef std::vector<Time> Times;
Times anyTimes(int n) {
  Times t; double s = vf::grid("t0", -3, 3);
  for (int i = 0; i < n; ++i) { if (i) { const double h = vf::grid("h", 0.5, 2); vf::assume(h > 0); s += h; } t.push_back(s); }
  return t;
}
// value, first and second derivative of the curve at absolute time t are those of one quintic
double ev(const SC& c, double t) { double v = vf::real("junk", -3, 3); vf::require("evaluation succeeds", c.evaluate(v, t)); return v; }
double dv(const SC& c, double t, unsigned k) { double v = vf::real("junk", -3, 3); vf::require("derivative of order 1 or 2 succeeds", c.evaluateDerivative(v, t, k)); return v; }
void refusesOrders(const SC& c) {
  const double t = vf::grid("q", -3, 6); double v = 0.0;
  const int o = vf::choose("order", 0, 4);
  vf::require("derivative orders other than 1 and 2 are refused", c.evaluateDerivative(v, t, o == 1 || o == 2 ? o + 4 : o) == false);
}
void empty(const SC& c) {
  vf::eq("cleared curve starts at zero", c.getMinTime(), 0.0); vf::eq("cleared curve ends at zero", c.getMaxTime(), 0.0);
  const double t = vf::grid("q", -3, 6);
  vf::eq("cleared curve is zero", ev(c, t), 0.0); vf::eq("cleared curve has zero slope", dv(c, t, 1), 0.0);
}
void fitPoints(SC& c, int n, int how) {
  Times t = anyTimes(n); std::vector<double> x;
  for (int i = 0; i < n; ++i) x.push_back(vf::real("x", -3, 3));
  double v0 = 0.0, a0 = 0.0, vT = 0.0, aT = 0.0;
  if (how == 0) c.fitCurve(t, x);
  else {
    v0 = vf::real("v0", -3, 3); a0 = vf::real("a0", -3, 3); vT = vf::real("vT", -3, 3); aT = vf::real("aT", -3, 3);
    c.fitCurve(t, x, v0, a0, vT, aT);
  }
  vf::eq("minimum time is the first fitted time", c.getMinTime(), t[0]);
  vf::eq("maximum time is the last fitted time", c.getMaxTime(), t[n - 1]);
  for (int i = 0; i < n; ++i) vf::eq("curve takes the fitted value at the fitted time", ev(c, t[i]), x[i]);
  vf::eq("initial velocity", dv(c, t[0], 1), v0); vf::eq("initial acceleration", dv(c, t[0], 2), a0);
  vf::eq("final velocity", dv(c, t[n - 1], 1), vT); vf::eq("final acceleration", dv(c, t[n - 1], 2), aT);
  const double q = vf::grid("out", 0, 3); vf::assume(q >= 0);
  vf::eq("holds the first value before the start", ev(c, t[0] - q), x[0]);
  vf::eq("holds the last value after the end", ev(c, t[n - 1] + q), x[n - 1]);
}
// derivatives agree with the evaluated polynomial: reconstruct the quintic of one interval from six values
void derivativesExact(SC& c, int n) {
  Times t = anyTimes(n); std::vector<double> x;
  for (int i = 0; i < n; ++i) x.push_back(vf::real("x", -3, 3));
  c.fitCurve(t, x, vf::real("v0", -3, 3), vf::real("a0", -3, 3), vf::real("vT", -3, 3), vf::real("aT", -3, 3));
  const int k = vf::choose("interval", 0, n - 2);
  const double h = t[k + 1] - t[k];
  // value at start + 1/4, 1/2, 3/4 of the interval determined by the boundary data if the derivatives are exact
  const double p0 = ev(c, t[k]), p1 = x[k + 1];
  const double v0 = dv(c, t[k], 1) * h, a0 = dv(c, t[k], 2) * h * h;
  // left limits at the end of the interval equal the values there (continuity)
  const double v1 = dv(c, t[k + 1], 1) * h, a1 = dv(c, t[k + 1], 2) * h * h;
  const int j = vf::choose("quarter", 1, 3);
  const double u = j * 0.25;
  const double u2 = u * u, u3 = u2 * u, u4 = u3 * u, u5 = u4 * u;
  const double c3 = 10 * (p1 - p0) - 6 * v0 - 4 * v1 - 1.5 * a0 + 0.5 * a1;
  const double c4 = -15 * (p1 - p0) + 8 * v0 + 7 * v1 + 1.5 * a0 - a1;
  const double c5 = 6 * (p1 - p0) - 3 * v0 - 3 * v1 - 0.5 * a0 + 0.5 * a1;
  vf::eq("value between knots matches the derivatives at the knots", ev(c, t[k] + u * h), p0 + v0 * u + 0.5 * a0 * u2 + c3 * u3 + c4 * u4 + c5 * u5);
  vf::eq("first derivative between knots is exact", dv(c, t[k] + u * h, 1) * h, v0 + a0 * u + 3 * c3 * u2 + 4 * c4 * u3 + 5 * c5 * u4);
  vf::eq("second derivative between knots is exact", dv(c, t[k] + u * h, 2) * h * h, a0 + 6 * c3 * u + 12 * c4 * u2 + 20 * c5 * u3);
}
void fitOptions(SC& c, int n) {
  std::vector<SplineOptions> o; double total = 0.0;
  std::vector<double> p0, pT, v0, vT, a0, aT, tf;
  for (int i = 0; i < n; ++i) {
    tf.push_back(vf::grid("tf", 0.5, 2)); vf::assume(tf[i] > 0);
    p0.push_back(vf::real("p0", -3, 3)); pT.push_back(vf::real("pT", -3, 3)); v0.push_back(vf::real("v0", -3, 3)); vT.push_back(vf::real("vT", -3, 3));
    a0.push_back(vf::real("a0", -3, 3)); aT.push_back(vf::real("aT", -3, 3));
    o.push_back(SplineOptions(tf[i], p0[i], pT[i], v0[i], vT[i], a0[i], aT[i]));
    total += tf[i];
  }
  c.fitCurve(o);
  vf::eq("a curve from segment descriptions starts at zero", c.getMinTime(), 0.0);
  vf::eq("a curve from segment descriptions spans their durations", c.getMaxTime(), total);
  if (n == 0) { empty(c); return; }
  double s = 0.0;
  for (int i = 0; i < n; ++i) {
    vf::eq("segment starts at its described position", ev(c, s), p0[i]);
    vf::eq("segment starts with its described velocity", dv(c, s, 1), v0[i]);
    vf::eq("segment starts with its described acceleration", dv(c, s, 2), a0[i]);
    s += tf[i];
  }
  vf::eq("curve ends at the described position", ev(c, s), pT[n - 1]);
  vf::eq("curve ends with the described velocity", dv(c, s, 1), vT[n - 1]);
  vf::eq("curve ends with the described acceleration", dv(c, s, 2), aT[n - 1]);
}
// something fitted (or not) before
void before(SC& c) {
  const int how = vf::choose("before", 0, 3);
  if (how == 1) { Times t = anyTimes(2); std::vector<double> x(2, vf::real("old", -3, 3)); c.fitCurve(t, x); }
  if (how == 2) { std::vector<SplineOptions> o; o.push_back(SplineOptions(1.0, vf::real("old", -3, 3), 0.0, 0.0, 0.0, 0.0, 0.0)); c.fitCurve(o); }
  if (how == 3) { Times t = anyTimes(2); std::vector<double> x(2, vf::real("old", -3, 3)); c.fitCurve(t, x); c.clear(); }
}
}  // namespace
#if !defined(VF_ONLY) || VF_ONLY == 9
BDRIVER(C09, points) { SC c; before(c); fitPoints(c, vf::choose("knots", 2, vf::big(3, 4, 6, 60)), vf::choose("how", 0, 1)); }
BDRIVER(C09, derivatives) { SC c; derivativesExact(c, vf::choose("knots", 2, vf::big(3, 4, 6, 60))); }
BDRIVER(C09, options) { SC c; before(c); fitOptions(c, vf::choose("segments", 0, vf::big(2, 3, 5, 60))); }
BDRIVER(C09, orders) { SC c; before(c); refusesOrders(c); }
BDRIVER(C09, clear) { SC c; before(c); c.clear(); empty(c); if (vf::choose("refit", 0, 1)) fitPoints(c, 2, 0); }
BDRIVER(C09, fresh) { SC c; empty(c); }
#endif
#if !defined(VF_ONLY) || VF_ONLY == 10
namespace {
typedef VC::ValueType V3;
V3 any3(const char* n) { const double a = vf::real(n, -3, 3), b = vf::real(n, -3, 3), c = vf::real(n, -3, 3); return V3(a, b, c); }
void same(const char* l, const V3& a, const V3& b) { for (int i = 0; i < 3; ++i) vf::eq(l, a(i), b(i)); }
V3 ev(const VC& c, double t) { V3 v = any3("junk"); vf::require("evaluation succeeds", c.evaluate(v, t)); return v; }
V3 dv(const VC& c, double t, unsigned k) { V3 v = any3("junk"); vf::require("derivative of order 1 or 2 succeeds", c.evaluateDerivative(v, t, k)); return v; }
void empty(const VC& c) {
  vf::eq("cleared curve starts at zero", c.getMinTime(), 0.0); vf::eq("cleared curve ends at zero", c.getMaxTime(), 0.0);
  same("cleared curve is zero", ev(c, vf::grid("q", -3, 6)), V3(0.0, 0.0, 0.0));
}
std::vector<V3> anyValues(int n) { std::vector<V3> x; for (int i = 0; i < n; ++i) x.push_back(any3("x")); return x; }
void fitPoints(VC& c, int n, int how) {
  Times t = anyTimes(n); std::vector<V3> x = anyValues(n);
  V3 v0(0.0, 0.0, 0.0), a0(0.0, 0.0, 0.0), vT(0.0, 0.0, 0.0), aT(0.0, 0.0, 0.0);
  if (how == 0) c.fitCurve(t, x);
  else if (how == 1) { v0 = any3("v0"); a0 = any3("a0"); vT = any3("vT"); aT = any3("aT"); c.fitCurve(t, x, v0, a0, vT, aT); }
  else {
    std::vector<V3> v = x, a = x;
    for (int i = 0; i < n; ++i) { v[i] = any3("v"); a[i] = any3("acc"); }
    v0 = v[0]; a0 = a[0]; vT = v[n - 1]; aT = a[n - 1];
    c.fitCurve(t, x, v, a);
  }
  vf::eq("minimum time is the first fitted time", c.getMinTime(), t[0]);
  vf::eq("maximum time is the last fitted time", c.getMaxTime(), t[n - 1]);
  for (int i = 0; i < n; ++i) same("curve takes the fitted vector at the fitted time", ev(c, t[i]), x[i]);
  same("initial velocity", dv(c, t[0], 1), v0); same("initial acceleration", dv(c, t[0], 2), a0);
  same("final velocity", dv(c, t[n - 1], 1), vT); same("final acceleration", dv(c, t[n - 1], 2), aT);
}
void smooth(VC& c, int n) {
  Times t = anyTimes(n); std::vector<V3> x = anyValues(n);
  V3 v0 = any3("v0"), a0 = any3("a0"), vT = any3("vT"), aT = any3("aT");
  c.fitCurve(t, x, v0, a0, vT, aT);
  const int d = vf::choose("dim", 0, 2), k = vf::choose("interval", 0, n - 2), j = vf::choose("quarter", 1, 3);
  const double h = t[k + 1] - t[k];
  const double p0 = x[k](d), p1 = x[k + 1](d), w0 = dv(c, t[k], 1)(d) * h, b0 = dv(c, t[k], 2)(d) * h * h, w1 = dv(c, t[k + 1], 1)(d) * h, b1 = dv(c, t[k + 1], 2)(d) * h * h;
  const double u = j * 0.25, u2 = u * u, u3 = u2 * u, u4 = u3 * u, u5 = u4 * u;
  const double c3 = 10 * (p1 - p0) - 6 * w0 - 4 * w1 - 1.5 * b0 + 0.5 * b1;
  const double c4 = -15 * (p1 - p0) + 8 * w0 + 7 * w1 + 1.5 * b0 - b1;
  const double c5 = 6 * (p1 - p0) - 3 * w0 - 3 * w1 - 0.5 * b0 + 0.5 * b1;
  vf::eq("between knots the curve is the quintic with continuous derivatives", ev(c, t[k] + u * h)(d), p0 + w0 * u + 0.5 * b0 * u2 + c3 * u3 + c4 * u4 + c5 * u5);
  vf::eq("first derivative between knots is exact", dv(c, t[k] + u * h, 1)(d) * h, w0 + b0 * u + 3 * c3 * u2 + 4 * c4 * u3 + 5 * c5 * u4);
  vf::eq("second derivative between knots is exact", dv(c, t[k] + u * h, 2)(d) * h * h, b0 + 6 * c3 * u + 12 * c4 * u2 + 20 * c5 * u3);
}
void before(VC& c) {
  const int how = vf::choose("before", 0, 2);
  if (how >= 1) { Times t = anyTimes(2); std::vector<V3> x = anyValues(2); c.fitCurve(t, x); }
  if (how == 2) c.clear();
}
}  // namespace
BDRIVER(C10, points) { VC c; before(c); fitPoints(c, vf::choose("knots", 2, vf::big(3, 3, 6, 40)), vf::choose("how", 0, 2)); }
BDRIVER(C10, smooth) { VC c; smooth(c, vf::choose("knots", 2, vf::big(3, 3, 6, 40))); }
BDRIVER(C10, orders) {
  VC c; before(c); V3 v = any3("junk"); const int o = vf::choose("order", 0, 4);
  vf::require("derivative orders other than 1 and 2 are refused", c.evaluateDerivative(v, vf::grid("q", -3, 6), o == 1 || o == 2 ? o + 4 : o) == false);
}
BDRIVER(C10, clear) { VC c; before(c); c.clear(); empty(c); if (vf::choose("refit", 0, 1)) fitPoints(c, 2, 0); }
BDRIVER(C10, fresh) { VC c; empty(c); }
#endif
