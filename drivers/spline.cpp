// C01-C03: one polynomial spline.  Fixed shape, loop-free inputs: the symbolic run is complete.
#include "vf.h"
#include <curves/PolynomialSpline.hpp>
using namespace curves;
namespace {
template <int N> double pos(const double* a, double t) { double s = 0.0, p = 1.0; for (int i = 0; i <= N; ++i) { s += a[i] * p; p *= t; } return s; }
template <int N> double vel(const double* a, double t) { double s = 0.0, p = 1.0; for (int i = 1; i <= N; ++i) { s += i * a[i] * p; p *= t; } return s; }
template <int N> double acc(const double* a, double t) { double s = 0.0, p = 1.0; for (int i = 2; i <= N; ++i) { s += i * (i - 1) * a[i] * p; p *= t; } return s; }
// ascending powers a[i]; the spline stores the highest power first
template <int N> void fill(typename PolynomialSpline<N>::SplineCoefficients& c, double* a) {
  for (int i = 0; i <= N; ++i) { a[i] = vf::real("a", -3, 3); c[N - i] = a[i]; }
}

template <int N> void boundary(int how) {
  const double tf = vf::real("tf", 0.3, 4); vf::assume(tf > 0);
  const double p0 = vf::real("p0", -5, 5), pT = vf::real("pT", -5, 5), v0 = vf::real("v0", -5, 5), vT = vf::real("vT", -5, 5),
               a0 = vf::real("a0", -5, 5), aT = vf::real("aT", -5, 5);
  SplineOptions o(tf, p0, pT, v0, vT, a0, aT);
  PolynomialSpline<N> s;
  if (how == 0) s = PolynomialSpline<N>(o);
  if (how == 1) { vf::require("compute reports success", s.computeCoefficients(o)); }
  if (how == 2) s = PolynomialSpline<N>(std::move(o));
  if (how >= 3) {  // recompute a spline that already held something
    typename PolynomialSpline<N>::SplineCoefficients c; double a[N + 1]; fill<N>(c, a);
    s.setCoefficientsAndDuration(c, vf::real("oldDuration", 0, 4));
    if (how == 3) vf::require("recompute reports success", s.computeCoefficients(std::move(o)));
    if (how == 4) {
      SplineOptions q; q.tf_ = tf; q.pos0_ = p0; q.posT_ = pT; q.vel0_ = v0; q.velT_ = vT; q.acc0_ = a0; q.accT_ = aT;
      vf::require("recompute reports success", s.computeCoefficients(q));
      vf::eq("options not modified by a fit", q.tf_, tf);
    }
  }
  vf::eq("duration is the requested one", s.getSplineDuration(), tf);
  vf::eq("start position", s.getPositionAtTime(0.0), p0);
  vf::eq("end position", s.getPositionAtTime(tf), pT);
  if (N >= 2) vf::eq("start velocity", s.getVelocityAtTime(0.0), v0);
  if (N >= 3) vf::eq("end velocity", s.getVelocityAtTime(tf), vT);
  if (N >= 4) vf::eq("start acceleration", s.getAccelerationAtTime(0.0), a0);
  if (N >= 5) vf::eq("end acceleration", s.getAccelerationAtTime(tf), aT);
  double a[N + 1]; for (int i = 0; i <= N; ++i) a[i] = s.getCoefficients()[N - i];
  vf::eq("start position of the polynomial", pos<N>(a, 0.0), p0);
  vf::eq("end position of the polynomial", pos<N>(a, tf), pT);
  if (N >= 2) vf::eq("start slope of the polynomial", vel<N>(a, 0.0), v0);
  if (N >= 3) vf::eq("end slope of the polynomial", vel<N>(a, tf), vT);
  if (N >= 4) vf::eq("start curvature of the polynomial", acc<N>(a, 0.0), a0);
  if (N >= 5) vf::eq("end curvature of the polynomial", acc<N>(a, tf), aT);
  if (how == 2 || how == 3) {  // moved options give the same curve as copied ones
    SplineOptions q(tf, p0, pT, v0, vT, a0, aT);
    PolynomialSpline<N> r(q);
    for (int i = 0; i <= N; ++i) vf::eq("same curve however the options are handed over", s.getCoefficients()[i], r.getCoefficients()[i]);
  }
}

template <int N> void evaluation(int how) {
  VF_TIGHT(1e-9);
  typedef typename PolynomialSpline<N>::SplineCoefficients C;
  C c; double a[N + 1]; fill<N>(c, a);
  const double d = vf::real("duration", 0, 4); vf::assume(d >= 0);
  const double t = vf::real("t", -1, 5);
  PolynomialSpline<N> s;
  if (how == 0) s = PolynomialSpline<N>(c, d);
  if (how == 1) s.setCoefficientsAndDuration(c, d);
  if (how == 2) { C k = c; s = PolynomialSpline<N>(std::move(k), d); }
  if (how == 3) { s.setCoefficientsAndDuration(C(), d); C* p = s.getCoefficientsPtr(); for (int i = 0; i <= N; ++i) (*p)[i] = c[i]; }
  if (how == 4) { C e; double b[N + 1]; fill<N>(e, b); PolynomialSpline<N> r(e, vf::real("d2", 0, 4)); r.setCoefficientsAndDuration(c, d); PolynomialSpline<N> q(r); s = q; }
  vf::eq("duration reads back", s.getSplineDuration(), d);
  for (int i = 0; i <= N; ++i) vf::eq("coefficients read back", s.getCoefficients()[i], c[i]);
  const double tc = t < 0 ? 0 : (t > d ? d : t);
  vf::eq("position is the polynomial at the clamped time", s.getPositionAtTime(t), pos<N>(a, tc));
  vf::eq("velocity is the derivative at the clamped time", s.getVelocityAtTime(t), vel<N>(a, tc));
  vf::eq("acceleration is the second derivative at the clamped time", s.getAccelerationAtTime(t), acc<N>(a, tc));
}

template <int N> struct TV {
  typedef PolynomialSpline<N> S;
  typedef typename S::EigenTimeVectorType V;
  double a[N + 1]; V old; PolynomialSpline<N> s; double t, d, P, Q, A, P0, Q0, A0, O;
  TV() {
    VF_TIGHT(1e-9);
    typename S::SplineCoefficients c; fill<N>(c, a);
    d = vf::real("duration", 0.5, 4); t = vf::real("t", 0, 2); vf::assume(t >= 0); vf::assume(t <= d);
    for (int i = 0; i <= N; ++i) old(i) = vf::real("old", -3, 3);
    s.setCoefficientsAndDuration(c, d);
    vf::eq("evaluation is the polynomial", s.getPositionAtTime(t), pos<N>(a, t)); vf::eq("evaluation is the derivative", s.getVelocityAtTime(t), vel<N>(a, t)); vf::eq("evaluation is the second derivative", s.getAccelerationAtTime(t), acc<N>(a, t));
    P = s.getPositionAtTime(t); Q = s.getVelocityAtTime(t); A = s.getAccelerationAtTime(t);
    P0 = s.getPositionAtTime(0.0); Q0 = s.getVelocityAtTime(0.0); A0 = s.getAccelerationAtTime(0.0);
    O = dot(old);
  }
  template <typename M> double dot(const M& v) { double r = 0.0; for (int i = 0; i <= N; ++i) r += v(i) * a[N - i]; return r; }
};
// overwriting accessors into a plain vector, through Eigen::Ref
template <int N> void refVectors() {
  TV<N> x; typedef typename TV<N>::S S; typedef typename TV<N>::V V; typedef Eigen::Ref<V> RV;
  { V v = x.old; S::getTimeVector(RV(v), x.t); vf::eq("getTimeVector(Ref)", x.dot(v), x.P); }
  { V v = x.old; S::getDTimeVector(v, x.t); vf::eq("getDTimeVector", x.dot(v), x.Q); }
  { V v = x.old; S::getDDTimeVector(v, x.t); vf::eq("getDDTimeVector", x.dot(v), x.A); }
  { V v = x.old; S::getTimeVectorAtZero(RV(v)); vf::eq("getTimeVectorAtZero(Ref)", x.dot(v), x.P0); }
  { V v = x.old; S::getDTimeVectorAtZero(v); vf::eq("getDTimeVectorAtZero", x.dot(v), x.Q0); }
  { V v = x.old; S::getDDTimeVectorAtZero(v); vf::eq("getDDTimeVectorAtZero", x.dot(v), x.A0); }
}
// overwriting accessors into a plain vector
template <int N> void getVectors() {
  TV<N> x; typedef typename TV<N>::S S; typedef typename TV<N>::V V;
  { V v = x.old; S::getTimeVector(v, x.t); vf::eq("getTimeVector", x.dot(v), x.P); }
  { V v = x.old; S::getDiffTimeVector(v, x.t); vf::eq("getDiffTimeVector", x.dot(v), x.Q); }
  { V v = x.old; S::getDDiffTimeVector(v, x.t); vf::eq("getDDiffTimeVector", x.dot(v), x.A); }
  { V v = x.old; S::getTimeVectorAtZero(v); vf::eq("getTimeVectorAtZero", x.dot(v), x.P0); }
  { V v = x.old; S::getDiffTimeVectorAtZero(v); vf::eq("getDiffTimeVectorAtZero", x.dot(v), x.Q0); }
  { V v = x.old; S::getDDiffTimeVectorAtZero(v); vf::eq("getDDiffTimeVectorAtZero", x.dot(v), x.A0); }
}
// accumulating accessors
template <int N> void addVectors() {
  TV<N> x; typedef typename TV<N>::S S; typedef typename TV<N>::V V;
  { V v = x.old; S::addTimeVector(v, x.t); vf::eq("addTimeVector", x.dot(v), x.O + x.P); }
  { V v = x.old; S::addDiffTimeVector(v, x.t); vf::eq("addDiffTimeVector", x.dot(v), x.O + x.Q); }
  { V v = x.old; S::addDDiffTimeVector(v, x.t); vf::eq("addDDiffTimeVector", x.dot(v), x.O + x.A); }
  { V v = x.old; S::addTimeVectorAtZero(v); vf::eq("addTimeVectorAtZero", x.dot(v), x.O + x.P0); }
  { V v = x.old; S::addDiffTimeVectorAtZero(v); vf::eq("addDiffTimeVectorAtZero", x.dot(v), x.O + x.Q0); }
  { V v = x.old; S::addDDiffTimeVectorAtZero(v); vf::eq("addDDiffTimeVectorAtZero", x.dot(v), x.O + x.A0); }
}
// into a row of a larger matrix: the row is set, its surroundings are untouched
template <int N> void blockVectors() {
  TV<N> x; typedef typename TV<N>::S S;
  Eigen::MatrixXd m(2, N + 3);
  const int which = vf::choose("accessor", 0, 11);
  const double fillv = vf::real("fill", -3, 3);
  for (int i = 0; i < 2; ++i) for (int j = 0; j < N + 3; ++j) m(i, j) = fillv;
  for (int i = 0; i <= N; ++i) m(1, 1 + i) = x.old(i);
  double want = 0.0; const bool add = which >= 6; const int k = which % 6;
  if (which == 0) S::getTimeVector(m.block<1, N + 1>(1, 1), x.t);
  if (which == 1) S::getDiffTimeVector(m.block<1, N + 1>(1, 1), x.t);
  if (which == 2) S::getDDiffTimeVector(m.block<1, N + 1>(1, 1), x.t);
  if (which == 3) S::getTimeVectorAtZero(m.block<1, N + 1>(1, 1));
  if (which == 4) S::getDiffTimeVectorAtZero(m.block<1, N + 1>(1, 1));
  if (which == 5) S::getDDiffTimeVectorAtZero(m.block<1, N + 1>(1, 1));
  if (which == 6) S::addTimeVector(m.block<1, N + 1>(1, 1), x.t);
  if (which == 7) S::addDiffTimeVector(m.block<1, N + 1>(1, 1), x.t);
  if (which == 8) S::addDDiffTimeVector(m.block<1, N + 1>(1, 1), x.t);
  if (which == 9) S::addTimeVectorAtZero(m.block<1, N + 1>(1, 1));
  if (which == 10) S::addDiffTimeVectorAtZero(m.block<1, N + 1>(1, 1));
  if (which == 11) S::addDDiffTimeVectorAtZero(m.block<1, N + 1>(1, 1));
  want = k == 0 ? x.P : k == 1 ? x.Q : k == 2 ? x.A : k == 3 ? x.P0 : k == 4 ? x.Q0 : x.A0;
  if (add) want += x.O;
  double got = 0.0;
  for (int i = 0; i <= N; ++i) got += m(1, 1 + i) * x.a[N - i];
  vf::eq("time vector written into a matrix row", got, want);
  for (int j = 0; j < N + 3; ++j) vf::eq("other matrix entries untouched", m(0, j), fillv);
  vf::eq("other matrix entries untouched", m(1, 0), fillv);
  vf::eq("other matrix entries untouched", m(1, N + 2), fillv);
}
}  // namespace
#define ORDERS(prop, name, call) \
  DRIVER(prop, name##1) { enum { N = 1 }; call; } DRIVER(prop, name##2) { enum { N = 2 }; call; } \
  DRIVER(prop, name##3) { enum { N = 3 }; call; } DRIVER(prop, name##4) { enum { N = 4 }; call; } \
  DRIVER(prop, name##5) { enum { N = 5 }; call; }
ORDERS(C01, boundary, boundary<N>(vf::choose("how", 0, 4)))
ORDERS(C02, evaluation, evaluation<N>(vf::choose("how", 0, 4)))
ORDERS(C03, refVectors, refVectors<N>())
ORDERS(C03, getVectors, getVectors<N>())
ORDERS(C03, addVectors, addVectors<N>())
ORDERS(C03, blockVectors, blockVectors<N>())
