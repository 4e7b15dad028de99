// C04-C08: sequences of splines.  Bounded number of segments / operations, otherwise arbitrary
// real inputs.
#include "vf.h"
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
#include <vector>
using namespace curves;
namespace {
template <int N> PolynomialSpline<N> anySegment(const char* a, const char* d) {
  typename PolynomialSpline<N>::SplineCoefficients c;
  for (int i = 0; i <= N; ++i) c[i] = vf::real(a, -3, 3);
  const double dur = vf::grid(d, 0, 3); vf::assume(dur >= 0);
  return PolynomialSpline<N>(c, dur);
}
template <int N> void add(PolynomialSplineContainer<N>& c, const PolynomialSpline<N>& s, int how) {
  bool ok;
  if (how == 0) ok = c.addSpline(s);
  else { PolynomialSpline<N> t(s); ok = c.addSpline(std::move(t)); }
  vf::require("adding a segment reports success", ok);
}

// exact derivatives from the stored coefficients (highest power first)
template <int N> double slope(const PolynomialSpline<N>& s, double t) {
  double r = 0.0, p = 1.0; for (int i = 1; i <= N; ++i) { r += i * s.getCoefficients()[N - i] * p; p *= t; } return r;
}
template <int N> double curvature(const PolynomialSpline<N>& s, double t) {
  double r = 0.0, p = 1.0; for (int i = 2; i <= N; ++i) { r += i * (i - 1) * s.getCoefficients()[N - i] * p; p *= t; } return r;
}
// ---------------------------------------------------------------- C04
template <int N> void lookup(int maxn) {
  const int n = vf::choose("segments", 0, maxn);
  PolynomialSplineContainer<N> c;
  vf::require("new sequence is empty", c.isEmpty());
  std::vector<PolynomialSpline<N>> seg;
  double total = 0.0;
  const int how = vf::choose("how", 0, 1);
  std::vector<double> start;
  for (int i = 0; i < n; ++i) {
    PolynomialSpline<N> s = anySegment<N>("a", "d");
    seg.push_back(s); start.push_back(total);
    add(c, s, how);
    total += s.getSplineDuration();
  }
  const double t = vf::grid("t", -2, vf::native() ? total + 2 : 9);
  vf::eq("total duration is the sum", c.getContainerDuration(), total);
  vf::require("as many segments as added", (int)c.getSplines().size() == n && c.isEmpty() == (n == 0));
  double off = 0.0;
  const int idx = c.getActiveSplineIndexAtTime(t, off);
  const double p = c.getPositionAtTime(t), v = c.getVelocityAtTime(t), a = c.getAccelerationAtTime(t);
  if (n == 0) {
    vf::require("lookup in an empty sequence gives -1", idx == -1);
    vf::eq("empty position", p, 0.0); vf::eq("empty velocity", v, 0.0); vf::eq("empty acceleration", a, 0.0);
    vf::eq("empty end position", c.getEndPosition(), 0.0); vf::eq("empty end velocity", c.getEndVelocity(), 0.0); vf::eq("empty end acceleration", c.getEndAcceleration(), 0.0);
    return;
  }
  int k = n - 1;
  if (t < 0) k = 0;
  else for (int i = 0; i < n; ++i) if (t >= start[i] && t < start[i] + seg[i].getSplineDuration()) { k = i; break; }
  vf::require("lookup returns the segment containing the time", idx == k);
  vf::eq("lookup returns the start of that segment", off, start[k]);
  const double local = t - start[k];
  vf::eq("position of the right segment at the local time", p, seg[k].getPositionAtTime(local));
  vf::eq("velocity of the right segment at the local time", v, seg[k].getVelocityAtTime(local));
  vf::eq("acceleration of the right segment at the local time", a, seg[k].getAccelerationAtTime(local));
  const double last = seg[n - 1].getSplineDuration();
  vf::eq("end position", c.getEndPosition(), seg[n - 1].getPositionAtTime(last));
  vf::eq("end velocity", c.getEndVelocity(), seg[n - 1].getVelocityAtTime(last));
  vf::eq("end acceleration", c.getEndAcceleration(), seg[n - 1].getAccelerationAtTime(last));
  vf::eq("end position agrees with evaluation at the end", c.getPositionAtTime(total), c.getEndPosition());
  vf::eq("end velocity agrees with evaluation at the end", c.getVelocityAtTime(total), c.getEndVelocity());
  vf::eq("end acceleration agrees with evaluation at the end", c.getAccelerationAtTime(total), c.getEndAcceleration());
  for (int i = 0; i < n; ++i) {
    vf::eq("segments are stored as added", c.getSpline(i)->getSplineDuration(), seg[i].getSplineDuration());
    for (int j = 0; j <= N; ++j) vf::eq("segments are stored as added", c.getSplines()[i].getCoefficients()[j], seg[i].getCoefficients()[j]);
  }
}

// ---------------------------------------------------------------- fitting
struct Knots {
  std::vector<double> t, x; double v0, a0, vT, aT;
  explicit Knots(int n) {  // n >= 2 knots, strictly increasing
    double s = vf::grid("t0", -3, 3);
    for (int i = 0; i < n; ++i) {
      if (i > 0) { const double h = vf::grid("h", 0.5, 2); vf::assume(h > 0); s += h; }
      t.push_back(s); x.push_back(vf::real("x", -3, 3));
    }
    v0 = vf::real("v0", -3, 3); a0 = vf::real("a0", -3, 3); vT = vf::real("vT", -3, 3); aT = vf::real("aT", -3, 3);
  }
};
template <int N> void prior(PolynomialSplineContainer<N>& c, int how) {  // arbitrary earlier content
  if (how == 1) { add(c, anySegment<N>("oldA", "oldD"), 0); c.setContainerTime(vf::grid("oldT", -1, 4)); }
  if (how == 2) { add(c, anySegment<N>("oldA", "oldD"), 0); add(c, anySegment<N>("oldA", "oldD"), 0); const double dt = vf::grid("dt", 0, 3); vf::assume(dt >= 0); c.advance(dt); }
}
template <int N> void checkFit(PolynomialSplineContainer<N>& c, const Knots& k, bool vel, bool acc, bool smooth) {
  const int n = (int)k.t.size() - 1;
  vf::require("one segment per knot interval", (int)c.getSplines().size() == n);
  if ((int)c.getSplines().size() != n) return;
  vf::eq("total duration spans the knots", c.getContainerDuration(), k.t[n] - k.t[0]);
  for (int i = 0; i < n; ++i) {
    const PolynomialSpline<N>& s = c.getSplines()[i];
    const double h = s.getSplineDuration();
    vf::eq("segment duration", h, k.t[i + 1] - k.t[i]);
    vf::eq("segment starts at its knot", s.getPositionAtTime(0.0), k.x[i]);
    vf::eq("segment ends at its knot", s.getPositionAtTime(h), k.x[i + 1]);
    if (smooth && i + 1 < n) {
      const PolynomialSpline<N>& r = c.getSplines()[i + 1];
      vf::eq("velocity continuous at the knot", slope<N>(s, h), slope<N>(r, 0.0));
      vf::eq("acceleration continuous at the knot", curvature<N>(s, h), curvature<N>(r, 0.0));
    }
  }
  const double T = k.t[n] - k.t[0];
  if (vel) {
    vf::eq("initial velocity", slope<N>(c.getSplines()[0], 0.0), k.v0);
    vf::eq("final velocity", slope<N>(c.getSplines()[n - 1], k.t[n] - k.t[n - 1]), k.vT);
    vf::eq("initial velocity query", c.getVelocityAtTime(0.0), k.v0);
    vf::eq("final velocity query", c.getVelocityAtTime(T), k.vT);
  }
  if (acc) {
    vf::eq("initial acceleration", curvature<N>(c.getSplines()[0], 0.0), k.a0);
    vf::eq("final acceleration", curvature<N>(c.getSplines()[n - 1], k.t[n] - k.t[n - 1]), k.aT);
    vf::eq("initial acceleration query", c.getAccelerationAtTime(0.0), k.a0);
    vf::eq("final acceleration query", c.getAccelerationAtTime(T), k.aT);
  }
  for (int i = 0; i <= n; ++i) vf::eq("curve passes through the knot", c.getPositionAtTime(k.t[i] - k.t[0]), k.x[i]);
}
template <int N> void linear(PolynomialSplineContainer<N>& c, const Knots& k) {
  const int n = (int)k.t.size() - 1;
  const double u = vf::grid("u", -4, vf::native() ? k.t[n] + 2 : 12);  // absolute time
  int i = n - 1;
  for (int j = n - 1; j >= 0; --j) if (u < k.t[j + 1]) i = j;
  double w = (u - k.t[i]) / (k.t[i + 1] - k.t[i]);
  if (w < 0) w = 0;
  if (w > 1) w = 1;
  vf::eq("piecewise linear interpolant", c.getPositionAtTime(u - k.t[0]), k.x[i] + w * (k.x[i + 1] - k.x[i]));
}
// form 6: six-argument, 4: four-argument, 2: positions only
template <int N> bool fit(PolynomialSplineContainer<N>& c, const std::vector<double>& t, const std::vector<double>& x, double v0, double a0, double vT, double aT, int form) {
  if (form == 6) return c.setData(t, x, v0, a0, vT, aT);
  if (form == 4) return c.setData(t, x, v0, vT);
  return c.setData(t, x);
}
template <int N> void fitAll(int form, int maxSegments, int priors) {
  const int n = vf::choose("intervals", 1, maxSegments);
  PolynomialSplineContainer<N> c;
  prior(c, vf::choose("prior", 0, priors));
  Knots k(n + 1);
  vf::require("fit succeeds", fit(c, k.t, k.x, k.v0, k.a0, k.vT, k.aT, form));
  const bool vel = form >= 4 && N >= 3;
  const bool acc = form == 6 && (N >= 5 || (N == 4 && n >= 2));
  checkFit(c, k, vel, acc, vel);
  if (!vel) linear(c, k);
}

// ---------------------------------------------------------------- C07
template <int N> void isEmptyNow(PolynomialSplineContainer<N>& c) {
  vf::require("rejected fit leaves no segment", c.isEmpty() && c.getSplines().size() == 0);
  vf::eq("rejected fit leaves zero duration", c.getContainerDuration(), 0.0);
  vf::eq("rejected fit leaves zero time", c.getContainerTime(), 0.0);
  vf::eq("rejected fit leaves position zero", c.getPosition(), 0.0);
}
template <int N> void rejected() {
  PolynomialSplineContainer<N> c;
  prior(c, vf::choose("prior", 0, 2));
  const int form = 2 * vf::choose("form", 1, 3);
  const int n = vf::choose("knots", 0, vf::big(3, 4, 6, 80));
  std::vector<double> t, x; bool increasing = true;
  for (int i = 0; i < n; ++i) {
    t.push_back(vf::grid("t", -3, 3)); x.push_back(vf::real("x", -3, 3));
    if (i > 0 && !(t[i] > t[i - 1])) increasing = false;
  }
  vf::assume(n < 2 || !increasing);
  const bool ok = fit(c, t, x, vf::real("v0", -3, 3), vf::real("a0", -3, 3), vf::real("vT", -3, 3), vf::real("aT", -3, 3), form);
  vf::require("invalid knots are rejected", !ok);
  isEmptyNow(c);
  if (vf::choose("again", 0, 1)) {  // still usable afterwards
    add(c, anySegment<N>("a", "d"), 0);
    vf::require("usable after a rejected fit", c.getSplines().size() == 1);
    vf::eq("usable after a rejected fit", c.getPosition(), c.getPositionAtTime(0.0));
  }
}
template <int N> void replaced(int maxSegments) {
  PolynomialSplineContainer<N> c;
  prior(c, vf::choose("prior", 0, 2));
  const int form = 2 * vf::choose("form", 1, 3);
  const int n = vf::choose("intervals", 1, maxSegments);
  Knots k(n + 1);
  const bool ok = fit(c, k.t, k.x, k.v0, k.a0, k.vT, k.aT, form);
  vf::require("valid fit succeeds", ok);
  vf::require("a fit replaces the earlier segments", (int)c.getSplines().size() == n && !c.isEmpty());
  vf::eq("a fit replaces the earlier duration", c.getContainerDuration(), k.t[n] - k.t[0]);
  vf::eq("a fit rewinds playback", c.getContainerTime(), 0.0);
  vf::require("a fit rewinds playback", c.getActiveSplineIndex() == 0);
  vf::eq("playback starts at the first knot", c.getPosition(), k.x[0]);
}

// ---------------------------------------------------------------- C08
template <int N> void agree(const PolynomialSplineContainer<N>& c, double total, double now) {
  vf::eq("total duration is the sum of the segment durations", c.getContainerDuration(), total);
  vf::eq("playback time", c.getContainerTime(), now);
  vf::eq("current position agrees with evaluation", c.getPosition(), c.getPositionAtTime(now));
  vf::eq("current velocity agrees with evaluation", c.getVelocity(), c.getVelocityAtTime(now));
  vf::eq("current acceleration agrees with evaluation", c.getAcceleration(), c.getAccelerationAtTime(now));
}
template <int N> void history(int initial, int ops, bool fits) {
  PolynomialSplineContainer<N> c;
  double total = 0.0, now = 0.0; int count = 0;
  const int m = vf::choose("initial", 0, initial);
  for (int i = 0; i < m; ++i) { PolynomialSpline<N> s = anySegment<N>("a", "d"); add(c, s, 0); total += s.getSplineDuration(); ++count; }
  agree(c, total, now);
  for (int i = 0; i < ops; ++i) {
    const int op = vf::choose("op", 0, fits ? 5 : 4);
    if (op == 0) {
      const double dt = vf::grid("dt", 0, 4); vf::assume(dt >= 0);
      const bool can = count > 0 && now < total;
      vf::require("advance returns whether the end was not yet reached", c.advance(dt) == can);
      if (can) now += dt;
    } else if (op == 1) {
      const double t = vf::grid("t", -2, 8);
      c.setContainerTime(t); now = t;
    } else if (op == 2) {
      PolynomialSpline<N> s = anySegment<N>("a", "d"); add(c, s, vf::native() ? vf::choose("how", 0, 1) : 0); total += s.getSplineDuration(); ++count;
    } else if (op == 3) {
      vf::require("rewinding succeeds", c.resetTime()); now = 0.0;
    } else if (op == 4) {
      vf::require("clearing succeeds", c.reset()); now = 0.0; total = 0.0; count = 0;
      vf::require("clearing empties the sequence", c.isEmpty());
    } else {
      const int n = vf::choose("intervals", 1, 2);
      std::vector<double> t, x; double s = 0.0;
      for (int j = 0; j <= n; ++j) { if (j) { const double h = vf::grid("h", 0.5, 2); vf::assume(h > 0); s += h; } t.push_back(s); x.push_back(vf::real("x", -3, 3)); }
      vf::require("fitting succeeds", fit(c, t, x, 0.0, 0.0, 0.0, 0.0, 2 * vf::choose("form", 1, 3)));
      now = 0.0; total = s; count = n;
    }
    vf::require("number of segments", (int)c.getSplines().size() == count);
    agree(c, total, now);
  }
}
}  // namespace
#define BORDERS(prop, name, call) \
  BDRIVER(prop, name##1) { enum { N = 1 }; call; } BDRIVER(prop, name##2) { enum { N = 2 }; call; } \
  BDRIVER(prop, name##3) { enum { N = 3 }; call; } BDRIVER(prop, name##4) { enum { N = 4 }; call; } \
  BDRIVER(prop, name##5) { enum { N = 5 }; call; }
#if !defined(VF_ONLY) || VF_ONLY == 4
BORDERS(C04, lookup, lookup<N>(vf::big(3, 4, 8, 300)))
#endif
#if !defined(VF_ONLY) || VF_ONLY == 5
BDRIVER(C05, quintic) { fitAll<5>(6, vf::big(3, 4, 6, 80), 0); }
BDRIVER(C05, quinticRefit) { fitAll<5>(6, vf::big(1, 2, 4, 80), 2); }
#endif
#if !defined(VF_ONLY) || VF_ONLY == 6
BORDERS(C06, positions, fitAll<N>(2, vf::big(3, 4, 8, 80), 0))
BORDERS(C06, velocities, fitAll<N>(4, vf::big(2, 3, 6, 80), 0))
BDRIVER(C06, full1) { fitAll<1>(6, vf::big(3, 4, 8, 80), 0); }
BDRIVER(C06, full2) { fitAll<2>(6, vf::big(3, 4, 8, 80), 0); }
BDRIVER(C06, full3) { fitAll<3>(6, vf::big(2, 3, 6, 80), 0); }
BDRIVER(C06, full4) { fitAll<4>(6, vf::big(2, 3, 6, 80), 0); }
#endif
#if !defined(VF_ONLY) || VF_ONLY == 7
BORDERS(C07, rejected, rejected<N>())
BORDERS(C07, replaced, replaced<N>(vf::big(2, 3, 6, 80)))
#endif
#if !defined(VF_ONLY) || VF_ONLY == 8
BDRIVER(C08, history1) { history<1>(vf::big(2, 3, 4, 20), vf::big(2, 3, 12, 20), false); }
BDRIVER(C08, history3) { history<3>(vf::big(1, 2, 4, 20), vf::big(2, 2, 12, 20), true); }
BDRIVER(C08, history5) { history<5>(vf::big(1, 1, 4, 20), vf::big(1, 2, 12, 20), true); }
#endif
