"""Planted bugs: edits (file, old, new), demo program, notes."""
PRE = '''#include <cmath>
#include <cstdio>
#include <vector>
#include <string>
static int bad = 0;
static void ok(bool c, const char* w) { if (!c) { std::printf("FAILED: %s\\n", w); bad = 1; } }
static void near(double a, double b, const char* w) { ok(std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a) + std::fabs(b)), w); }
'''
I = 'curves/include/curves/'
TR = ['curves/src/polynomial_splines_traits.cpp']
KG = ['curves/src/KeyGenerator.cpp']
TPP = I + 'PolynomialSplineContainer.tpp'
CON = '#include <curves/PolynomialSplineContainer.hpp>\n#include <curves/polynomial_splines_containers.hpp>\nusing namespace curves;\n'
CUR = '#include <curves/PolynomialSplineScalarCurve.hpp>\n#include <curves/PolynomialSplineVectorSpaceCurve.hpp>\nusing namespace curves;\n'
MAN = '#include <curves/LocalSupport2CoefficientManager.hpp>\nusing namespace curves;\ntypedef LocalSupport2CoefficientManager<double> M;\n'
HER = '#include <curves/CubicHermiteE3Curve.hpp>\nusing namespace curves;\ntypedef CubicHermiteE3Curve C; typedef C::ValueType P; typedef C::DerivativeType D;\n'
HS = ['curves/src/CubicHermiteE3Curve.cpp'] + KG
SEEDS = []
def S(id, prop, edits, src, demo, needs, breaks, **k): SEEDS.append(dict(id=id, property=prop, edits=edits, src=src, demo=demo, needs=needs, breaks=breaks, **k))

S('b01-quadratic-scale', 'C01', [(I + 'polynomial_splines_traits.hpp', 'opts.posT_ - opts.pos0_ - opts.vel0_*opts.tf_)', 'opts.posT_ - opts.pos0_ - opts.vel0_)')], TR,
  '#include <curves/polynomial_splines.hpp>\nusing namespace curves;\nint main() { for (double T : {0.5, 1.0, 2.0}) { PolynomialSplineQuadratic s(SplineOptions(T, 1, 4, 2, 0, 0, 0)); near(s.getPositionAtTime(T), 4, "end position"); near(s.getPositionAtTime(0), 1, "start"); near(s.getVelocityAtTime(0), 2, "start velocity"); } return bad; }\n',
  'an order-2 spline with non-zero start velocity and a duration other than 1', 'end position of order-2 splines')
S('b01-quartic-velocity', 'C01', [(I + 'polynomial_splines_traits.hpp', 'return { 4.0*boost::math::pow<3>(tk), 3.0*boost::math::pow<2>(tk), 2.0*tk, 1.0, 0.0};', 'return { 4.0*boost::math::pow<3>(tk), 3.0*boost::math::pow<2>(tk), 2.0*boost::math::pow<2>(tk), 1.0, 0.0};')], TR,
  '#include <curves/polynomial_splines.hpp>\nusing namespace curves;\nint main() { for (double T : {1.0, 2.0}) { PolynomialSpline<4> s(SplineOptions(T, 1, 4, 2, 3, 1, 0)); near(s.getPositionAtTime(T), 4, "end position"); const double e = 1e-5; near((s.getPositionAtTime(T) - s.getPositionAtTime(T - e)) / e / 1000, 3 / 1000., "end velocity"); near(s.getVelocityAtTime(T/2)/100, (s.getPositionAtTime(T/2+e) - s.getPositionAtTime(T/2-e)) / (2*e)/100, "velocity"); } return bad; }\n',
  'an order-4 spline with duration other than 0 or 1', 'the slope of order-4 splines and hence the computed boundary velocity')
S('b02-acceleration-clamp', 'C02', [(I + 'PolynomialSpline.hpp', 'SplineImplementation::ddtau(std::max(0.0, std::min(tk, duration_))).begin(), 0.0);', 'SplineImplementation::ddtau(std::max(0.0, tk)).begin(), 0.0);')], TR,
  '#include <curves/polynomial_splines.hpp>\nusing namespace curves;\nint main() { PolynomialSpline<5>::SplineCoefficients c = {{1, 2, 3, 4, 5, 6}}; PolynomialSpline<5> s(c, 2.0); near(s.getAccelerationAtTime(3.0), s.getAccelerationAtTime(2.0), "acceleration is clamped at the end"); near(s.getAccelerationAtTime(-3.0), 8, "acceleration at start"); return bad; }\n',
  'an acceleration query past the end of a spline of order 3 or more', 'time clamping of the acceleration')
S('b03-add-overwrites', 'C03', [(I + 'PolynomialSpline.hpp', 'const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) +=\n        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtauZero).data());', 'const_cast<Eigen::MatrixBase<Derived>&>(ddtimeVec) =\n        Eigen::Map<const EigenTimeVectorType>((SplineImplementation::ddtauZero).data());')], TR,
  '#include <curves/polynomial_splines.hpp>\nusing namespace curves;\nint main() { Eigen::Matrix<double,1,6> v; v << 1,2,3,4,5,6; PolynomialSpline<5>::addDDiffTimeVectorAtZero(v); near(v(0), 1, "kept"); near(v(3), 6, "added"); near(v(5), 6, "kept"); return bad; }\n',
  'adding the acceleration row at zero to a row that is not zero', 'the adding variant replaces its output')
S('b04-many-segments', 'C04', [(TPP, '  timeOffset = 0.0;\n\n  for (size_t i = 0;', '  timeOffset = 0.0;\n\n  if (splines_.size() > 40) {\n    // Bisection over the start times.\n    std::vector<double> starts(1, 0.0);\n    for (size_t i = 0; i + 1 < splines_.size(); i++) starts.push_back(starts.back() + splines_[i].getSplineDuration());\n    size_t lo = 0, hi = starts.size();\n    while (hi - lo > 1) { const size_t mid = (lo + hi)/2; if (starts[mid] < t) lo = mid; else hi = mid; }\n    timeOffset = starts[lo];\n    return lo;\n  }\n\n  for (size_t i = 0;')], TR,
  CON + 'int main() { for (int n : {3, 60}) { PolynomialSplineContainer<1> c; for (int i = 0; i < n; ++i) { PolynomialSpline<1>::SplineCoefficients a = {{1.0 * i, 10.0 * i}}; c.addSpline(PolynomialSpline<1>(a, 1.0)); } near(c.getPositionAtTime(2.0), 20, "boundary belongs to the later segment"); near(c.getPositionAtTime(1.5), 10.5, "inside"); } return bad; }\n',
  'more than forty segments and a query exactly at a segment boundary', 'the boundary is taken from the earlier segment')
S('b04-zero-segment', 'C04', [(TPP, 'if ((t - timeOffset < splines_[i].getSplineDuration())) {', 'if (t - timeOffset < splines_[i].getSplineDuration() || splines_[i].getSplineDuration() <= 0.0) {')], TR,
  CON + 'int main() { PolynomialSplineContainer<1> c; PolynomialSpline<1>::SplineCoefficients a = {{1, 0}}, z = {{0, 50}}, b = {{-3, 7}}; c.addSpline(PolynomialSpline<1>(a, 1.0)); c.addSpline(PolynomialSpline<1>(z, 0.0)); c.addSpline(PolynomialSpline<1>(b, 2.0)); near(c.getPositionAtTime(2.0), 4, "segment after one of zero duration"); near(c.getPositionAtTime(0.5), 0.5, "inside"); return bad; }\n',
  'a sequence with a segment of zero duration followed by others', 'segments after one of zero duration are never reached')
S('b05-junction-duration', 'C05', [(TPP, 'SplineType::getDDTimeVector(ddTimeVecTf, splineDurations[splineId]);', 'SplineType::getDDTimeVector(ddTimeVecTf, splineDurations[0]);')], TR,
  CON + 'int main() { PolynomialSplineContainer<5> c; std::vector<double> t = {0, 1, 3, 4.5}, x = {0, 2, -1, 5}; ok(c.setData(t, x, 1, 2, 3, 4), "fit"); for (int i = 0; i < 2; ++i) { const PolynomialSpline<5>& s = c.getSplines()[i]; near(s.getAccelerationAtTime(s.getSplineDuration()), c.getSplines()[i+1].getAccelerationAtTime(0), "acceleration continuous"); } return bad; }\n',
  'at least two inner knots and intervals of different length', 'acceleration jumps at inner knots after the first')
S('b05-last-duration', 'C05', [(TPP, 'finalAcceleration;\n  addFinalConditions(finalConditions, constraintIdx, splineDurations.back(), num_junctions);', 'finalAcceleration;\n  addFinalConditions(finalConditions, constraintIdx, splineDurations[splineDurations.size()/2], num_junctions);')], TR,
  CON + 'int main() { PolynomialSplineContainer<5> c; std::vector<double> t = {0, 1, 3, 4.5}, x = {0, 2, -1, 5}; ok(c.setData(t, x, 1, 2, 3, 4), "fit"); near(c.getAccelerationAtTime(4.5), 4, "final acceleration"); near(c.getPositionAtTime(4.5), 5, "final position"); std::vector<double> t2 = {0, 2}, x2 = {1, 2}; ok(c.setData(t2, x2, 1, 2, 3, 4), "fit"); near(c.getAccelerationAtTime(2), 4, "final acceleration"); return bad; }\n',
  'at least three intervals of different length', 'values at the end of the curve')
S('b06-cubic-degrades', 'C06', [(TPP, '    return setData(knotDurations, knotPositions);\n  }', '    return setData(knotDurations, knotPositions);\n  }\n'), (TPP, '  constexpr unsigned int num_constraint_junction = 4u;   // pos (2x), vel, acc\n  const unsigned int num_junction_constraints = num_junctions*num_constraint_junction;\n  const unsigned int num_constraints = num_junction_constraints + num_initial_constraints + num_final_constraints;\n\n  // Drop constraints if necessary.\n  if (num_constraints>solutionSpaceDimension) {', '  constexpr unsigned int num_constraint_junction = 4u;   // pos (2x), vel, acc\n  const unsigned int num_junction_constraints = num_junctions*num_constraint_junction;\n  const unsigned int num_constraints = num_junction_constraints + num_initial_constraints + num_final_constraints;\n\n  // Drop constraints if necessary.\n  if (num_constraints>=solutionSpaceDimension) {')], TR,
  CON + 'int main() { PolynomialSplineContainer<3> c; std::vector<double> t = {0, 1, 3}, x = {0, 2, -1}; ok(c.setData(t, x, 1, 3), "fit"); near(c.getVelocityAtTime(0), 1, "initial velocity"); near(c.getVelocityAtTime(3), 3, "final velocity"); PolynomialSplineContainer<3> d; ok(d.setData(t, x, 1, 0, 3, 0), "fit"); near(d.getVelocityAtTime(3), 3, "final velocity"); return bad; }\n',
  'an order-3 fit with boundary velocities', 'order-3 fits fall back to the piecewise linear interpolant')
S('b06-linear-slope', 'C06', [(TPP, 'coefficients[num_coeffs_spline-2] = (knotPositions[splineId+1]-knotPositions[splineId]) / duration; // a1', 'coefficients[num_coeffs_spline-2] = (knotPositions[splineId+1]-knotPositions[splineId]) / (duration < 1e-3 ? 1e-3 : duration); // a1')], TR,
  CON + 'int main() { for (double h : {1.0, 1e-4}) { PolynomialSplineContainer<1> c; std::vector<double> t = {0, 1, 1 + h, 2 + h}, x = {0, 2, -1, 4}; ok(c.setData(t, x), "fit"); near(c.getPositionAtTime(1 + h / 2), 0.5, "linear between knots"); } return bad; }\n',
  'two knots closer than a millisecond', 'the interpolant misses the knot after a very short interval')
S('b07-validate-first', 'C07', [(TPP, '    double initialVelocity, double finalVelocity) {\n\n  bool success = reset();', '    double initialVelocity, double finalVelocity) {\n\n  bool success = true;'), (TPP, '  Eigen::VectorXd initialConditions(2);', '  reset();\n  Eigen::VectorXd initialConditions(2);')], TR,
  CON + 'int main() { PolynomialSplineContainer<5> c; std::vector<double> t = {0, 1, 3}, x = {0, 2, -1}, u = {0, 1, 1}; ok(c.setData(t, x, 1, 3), "fit"); ok(!c.setData(u, x, 1, 3), "rejected"); ok(c.isEmpty(), "empty after a rejected fit"); near(c.getContainerDuration(), 0, "duration"); return bad; }\n',
  'a rejected velocity-form fit on a container that already holds a curve', 'the old curve survives a rejected fit')
S('b07-knot-order', 'C07', [(TPP, '    const double duration = knotDurations[splineId+1]-knotDurations[splineId];\n\n    if (duration<=0.0) {', '    const double duration = knotDurations[splineId+1]-knotDurations[splineId];\n\n    if (duration<0.0) {')], TR,
  CON + 'int main() { PolynomialSplineContainer<1> c; std::vector<double> x = {0, 2, 2}, u = {0, 1, 1}; ok(!c.setData(u, x), "repeated knot time is rejected"); ok(c.isEmpty(), "empty"); return bad; }\n',
  'a position-only fit with two equal knot times', 'a fit that must be rejected is accepted with infinite coefficients')
S('b08-clamped-advance', 'C08', [(TPP, '  containerTime_ += dt;', '  containerTime_ = std::min(containerTime_ + dt, containerDuration_);')], TR,
  CON + 'int main() { PolynomialSplineContainer<1> c; PolynomialSpline<1>::SplineCoefficients a = {{1, 0}}; c.addSpline(PolynomialSpline<1>(a, 1.0)); ok(c.advance(0.4), "advance"); ok(c.advance(0.9), "advance"); near(c.getContainerTime(), 1.3, "playback time is the sum of the steps"); return bad; }\n',
  'a step that ends past the end of the sequence', 'the playback time no longer is the sum of the steps')
S('b08-end-velocity', 'C08', [(TPP, '    return splines_.back().getVelocityAtTime(containerTime_ - timeOffset_);', '    return 0.0;')], TR,
  CON + 'int main() { PolynomialSplineContainer<1> c; PolynomialSpline<1>::SplineCoefficients a = {{1, 0}}; c.addSpline(PolynomialSpline<1>(a, 1.0)); c.advance(0.5); near(c.getVelocity(), 1, "velocity inside"); c.advance(0.7); near(c.getVelocity(), c.getVelocityAtTime(1.2), "velocity agrees with evaluation"); return bad; }\n',
  'playback advanced past the end of a curve that ends with non-zero velocity', 'current velocity disagrees with evaluation')
S('b09-order-zero', 'C09', [(I + 'PolynomialSplineScalarCurve.hpp', '      default:\n        return false;', '      default:\n        value = 0.0;\n        return derivativeOrder > 5;')], TR,
  CUR + 'int main() { PolynomialSplineQuinticScalarCurve c; std::vector<Time> t = {1, 2, 3}; std::vector<double> x = {0, 2, 1}; c.fitCurve(t, x); double v; for (unsigned o : {0u, 3u, 5u, 6u, 17u}) ok(!c.evaluateDerivative(v, 1.5, o), "order refused"); return bad; }\n',
  'a derivative query of order six or more', 'orders that must be refused are answered')
S('b09-refit-options', 'C09', [(I + 'PolynomialSplineScalarCurve.hpp', 'container_.addSpline(PolynomialSplineQuintic(options));', 'if (options.tf_ > 0.05) container_.addSpline(PolynomialSplineQuintic(options));')], TR,
  CUR + 'int main() { for (double h : {1.0, 0.02}) { PolynomialSplineQuinticScalarCurve c; std::vector<SplineOptions> o; o.emplace_back(1, 0, 1, 0, 0, 0, 0); o.emplace_back(h, 1, 5, 0, 0, 0, 0); c.fitCurve(o); double v; c.evaluate(v, 3.0); near(v, 5, "end value"); near(c.getMaxTime(), 1 + h, "duration"); } return bad; }\n',
  'a segment description shorter than 50 ms', 'very short segments are dropped')
S('b10-last-derivative', 'C10', [(I + 'PolynomialSplineVectorSpaceCurve.hpp', '*(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));', '*(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.begin() + 1));')], TR,
  CUR + 'int main() { for (int n : {2, 4}) { PolynomialSplineQuinticVector3Curve c; typedef Eigen::Vector3d V; std::vector<Time> t; std::vector<V> x, d, e; for (int i = 0; i < n; ++i) { t.push_back(1 + i); x.push_back(V(i, 2 * i, 1)); d.push_back(V(i, 1, 2)); e.push_back(V(3 + i, i, i * i)); } c.fitCurve(t, x, d, e); V v; c.evaluateDerivative(v, n, 2); for (int k = 0; k < 3; ++k) near(v(k), e.back()(k), "final second derivative"); } return bad; }\n',
  'a fit with derivative lists and more than two knots', 'the final second derivative is taken from the second knot')
S('b10-component', 'C10', [(I + 'PolynomialSplineVectorSpaceCurve.hpp', 'finalVelocity(i), finalAcceleration(i));', 'finalVelocity(i), finalAcceleration(i > 1 ? 1 : i));')], TR,
  CUR + 'int main() { PolynomialSplineQuinticVector3Curve c; typedef Eigen::Vector3d V; std::vector<Time> t = {2, 3, 5}; std::vector<V> x(3, V(1, 2, 3)); V a(1, 2, 3), b(4, 5, 6), d(7, 8, 9), e(3, 1, 2); c.fitCurve(t, x, a, b, d, e); V v; c.evaluateDerivative(v, 5, 2); for (int k = 0; k < 3; ++k) near(v(k), e(k), "final acceleration"); return bad; }\n',
  'a fit with different final accelerations in the second and third dimension', 'third component of the final acceleration')
S('b11-clear-keys', 'C11', [(I + 'LocalSupport2CoefficientManager-inl.hpp', '  keyToCoefficient_.clear();\n', '  if (!timeToCoefficient_.empty()) keyToCoefficient_.erase(timeToCoefficient_.begin()->second.key);\n')], KG,
  MAN + 'int main() { M m; Key a = m.insertCoefficient(1, 2), b = m.insertCoefficient(2, 3); m.clear(); ok(!m.hasCoefficientWithKey(a), "a gone"); ok(!m.hasCoefficientWithKey(b), "b gone"); ok(m.size() == 0, "empty"); return bad; }\n',
  'clearing a store of two or more coefficients and asking for an old key', 'stale keys survive a clear')
S('b11-tolerance', 'C11', [(I + 'LocalSupport2CoefficientManager.hpp', 'bool hasCoefficientAtTime(Time time, CoefficientIter *it, double tol = 0);', 'bool hasCoefficientAtTime(Time time, CoefficientIter *it, double tol = 1e-6);')], KG,
  MAN + 'int main() { M m; Key a = m.insertCoefficient(1, 2), b = m.insertCoefficient(1 + 1e-7, 3); ok(a != b, "distinct times get distinct keys"); ok(m.size() == 2, "two coefficients"); near(m.getCoefficientByKey(a), 2, "value of the first kept"); return bad; }\n',
  'two insertions less than a microsecond apart', 'the second insertion overwrites the first')
S('b12-inner-knot', 'C12', [(I + 'LocalSupport2CoefficientManager-inl.hpp', '    it = timeToCoefficient_.upper_bound(time);\n  }', '    it = timeToCoefficient_.lower_bound(time);\n    if (it == timeToCoefficient_.begin()) it = timeToCoefficient_.upper_bound(time);\n  }')], KG,
  MAN + 'int main() { M m; m.insertCoefficient(1, 2); m.insertCoefficient(2, 3); m.insertCoefficient(3, 4); M::CoefficientIter a, b; ok(m.getCoefficientsAt(1.5, &a, &b) && a->first == 1 && b->first == 2, "inside"); ok(m.getCoefficientsAt(2, &a, &b), "found"); ok(a->first == 2 && b->first == 3, "pair at an inner time"); ok(!m.getCoefficientsAt(0, &a, &b), "below"); return bad; }\n',
  'a query exactly at an inner stored time', 'the pair before the time is returned')
S('b12-window', 'C12', [(I + 'LocalSupport2CoefficientManager-inl.hpp', 'for (; it != timeToCoefficient_.end() && it->first < endTime; ++it) {', 'for (; it != timeToCoefficient_.end() && it->first <= endTime; ++it) {')], KG,
  MAN + 'int main() { M m; std::vector<Key> k; for (int i = 0; i < 5; ++i) k.push_back(m.insertCoefficient(i, 10 + i)); M::CoefficientMap o; m.getCoefficientsInRange(1, 3, &o); ok(o.size() == 3, "entries 1..3"); ok(!o.count(k[4]), "entry past the end"); M::CoefficientMap p; m.getCoefficientsInRange(1, 2.5, &p); ok(p.size() == 3, "entries 1..3"); return bad; }\n',
  'a range query whose end is exactly a stored time that is not the last', 'one entry too many')
S('b13-local-mutex', 'C13', [('curves/src/KeyGenerator.cpp', 'static boost::mutex mutex;', 'boost::mutex mutex;')], KG,
  '#include <curves/KeyGenerator.hpp>\n#include <thread>\n#include <set>\nint main() { for (int r = 0; r < 20 && !bad; ++r) { std::vector<std::vector<size_t> > k(8); std::vector<std::thread> t; for (int i = 0; i < 8; ++i) t.emplace_back([&k, i] { k[i].reserve(200000); for (int j = 0; j < 200000; ++j) k[i].push_back(curves::KeyGenerator::getNextKey()); }); for (auto& x : t) x.join(); std::set<size_t> s; size_t n = 0; for (auto& v : k) { s.insert(v.begin(), v.end()); n += v.size(); } ok(s.size() == n, "keys are distinct"); } return bad; }\n',
  'two threads asking for a key at the same time', 'each call locks its own mutex, so two threads can get the same key')
S('b14-acceleration-scale', 'C14', [('curves/src/CubicHermiteE3Curve.cpp', 'T_W_B*d_gamma2*one_over_dt_sec + d_W_B*d_gamma3);', 'T_W_B*d_gamma2*one_over_dt_sec + d_W_B*(d_gamma3*one_over_dt_sec));')], HS,
  HER + 'int main() { for (double h : {1.0, 2.0}) { C c; std::vector<Time> t = {0, h, 2 * h}; std::vector<P> x = {P(0, 0, 0), P(1, 2, 3), P(4, 1, 1)}; c.fitCurveWithDerivatives(t, x, D(1, 2, 3), D(3, 2, 1)); const double e = 1e-4, u = 0.3 * h; D a, p, q; ok(c.evaluateDerivative(a, u, 2), "acceleration"); c.evaluateDerivative(p, u - e, 1); c.evaluateDerivative(q, u + e, 1); for (int k = 0; k < 3; ++k) ok(std::fabs(a(k) - (q(k) - p(k)) / (2 * e)) < 1e-3, "second derivative is the slope of the first"); } return bad; }\n',
  'an acceleration query where the knots are not one second apart', 'second derivative', kindr=True)
S('b14-last-inner-slope', 'C14', [('curves/src/CubicHermiteE3Curve.cpp', 'derivative = calculateSlope(times[i-1], times[i+1], values[i-1], values[i+1]);', 'derivative = calculateSlope(times[i-1], times[i+1], values[i-1], values[i+1]);\n      if (times[i+1] - times[i] > 10.0*(times[i] - times[i-1])) derivative = calculateSlope(times[i-1], times[i], values[i-1], values[i]);')], HS,
  HER + 'int main() { for (double h : {1.0, 20.0}) { C c; std::vector<Time> t = {0, 1, 1 + h}; std::vector<P> x = {P(0, 0, 0), P(1, 2, 3), P(4, 1, 1)}; c.fitCurve(t, x); D d; ok(c.evaluateDerivative(d, 1.0, 1), "derivative"); for (int k = 0; k < 3; ++k) near(d(k), x[2](k) / (1 + h), "central difference slope"); } return bad; }\n',
  'neighbouring intervals whose lengths differ by more than a factor of ten', 'slope at an inner knot', kindr=True)
S('b15-empty-field', 'C15', [('curves/src/helpers.cpp', '      strRow.push_back(field); // add column entry to row', '      if (!field.empty()) strRow.push_back(field); // add column entry to row')], ['curves/src/helpers.cpp'],
  '#include <curves/helpers.hpp>\nint main() { std::vector<std::vector<std::string> > m = {{"a", "", "b"}, {"c", "d", "e"}}; curves::writeCSV("t.csv", m); ok(curves::loadCSV("t.csv") == m, "same matrix"); return bad; }\n',
  'an empty field inside a row', 'empty fields vanish and shift the later columns')
S('b15-two-time-offset', 'C15', [('curves/src/helpers.cpp', '  CHECK_GE(temp.at(0).size(), 3) << "CSV does not have the expected number of fields (atleast 2 times and 1 value).";\n  // Iterate over the rows of the CSV and use comma-separated fields to popular outputs\n  const unsigned vOffset = 2;\n  const unsigned vDim = temp.at(0).size() - vOffset;', '  CHECK_GE(temp.at(0).size(), 3) << "CSV does not have the expected number of fields (atleast 2 times and 1 value).";\n  // Iterate over the rows of the CSV and use comma-separated fields to popular outputs\n  const unsigned vOffset = 2;\n  const unsigned vDim = std::min<unsigned>(temp.at(0).size() - vOffset, 6);')], ['curves/src/helpers.cpp'],
  '#include <curves/helpers.hpp>\n#include <fstream>\nint main() { for (int n : {3, 9}) { std::ofstream f("t.csv"); f << "1,2"; for (int i = 0; i < n; ++i) f << "," << i; f << "\\n"; f.close(); std::vector<curves::Time> a, b; std::vector<Eigen::VectorXd> v; curves::loadTimeTimeVectorCSV("t.csv", &a, &b, &v); ok(v.size() == 1 && v[0].size() == n, "all columns"); ok(a.size() == 1 && a[0] == 1 && b[0] == 2, "times"); } return bad; }\n',
  'a two-time file with more than eight columns', 'later columns are lost')
SE = 'curves/src/CubicHermiteSE3Curve.cpp'
SES = [SE, 'curves/src/SE3Curve.cpp', 'curves/src/helpers.cpp'] + KG
POS = """#include <curves/CubicHermiteSE3Curve.hpp>
using namespace curves;
typedef CubicHermiteSE3Curve C; typedef C::ValueType P; typedef C::DerivativeType D; typedef P::Rotation Q; typedef Eigen::Vector3d V;
static P pose(double x, double y, double z, double a, double b, double c) { return P(P::Position(x, y, z), Q::exponentialMap(V(a, b, c))); }
static V pos(const C& c, double t) { P p; ok(c.evaluate(p, t), "evaluates"); return p.getPosition().vector(); }
static Q rot(const C& c, double t) { P p; ok(c.evaluate(p, t), "evaluates"); return p.getRotation(); }
static V lin(const C& c, double t) { D d; ok(c.evaluateDerivative(d, t, 1), "velocity"); return d.getTranslationalVelocity().vector(); }
static V ang(const C& c, double t) { D d; ok(c.evaluateDerivative(d, t, 1), "velocity"); return d.getRotationalVelocity().vector(); }
static void vnear(const V& a, const V& b, double tol, const char* w) { for (int k = 0; k < 3; ++k) ok(std::fabs(a(k) - b(k)) <= tol, w); }
"""
S('b16-end-frame', 'C16', [(SE, '      const Eigen::Vector3d w3 = T_W_B.getRotation().inverseRotate(scaled_d_W_B);\n      const RotationQuaternion expW1_inv', '      const Eigen::Vector3d w3 = T_W_A.getRotation().inverseRotate(scaled_d_W_B);\n      const RotationQuaternion expW1_inv')], SES,
  POS + 'int main() { C c; std::vector<Time> t = {0, 1, 3}; std::vector<P> x = {pose(0, 0, 0, 0, 0, 0), pose(1, 2, 3, 0.4, 0.1, 0), pose(0, 1, 0, 0, 0.5, 0.9)}; c.fitCurve(t, x); const double e = 1e-5; for (double u : {0.3, 0.8, 1.7, 2.5}) { const V w = (rot(c, u + e) * rot(c, u - e).inverted()).logarithmicMap() * (0.5 / e); vnear(ang(c, u), w, 1e-4, "angular velocity of the rotation"); } return bad; }\n',
  'a segment that ends with a non-zero angular velocity in another orientation than it starts', 'the reported angular velocity is not that of the rotation', kindr='se3')
S('b16-seam', 'C16', [(SE, '  fitCurveWithDerivatives(times, values, derivative, derivative, outKeys);', '  fitCurveWithDerivatives(times, values, derivative, nPoints > 3 ? DerivativeType() : derivative, outKeys);')], SES,
  POS + 'int main() { for (double h : {1.0, 2.5}) { C c; std::vector<Time> t = {0, 1, 2, 2 + h}; std::vector<P> x = {pose(0, 0, 0, 0, 0, 0), pose(1, 2, 3, 0.4, 0.1, 0), pose(-1, 4, 2, 0, 0.5, 0.2), pose(0, 0, 0, 0, 0, 0)}; c.fitPeriodicCurve(t, x); const V d = (x[1].getPosition().vector() - x[2].getPosition().vector()) * (1.0 / (1 + h)); vnear(lin(c, 0), d, 1e-9, "slope across the seam at the start"); vnear(lin(c, 2 + h), d, 1e-9, "slope across the seam at the end"); } return bad; }\n',
  'a periodic fit of more than three poses', 'the velocity across the seam at the end of the curve', kindr='se3')
S('b16-local-slope', 'C16', [(SE, 'T_W_B.getRotation().boxMinus(T_W_A.getRotation()) * inverse_dt_sec;', '(T_W_A.getRotation().inverted() * T_W_B.getRotation()).logarithmicMap() * inverse_dt_sec;')], SES,
  POS + 'int main() { C c; std::vector<Time> t = {0, 1, 2}; for (double s : {0.0, 0.7}) { std::vector<P> x = {pose(0, 0, 0, s, 0, 0), pose(1, 2, 3, 0.4, 0.1, 0), pose(-1, 4, 2, 0, 0.5, 0.2)}; c.fitCurve(t, x); const V w = (x[2].getRotation() * x[0].getRotation().inverted()).logarithmicMap() * 0.5; vnear(ang(c, 1), w, 1e-9, "central difference of the rotations"); } return bad; }\n',
  'an inner knot whose neighbours are turned about different axes', 'the angular velocity at inner knots is taken in the wrong frame', kindr='se3')
S('b16-refit-same-size', 'C16', [(SE, '  CHECK_EQ(times.size(), values.size());\n  clear();\n\n  // construct the Hemrite', '  CHECK_EQ(times.size(), values.size());\n  if (size() != static_cast<int>(times.size())) clear();\n\n  // construct the Hemrite')], SES,
  POS + 'int main() { C c; std::vector<Time> t = {0, 1, 2}, t2 = {0, 1.5, 2}; std::vector<P> x = {pose(0, 0, 0, 0.3, 0, 0), pose(1, 2, 3, 0.4, 0.1, 0), pose(-1, 4, 2, 0, 0.5, 0.2)}; c.fitCurve(t, x); c.fitCurve(t, x); ok(c.size() == 3, "same data"); c.fitCurve(t2, x); ok(c.size() == 3, "the earlier curve is replaced"); const V d = (x[2].getPosition().vector() - x[0].getPosition().vector()) * 0.5; C f; f.fitCurve(t2, x); vnear(pos(c, 0.9), pos(f, 0.9), 1e-9, "as a fresh fit"); return bad; }\n',
  'a second fit with as many knots as the first at other times', 'knots of the earlier curve stay in the new one', kindr='se3')
RO = 'curves_ros/src/'
ROSS = [RO + 'RosJointTrajectoryInterface.cpp', RO + 'RosMultiDOFJointTrajectoryInterface.cpp', RO + 'RosMultiDOFJointTrajectoryTranslationInterface.cpp', 'curves/src/SE3Curve.cpp', 'curves/src/CubicHermiteSE3Curve.cpp', 'curves/src/helpers.cpp'] + TR + KG
ROSH = """#include <curves_ros/RosJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp>
using namespace curves;
typedef trajectory_msgs::JointTrajectory JM; typedef trajectory_msgs::MultiDOFJointTrajectory MM;
static void point(JM& m, int s, int ns, const std::vector<double>& x) { trajectory_msgs::JointTrajectoryPoint p; p.time_from_start = ros::Duration(s, ns); p.positions = x; m.points.push_back(p); }
static void point(MM& m, int s, int ns, const std::vector<double>& x) { trajectory_msgs::MultiDOFJointTrajectoryPoint p; p.time_from_start = ros::Duration(s, ns); for (double a : x) { geometry_msgs::Transform f; f.translation.x = a; f.translation.y = 2 * a; f.translation.z = 1 - a; f.rotation.w = 1; p.transforms.push_back(f); } m.points.push_back(p); }
"""
RK = dict(kindr='ros', flags='-I"$PWD/curves_ros/include"')
S('b18-name-prefix', 'C18', [(RO + 'RosJointTrajectoryInterface.cpp', 'if (message.joint_names[j] == jointName) break;', 'if (message.joint_names[j].compare(0, jointName.size(), jointName) == 0) break;')], ROSS,
  ROSH + 'int main() { JM m; m.joint_names = {"arm_2", "arm"}; point(m, 0, 0, {1, 2}); point(m, 1, 500000000, {3, 5}); RosJointTrajectoryInterface c; double v = 0; ok(c.fromMessage(m, "arm_2"), "named"); ok(c.evaluate(v, 1.5), "evaluates"); near(v, 3, "position of arm_2"); ok(c.fromMessage(m, "arm"), "named"); ok(c.evaluate(v, 1.5), "evaluates"); near(v, 5, "position of arm"); return bad; }\n',
  'a message that names an earlier joint whose name starts with the wanted name', 'the samples of another joint are taken', **RK)
S('b18-relative-times', 'C18', [(RO + 'RosMultiDOFJointTrajectoryInterface.cpp', 'times.push_back(ros::Duration(point.time_from_start).toSec());', 'times.push_back(ros::Duration(point.time_from_start).toSec() - message.points.front().time_from_start.toSec());')], ROSS,
  ROSH + 'int main() { for (int s : {0, 2}) { MM m; m.joint_names = {"base"}; point(m, s, 0, {1}); point(m, s + 1, 0, {3}); point(m, s + 2, 0, {-1}); RosMultiDOFJointTrajectoryInterface c; ok(c.fromMessage(m, "base"), "named"); near(c.getMinTime(), s, "starts at its first point"); near(c.getMaxTime(), s + 2, "ends at its last point"); } return bad; }\n',
  'a message whose first point is not at time zero', 'the knots do not lie at the times of the message', **RK)
S('b18-hold', 'C18', [(RO + 'RosMultiDOFJointTrajectoryTranslationInterface.cpp', '    values.push_back(position);', '    if (!values.empty() && values.back() == position) {\n      times.pop_back(); // Nothing changes since the last knot.\n      continue;\n    }\n    values.push_back(position);')], ROSS,
  ROSH + 'int main() { MM m; m.joint_names = {"a", "b"}; point(m, 0, 0, {1, 7}); point(m, 1, 0, {2, 7}); point(m, 2, 0, {2, 7}); point(m, 3, 0, {4, 8}); RosMultiDOFJointTrajectoryTranslationInterface c; Eigen::Vector3d v; ok(c.fromMessage(m, "a"), "named"); for (int i = 0; i < 4; ++i) { ok(c.evaluate(v, i), "evaluates"); near(v(0), m.points[i].transforms[0].translation.x, "translation x"); near(v(2), m.points[i].transforms[0].translation.z, "translation z"); } return bad; }\n',
  'a joint that stands still between two points', 'samples that repeat the last translation are dropped', **RK)
S('b18-mixed-joint', 'C18', [(RO + 'RosMultiDOFJointTrajectoryTranslationInterface.cpp', '                                                            point.transforms[j].translation.z);', '                                                            point.transforms.front().translation.z);')], ROSS,
  ROSH + 'int main() { MM m; m.joint_names = {"a", "b"}; point(m, 0, 0, {1, 7}); point(m, 1, 0, {2, 3}); RosMultiDOFJointTrajectoryTranslationInterface c; for (int j = 0; j < 2; ++j) { Eigen::Vector3d v; ok(c.fromMessage(m, m.joint_names[j]), "named"); for (int i = 0; i < 2; ++i) { ok(c.evaluate(v, i), "evaluates"); near(v(2), m.points[i].transforms[j].translation.z, "translation z"); } } return bad; }\n',
  'a joint that is not the first of the message', 'one component comes from another joint', **RK)
SAVE = POS + '#include <curves/helpers.hpp>\nstatic C curve() { C c; std::vector<Time> t = {0, 1, 3}; std::vector<P> x = {pose(0, 1, 2, 0, 0, 0), pose(1, 2, 3, 0.4, 0.1, 0), pose(-1, 4, 2, 0, 0.5, 0.2)}; c.fitCurve(t, x); return c; }\nstatic void rows(const C& c, const std::vector<Time>& q) { c.saveCurveAtTimes("f.csv", q); std::vector<Time> t; std::vector<Eigen::VectorXd> v; loadTimeVectorCSV("f.csv", &t, &v); ok(t.size() == q.size() && v.size() == q.size(), "one row per time"); for (size_t i = 0; i < q.size() && i < t.size(); ++i) { P p; c.evaluate(p, q[i]); ok(std::fabs(t[i] - q[i]) < 1e-4, "time"); ok(std::fabs(v[i](0) - p.getPosition().x()) < 1e-4, "x"); ok(std::fabs(v[i](3) - p.getRotation().w()) < 1e-4, "w"); ok(std::fabs(v[i](6) - p.getRotation().z()) < 1e-4, "z"); } }\n'
S('b19-sorted', 'C19', [(SE, '  std::vector<Eigen::VectorXd> curveValues;\n  ValueType val;\n', '  std::vector<Eigen::VectorXd> curveValues;\n  ValueType val;\n  std::sort(times.begin(), times.end());\n'), (SE, '#include <iostream>', '#include <algorithm>\n#include <iostream>')], SES,
  SAVE + 'int main() { const C c = curve(); rows(c, {0, 0.5, 3}); rows(c, {2, 0.5, 1}); return bad; }\n', 'times that are not in increasing order', 'the rows are not in the order of the given times', kindr='se3')
S('b19-repeated', 'C19', [(SE, '    evaluate(val, times[i]);\n', '    if (i == 0 || times[i] - times[i-1] > minSamplingPeriod()) evaluate(val, times[i]);\n'.replace('minSamplingPeriod()', '1e-2'))], SES,
  SAVE + 'int main() { const C c = curve(); rows(c, {0, 0.5, 3}); rows(c, {1, 3, 0.5}); return bad; }\n', 'a time that lies before the one written just before it', 'a row repeats the pose of the row before', kindr='se3')
S('b05-long-fit', 'C05', [(TPP, '    const unsigned int nextSplineId = splineId+1;\n', '    const unsigned int nextSplineId = splineId+1;\n    const double smooth = (splineId % 64 == 63) ? 0.5 : 1.0;\n'), (TPP, '= -ddTimeVec0;', '= -ddTimeVec0 * smooth;')], TR,
  CON + 'int main() { for (int n : {10, 90}) { PolynomialSplineContainer<5> c; std::vector<double> t, x; for (int i = 0; i < n; ++i) { t.push_back(i); x.push_back((i * i) % 7); } ok(c.setData(t, x, 0, 0, 0, 0), "fit"); for (int i = 1; i + 1 < n; ++i) { const PolynomialSpline<5>& a = c.getSplines()[i - 1]; near(a.getAccelerationAtTime(a.getSplineDuration()), c.getSplines()[i].getAccelerationAtTime(0), "acceleration continuous"); } } return bad; }\n',
  'a fit with more than 64 inner knots', 'the acceleration jumps at the 64th inner knot')
S('b16-small-turn', 'C16', [(SE, '    const Eigen::Vector3d w2 = expW1_Inv_qWB_expW3.logarithmicMap();\n\n    const double dBeta1', '    Eigen::Vector3d w2 = expW1_Inv_qWB_expW3.logarithmicMap();\n    if (w2.norm() < 1e-4) w2.setZero();  // no relative rotation left\n\n    const double dBeta1')], SES,
  POS + 'int main() { for (double s : {1.0, 5e-5}) { C c; std::vector<Time> t = {0, 1, 2}; std::vector<P> x = {pose(0, 0, 0, 0, 0, 0), pose(1, 2, 3, 0.4 * s, 0.1 * s, 0), pose(0, 1, 0, 0.9 * s, 0.2 * s, 0.1 * s)}; c.fitCurve(t, x); for (int i = 0; i < 3; ++i) vnear((rot(c, t[i]) * x[i].getRotation().inverted()).logarithmicMap(), V(0, 0, 0), 1e-7, "rotation at its knot"); } return bad; }\n',
  'poses that differ by less than a ten-thousandth of a radian', 'the curve misses the given rotations', kindr='se3')
S('b15-long-number', 'C15', [('curves/src/helpers.cpp', 'std::ostringstream ss; ss<<t; return ss.str();', 'std::ostringstream ss; ss<<t; std::string s = ss.str(); if (s.size() > 10) s.resize(10); return s;')], ['curves/src/helpers.cpp'],
  '#include <curves/helpers.hpp>\nint main() { std::vector<curves::Time> t = {0.5, 1}, u; Eigen::VectorXd a(2); a << 1.5, -1.23457e-05; std::vector<Eigen::VectorXd> v = {a, a}, w; curves::writeTimeVectorCSV("t.csv", t, v); curves::loadTimeVectorCSV("t.csv", &u, &w); ok(u == t && w.size() == 2, "rows"); near(w[1](0), 1.5, "entry"); near(w[1](1) * 1e5, -1.23457, "small entry"); return bad; }\n',
  'a value that prints with a sign, six digits and an exponent', 'the exponent is cut off, so small and large values read back wrong')
S('b02-memo', 'C02', [(I + 'PolynomialSpline.hpp', '  constexpr double getVelocityAtTime(double tk) const {\n    return std::inner_product(coefficients_.begin(), coefficients_.end(),\n                              SplineImplementation::dtau(std::max(0.0, std::min(tk, duration_))).begin(), 0.0);', '  double getVelocityAtTime(double tk) const {\n    // Containers of several dimensions ask for the same time repeatedly.\n    static thread_local double lastTk = -1.0, lastDuration = -1.0;\n    static thread_local SplineCoefficients lastTau;\n    if (tk != lastTk || duration_ > lastDuration) {\n      lastTk = tk;\n      lastDuration = duration_;\n      lastTau = SplineImplementation::dtau(std::max(0.0, std::min(tk, duration_)));\n    }\n    return std::inner_product(coefficients_.begin(), coefficients_.end(), lastTau.begin(), 0.0);')], TR,
  '#include <curves/polynomial_splines.hpp>\nusing namespace curves;\nint main() { PolynomialSpline<3>::SplineCoefficients c = {{1, 2, 3, 4}}; PolynomialSpline<3> a(c, 2.0), b(c, 1.0); near(a.getVelocityAtTime(2.0), 23, "velocity"); near(b.getVelocityAtTime(2.0), 10, "velocity at the end of a shorter spline"); near(b.getVelocityAtTime(0.5), 5.75, "velocity"); return bad; }\n',
  'two splines of the same order queried one after the other at the same time, the shorter one second and past its end', 'the velocity of the second one is taken at the wrong time')
S('b15-single-precision', 'C15', [('curves/src/helpers.cpp', '    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));', '    outTimes0->push_back((curves::Time)strtof(it->at(0).c_str(), nullptr));')], ['curves/src/helpers.cpp'],
  '#include <curves/helpers.hpp>\nint main() { std::vector<std::vector<std::string> > m = {{"1.5", "2", "3"}, {"1700000000.25", "1700000001.5", "0.125"}}; curves::writeCSV("p.csv", m); std::vector<curves::Time> a, b; std::vector<Eigen::VectorXd> v; curves::loadTimeTimeVectorCSV("p.csv", &a, &b, &v); ok(a.size() == 2 && a[0] == 1.5 && a[1] == 1700000000.25, "first time"); ok(b[1] == 1700000001.5 && v[1](0) == 0.125, "second time and value"); return bad; }\n',
  'a two-time file with times that need more than seven digits, such as seconds since the epoch', 'the first time is off by up to a minute')
S('b11-large-update', 'C11', [(I + 'LocalSupport2CoefficientManager-inl.hpp', '  it = coefficients.cbegin();\n', '  if (coefficients.size() > timeToCoefficient_.size()) return;\n  it = coefficients.cbegin();\n')], KG,
  '#include <sys/wait.h>\n#include <unistd.h>\n' + MAN + 'static bool aborts(int stored) { std::fflush(stdout); const pid_t p = fork(); if (p == 0) { if (!freopen("/dev/null", "w", stderr)) _exit(3); M m; M::CoefficientMap c; for (int i = 0; i < stored; ++i) c[m.insertCoefficient(i, i)] = 7; c[1000000] = 5; m.updateCoefficients(c); _exit(0); } int s = 0; waitpid(p, &s, 0); return WIFSIGNALED(s); }\nint main() { ok(aborts(0), "empty store"); ok(aborts(2), "naming a missing coefficient is refused"); M m; M::CoefficientMap c; const Key k = m.insertCoefficient(1, 2); c[k] = 9; m.updateCoefficients(c); near(m.getCoefficientByKey(k), 9, "update"); return bad; }\n',
  'an update that names all stored coefficients and a missing one', 'the update is dropped silently instead of being refused')
