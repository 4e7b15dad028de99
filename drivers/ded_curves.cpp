// instantiates every member of the curve classes built on spline sequences (engine/spec_curves.py)
#include "ded_container.cpp"
#include <curves/PolynomialSplineScalarCurve.hpp>
#include <curves/PolynomialSplineVectorSpaceCurve.hpp>
DRIVER(DED, use_curves) {
  PolynomialSplineQuinticScalarCurve c; PolynomialSplineQuinticVector3Curve w;
  std::vector<Time> t; std::vector<double> p; std::vector<SplineOptions> o; std::vector<Eigen::Vector3d> q; Eigen::Vector3d x;
  double y; c.getMinTime(); c.getMaxTime(); c.evaluate(y, 0); c.evaluateDerivative(y, 0, 1); c.clear();
  c.fitCurve(t, p); c.fitCurve(t, p, 0, 0, 0, 0); c.fitCurve(o);
  w.getMinTime(); w.getMaxTime(); w.evaluate(x, 0); w.evaluateDerivative(x, 0, 1); w.clear();
  w.fitCurve(t, q); w.fitCurve(t, q, x, x, x, x); w.fitCurve(t, q, q, q);
}
