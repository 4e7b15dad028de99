// instantiates the members of the cubic Hermite pose curve (engine/spec_pose.py)
#include "vf.h"
#include <vector>
#include <stdexcept>
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/src/KeyGenerator.cpp>
#include <curves/src/SE3Curve.cpp>
#include <curves/src/CubicHermiteSE3Curve.cpp>
using namespace curves;
typedef CubicHermiteSE3Curve H;
DRIVER(DED, use_pose) {
  H c; std::vector<Time> t; std::vector<H::ValueType> x; std::vector<Key> k; H::ValueType v; H::DerivativeType d, e; kindr::Acceleration3D a;
  c.fitCurve(t, x, &k); c.fitCurveWithDerivatives(t, x, d, e, &k); c.fitPeriodicCurve(t, x, &k);
  c.evaluate(v, 0); c.evaluateDerivative(d, 0, 1); c.evaluateLinearAcceleration(a, 0);
  c.size(); c.isEmpty(); c.getMinTime(); c.getMaxTime(); c.clear(); c.getCurveTimes(&t); c.calculateSlope(0, 1, v, v);
  LocalSupport2CoefficientManager<H::Coefficient> m; LocalSupport2CoefficientManager<H::Coefficient>::CoefficientIter p, q; std::vector<H::Coefficient> w;
  m.insertCoefficient(0, H::Coefficient()); m.insertCoefficients(t, w, &k); m.getCoefficientsAt(0, &p, &q); m.clear(); m.getTimes(&t); m.getKeys(&k);
  m.removeCoefficientWithKey(0);
}
