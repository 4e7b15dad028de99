// instantiates the members of the cubic Hermite position curve (engine/spec_hermite.py)
#include "vf.h"
#include <vector>
#include <stdexcept>
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/src/KeyGenerator.cpp>
#include <curves/src/CubicHermiteE3Curve.cpp>
using namespace curves;
typedef CubicHermiteE3Curve H;
DRIVER(DED, use_hermite) {
  H c; std::vector<Time> t; std::vector<H::ValueType> x; std::vector<Key> k; H::ValueType v, w;
  c.fitCurve(t, x, &k); c.fitCurveWithDerivatives(t, x, v, w, &k); c.fitPeriodicCurve(t, x, &k);
  c.evaluate(v, 0); c.evaluateDerivative(v, 0, 1); c.evaluateLinearAcceleration(v, 0);
  c.size(); c.isEmpty(); c.getMinTime(); c.getMaxTime(); c.clear();
  LocalSupport2CoefficientManager<H::Coefficient> m; LocalSupport2CoefficientManager<H::Coefficient>::CoefficientIter a, b; std::vector<H::Coefficient> q;
  m.insertCoefficient(0, H::Coefficient()); m.insertCoefficients(t, q, &k); m.getCoefficientsAt(0, &a, &b); m.clear(); m.getTimes(&t); m.getKeys(&k);
  m.removeCoefficientWithKey(0);
}
