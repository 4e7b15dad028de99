// instantiates every member of the sequence classes, so that their bodies are extracted and
// verified against their contracts (engine/spec_container.py)
#include "vf.h"
#include <curves/PolynomialSplineContainer.hpp>
#include <curves/polynomial_splines_containers.hpp>
using namespace curves;
namespace {
template <int N> void use() {
  PolynomialSplineContainer<N> c;
  typename PolynomialSpline<N>::SplineCoefficients a{};
  PolynomialSpline<N> s(a, 1.0);
  const PolynomialSpline<N> cs(s);
  s.getPositionAtTime(0); s.getVelocityAtTime(0); s.getAccelerationAtTime(0); s.getSplineDuration();
  c.addSpline(s); c.addSpline(cs); c.addSpline(PolynomialSpline<N>(a, 1.0));
  c.getSpline(0); c.getSplines(); c.advance(0); c.setContainerTime(0); c.reserveSplines(1); c.reset(); c.resetTime();
  c.getContainerDuration(); c.getContainerTime(); c.isEmpty(); c.getPosition(); c.getVelocity(); c.getAcceleration();
  double o; c.getActiveSplineIndexAtTime(0, o); c.getActiveSplineIndex();
  c.getPositionAtTime(0); c.getVelocityAtTime(0); c.getAccelerationAtTime(0);
  c.getEndPosition(); c.getEndVelocity(); c.getEndAcceleration(); c.checkContainer();
  std::vector<double> t, p;
  c.setData(t, p); c.setData(t, p, 0, 0); c.setData(t, p, 0, 0, 0, 0);
}
}  // namespace
DRIVER(DED, use) { use<1>(); use<2>(); use<3>(); use<4>(); use<5>(); }
