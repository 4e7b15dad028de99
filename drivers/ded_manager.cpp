// instantiates every member of the coefficient store (engine/spec_manager.py)
#include "vf.h"
#include <vector>
#include <stdexcept>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include <curves/KeyGenerator.hpp>
#include <curves/src/KeyGenerator.cpp>
using namespace curves;
typedef LocalSupport2CoefficientManager<double> M;
DRIVER(DED, use_manager) {
  M m, o; std::vector<Time> t; std::vector<double> v; std::vector<Key> k; M::CoefficientMap c; M::CoefficientIter a, b;
  m.equals(o); m.getKeys(&k); m.appendKeys(&k); m.getTimes(&t); m.getTimesInWindow(&t, 0, 0); m.modifyCoefficientsValuesInBatch(t, v);
  m.insertCoefficient(0, 0); m.insertCoefficients(t, v, &k); m.addCoefficientAtEnd(0, 0, &k); m.modifyCoefficient(m.coefficientBegin(), 0, 0);
  m.removeCoefficientWithKey(0); m.removeCoefficientAtTime(0); m.hasCoefficientAtTime(0); m.hasCoefficientWithKey(0);
  m.updateCoefficientByKey(0, 0); m.getCoefficientByKey(0); m.getCoefficientTimeByKey(0); m.getCoefficientsAt(0, &a, &b);
  m.getCoefficientsInRange(0, 0, &c); m.getCoefficients(&c); m.updateCoefficients(c); m.size(); m.empty(); m.clear(); m.getMinTime(); m.getMaxTime();
  m.coefficientEnd(); const M& cm = m; cm.coefficientBegin(); cm.coefficientEnd(); m.checkInternalConsistency(false);
}
