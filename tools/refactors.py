"""Behaviour-preserving edits: every check must stay quiet on them.  (development tool; no check reads this)
usage: refactors.py [ids...]"""
import os, subprocess, sys, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__))
INC = 'curves/include/curves/'; SRC = 'curves/src/'
TPP = INC + 'PolynomialSplineContainer.tpp'; MAN = INC + 'LocalSupport2CoefficientManager-inl.hpp'; MANH = INC + 'LocalSupport2CoefficientManager.hpp'
HER = SRC + 'CubicHermiteE3Curve.cpp'; SC = INC + 'PolynomialSplineScalarCurve.hpp'; VC = INC + 'PolynomialSplineVectorSpaceCurve.hpp'
SP = INC + 'PolynomialSpline.hpp'; TR = INC + 'polynomial_splines_traits.hpp'; CSV = SRC + 'helpers.cpp'; KEY = SRC + 'KeyGenerator.cpp'; CH = INC + 'PolynomialSplineContainer.hpp'
CONT = ['C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10']
R = {}
def r(id, f, edits, props): R[id] = (f, edits, props)

# ---------------------------------------------------------------- single splines
r('sp-horner', TR, [('    coefficients[0] = (opts.posT_ - opts.pos0_) / opts.tf_; //a1', '    const double slope = (opts.posT_ - opts.pos0_) / opts.tf_;\n    coefficients[0] = slope;')], ['C01', 'C02'])
r('sp-clamp-helper', SP, [('SplineImplementation::tau(std::max(0.0, std::min(tk, duration_))).begin(), 0.0);\n  }\n\n  //! Get the first', 'SplineImplementation::tau(clampTime(tk)).begin(), 0.0);\n  }\n\n  //! Clamp.\n  constexpr double clampTime(double tk) const { return (tk < 0.0) ? 0.0 : ((tk > duration_) ? duration_ : tk); }\n\n  //! Get the first'),
   ('SplineImplementation::dtau(std::max(0.0, std::min(tk, duration_)))', 'SplineImplementation::dtau(clampTime(tk))'), ('SplineImplementation::ddtau(std::max(0.0, std::min(tk, duration_)))', 'SplineImplementation::ddtau(clampTime(tk))')], ['C02', 'C03', 'C04', 'C05', 'C08'])
r('sp-loop-eval', SP, [('''    return std::inner_product(coefficients_.begin(), coefficients_.end(),
                              SplineImplementation::tau(std::max(0.0, std::min(tk, duration_))).begin(), 0.0);''',
 '''    const auto tau = SplineImplementation::tau(std::max(0.0, std::min(tk, duration_)));
    double sum = 0.0;
    for (size_t k = 0; k < coefficients_.size(); ++k) sum += coefficients_[k] * tau[k];
    return sum;''')], ['C01', 'C02', 'C04', 'C09'])
r('sp-horner-eval', SP, [('''    return std::inner_product(coefficients_.begin(), coefficients_.end(),
                              SplineImplementation::tau(std::max(0.0, std::min(tk, duration_))).begin(), 0.0);''',
 '''    const double t = std::max(0.0, std::min(tk, duration_));
    double sum = 0.0;
    for (const double a : coefficients_) sum = sum * t + a;
    return sum;''')], ['C01', 'C02', 'C04', 'C05'])
r('sp-noalias', SP, [('    timeVec = Eigen::Map<EigenTimeVectorType>(SplineImplementation::tau(tk).data());', '    const auto tau = SplineImplementation::tau(tk);\n    for (unsigned int k = 0; k < coefficientCount; ++k) timeVec(k) = tau[k];')], ['C03', 'C05'])
# ---------------------------------------------------------------- container
r('co-advance-split', TPP, [('''  // Advance in time.
  containerTime_ += dt;
''', '''  // Advance in time.
  const double newTime = containerTime_ + dt;
  containerTime_ = newTime;
''')], ['C08'])
r('co-advance-lookup', TPP, [('''  while (activeSplineIdx_ < splines_.size() &&
      (containerTime_ - timeOffset_ >= splines_[activeSplineIdx_].getSplineDuration())) {
    if (activeSplineIdx_ < (splines_.size() - 1)) {
      timeOffset_ += splines_[activeSplineIdx_].getSplineDuration();
    }
    ++activeSplineIdx_;
  }
''', '''  for (;;) {
    if (activeSplineIdx_ == splines_.size()) break;
    const double d = splines_[activeSplineIdx_].getSplineDuration();
    if (containerTime_ - timeOffset_ < d) break;
    const bool last = (activeSplineIdx_ + 1 == splines_.size());
    if (!last) timeOffset_ += d;
    activeSplineIdx_ += 1;
  }
''')], ['C08'])
r('co-lookup-rewrite', TPP, [('''  for (size_t i = 0; i < splines_.size(); i++) {
    if ((t - timeOffset < splines_[i].getSplineDuration())) {
      return i;
    }
    if (i < (splines_.size() - 1)) {
      timeOffset += splines_[i].getSplineDuration();
    }
  }

  return (splines_.size() - 1);''', '''  const size_t last = splines_.size() - 1;
  size_t i = 0;
  while (i < last && t - timeOffset >= splines_[i].getSplineDuration()) {
    timeOffset += splines_[i].getSplineDuration();
    ++i;
  }

  return i;''')], ['C04', 'C08', 'C09'])
r('co-lookup-iter', TPP, [('''  for (size_t i = 0; i < splines_.size(); i++) {
    if ((t - timeOffset < splines_[i].getSplineDuration())) {
      return i;
    }
    if (i < (splines_.size() - 1)) {
      timeOffset += splines_[i].getSplineDuration();
    }
  }

  return (splines_.size() - 1);''', '''  int index = 0;
  for (const auto& spline : splines_) {
    const double duration = spline.getSplineDuration();
    if (t < timeOffset + duration) {
      return index;
    }
    if (index + 1 < static_cast<int>(splines_.size())) {
      timeOffset += duration;
    }
    ++index;
  }

  return static_cast<int>(splines_.size()) - 1;''')], ['C04', 'C08'])
r('co-eval-helper', TPP, [('''template <int splineOrder_>
double PolynomialSplineContainer<splineOrder_>::getPositionAtTime(double t) const {
  double timeOffset = 0.0;
  const int activeSplineIdx = getActiveSplineIndexAtTime(t, timeOffset);

  if (activeSplineIdx < 0) {
    // Spline container is empty.
    return 0.0;
  }

  if (static_cast<unsigned int>(activeSplineIdx) == splines_.size()) {
    return splines_.back().getPositionAtTime(splines_.back().getSplineDuration());
  }

  return splines_[activeSplineIdx].getPositionAtTime(t - timeOffset);
}''', '''template <int splineOrder_>
double PolynomialSplineContainer<splineOrder_>::getPositionAtTime(double t) const {
  double localTime = 0.0;
  const SplineType* spline = findSpline(t, localTime);
  return (spline == nullptr) ? 0.0 : spline->getPositionAtTime(localTime);
}

template <int splineOrder_>
const typename PolynomialSplineContainer<splineOrder_>::SplineType* PolynomialSplineContainer<splineOrder_>::findSpline(double t, double& localTime) const {
  double timeOffset = 0.0;
  const int idx = getActiveSplineIndexAtTime(t, timeOffset);
  if (idx < 0) return nullptr;
  localTime = t - timeOffset;
  return &splines_[idx];
}''')], ['C04', 'C08', 'C09', 'C10'])
R['co-eval-helper'][1].append((CH, '  //! Get position at time t[seconds];\n', '  const SplineType* findSpline(double t, double& localTime) const;\n\n  //! Get position at time t[seconds];\n'))
r('co-reset-order', TPP, [('''  splines_.clear();
  activeSplineIdx_ = 0;
  containerDuration_ = 0.0;
  resetTime();
  return true;''', '''  containerDuration_ = 0.0;
  splines_.clear();
  return resetTime();''')], ['C04', 'C07', 'C08'])
r('co-setdata-early', TPP, [('''  bool success = reset();

  // Set up optimization parameters.
  const unsigned int numSplines = knotDurations.size()-1;
  constexpr auto num_coeffs_spline = SplineType::coefficientCount;
  const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
  const unsigned int num_junctions = numSplines-1;

  if (knotDurations.size()<2) {
    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
    return false;
  }
''', '''  bool success = reset();

  if (knotDurations.size()<2) {
    std::cout << "[PolynomialSplineContainer::setData] Not enough knot points available!" << std::endl;
    return false;
  }

  // Set up optimization parameters.
  const unsigned int numSplines = knotDurations.size()-1;
  constexpr auto num_coeffs_spline = SplineType::coefficientCount;
  const unsigned int solutionSpaceDimension = numSplines*num_coeffs_spline;
  const unsigned int num_junctions = numSplines-1;
''')], ['C05', 'C06', 'C07'])
r('co-durations-pushback', TPP, [('''  std::vector<double> splineDurations(numSplines);
  for (unsigned int splineId=0; splineId<numSplines; splineId++) {
    splineDurations[splineId] = knotDurations[splineId+1]-knotDurations[splineId];

    if (splineDurations[splineId]<=0.0) {
      std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << splineId << ": " << splineDurations[splineId] << std::endl;
      return false;
    }
  }

  // Initialize Equality matrices.
  equalityConstraintJacobian_.setZero(num_constraints, solutionSpaceDimension);
  equalityConstraintTargetValues_.setZero(num_constraints);
  unsigned int constraintIdx = 0;


  // Initial conditions.
  Eigen::VectorXd initialConditions(3);''', '''  std::vector<double> splineDurations;
  splineDurations.reserve(numSplines);
  for (size_t knot = 1; knot < knotDurations.size(); ++knot) {
    const double duration = knotDurations[knot]-knotDurations[knot-1];
    if (!(duration > 0.0)) {
      std::cout << "[PolynomialSplineContainer::setData] Invalid spline duration at index" << knot - 1 << std::endl;
      return false;
    }
    splineDurations.push_back(duration);
  }

  // Initialize Equality matrices.
  equalityConstraintJacobian_.setZero(num_constraints, solutionSpaceDimension);
  equalityConstraintTargetValues_.setZero(num_constraints);
  unsigned int constraintIdx = 0;


  // Initial conditions.
  Eigen::VectorXd initialConditions(3);''')], ['C05', 'C06', 'C07'])
r('co-conditions-order', TPP, [('''  addFinalConditions(finalConditions, constraintIdx, splineDurations.back(), num_junctions);

  // Junction conditions.
  addJunctionsConditions(splineDurations, knotPositions, constraintIdx, num_junctions);

  if (num_constraints != constraintIdx) {
    std::cout << "[PolynomialSplineContainer::setData] Wrong number of equality constraints!" << std::endl;
    return false;
  }

  // Find spline coefficients.
  Eigen::VectorXd coeffs = equalityConstraintJacobian_.colPivHouseholderQr().solve(equalityConstraintTargetValues_);

  // Extract spline coefficients and add splines.
  success &= extractSplineCoefficients(coeffs, splineDurations, numSplines);

  return success;
}


template <int splineOrder_>
bool PolynomialSplineContainer<splineOrder_>::setData(
    const std::vector<double>& knotDurations,
    const std::vector<double>& knotPositions,
    double initialVelocity, double finalVelocity) {
''', '''  // Junction conditions.
  addJunctionsConditions(splineDurations, knotPositions, constraintIdx, num_junctions);
  addFinalConditions(finalConditions, constraintIdx, splineDurations.back(), num_junctions);

  if (num_constraints != constraintIdx) {
    std::cout << "[PolynomialSplineContainer::setData] Wrong number of equality constraints!" << std::endl;
    return false;
  }

  // Find spline coefficients.
  const Eigen::VectorXd coeffs = equalityConstraintJacobian_.colPivHouseholderQr().solve(equalityConstraintTargetValues_);

  // Extract spline coefficients and add splines.
  return extractSplineCoefficients(coeffs, splineDurations, numSplines) && success;
}


template <int splineOrder_>
bool PolynomialSplineContainer<splineOrder_>::setData(
    const std::vector<double>& knotDurations,
    const std::vector<double>& knotPositions,
    double initialVelocity, double finalVelocity) {
''')], ['C05', 'C06', 'C07'])
r('co-linear-coeffs', TPP, [('''    coefficients[num_coeffs_spline-1] = knotPositions[splineId]; //a0
    coefficients[num_coeffs_spline-2] = (knotPositions[splineId+1]-knotPositions[splineId]) / duration; // a1
''', '''    const double start = knotPositions[splineId];
    const double delta = knotPositions[splineId+1] - start;
    coefficients[num_coeffs_spline-2] = delta / duration; // a1
    coefficients[num_coeffs_spline-1] = start; //a0
''')], ['C06', 'C07'])
r('co-linear-precheck', TPP, [('''  this->reserveSplines(numSplines);

  for (int splineId = 0; splineId<numSplines; ++splineId) {
    const double duration = knotDurations[splineId+1]-knotDurations[splineId];

    if (duration<=0.0) {
      reset();
      return false;
    }
''', '''  for (int splineId = 0; splineId<numSplines; ++splineId) {
    if (knotDurations[splineId+1] <= knotDurations[splineId]) {
      return false;
    }
  }

  this->reserveSplines(numSplines);

  for (int splineId = 0; splineId<numSplines; ++splineId) {
    const double duration = knotDurations[splineId+1]-knotDurations[splineId];
''')], ['C06', 'C07'])
# ---------------------------------------------------------------- curves
r('sc-fit-delegate', SC, [('    container_.setData(times, values, 0.0, 0.0, 0.0, 0.0);\n    minTime_ = times.front();', '    fitCurve(times, values, 0.0, 0.0, 0.0, 0.0, outKeys);')], ['C09'])
r('sc-derivative-if', SC, [('''    time -= minTime_;
    switch (derivativeOrder) {
      case(1): {
        value = container_.getVelocityAtTime(time);
      } break;

      case(2): {
        value = container_.getAccelerationAtTime(time);
      } break;

      default:
        return false;
    }

    return true;''', '''    const Time local = time - minTime_;
    if (derivativeOrder == 1) {
      value = container_.getVelocityAtTime(local);
      return true;
    }
    if (derivativeOrder == 2) {
      value = container_.getAccelerationAtTime(local);
      return true;
    }
    return false;''')], ['C09'])
r('sc-options-index', SC, [('''    for (const auto& options : optionList) {
      container_.addSpline(PolynomialSplineQuintic(options));
    }
    minTime_ = 0.0;''', '''    for (size_t i = 0; i < optionList.size(); ++i) {
      PolynomialSplineQuintic spline;
      spline.computeCoefficients(optionList[i]);
      container_.addSpline(spline);
    }
    minTime_ = 0.0;''')], ['C09'])
r('vc-extract', VC, [('''    minTime_ = times.front();
    for (size_t i = 0; i < N; ++i) {
      std::vector<double> scalarValues;
      scalarValues.reserve(times.size());
      for (size_t t = 0; t < times.size(); ++t) scalarValues.push_back(values.at(t)(i));
      containers_.at(i).setData(times, scalarValues, 0.0, 0.0, 0.0, 0.0);
    }''', '''    const DerivativeType zero = DerivativeType::Zero();
    fitCurve(times, values, zero, zero, zero, zero);''')], ['C10'])
r('vc-sized', VC, [('''      std::vector<double> scalarValues, scalarFirstDerivates, scalarSecondDerivates;
      scalarValues.reserve(times.size());
      scalarFirstDerivates.reserve(times.size());
      scalarSecondDerivates.reserve(times.size());
      for (size_t t = 0; t < times.size(); ++t) {
        scalarValues.push_back(values.at(t)(i));
        scalarFirstDerivates.push_back(firstDerivatives.at(t)(i));
        scalarSecondDerivates.push_back(secondDerivatives.at(t)(i));
      }
      // TODO Copy all derivates, right now only first and last are supported.
      containers_.at(i).setData(times, scalarValues,
                                *(scalarFirstDerivates.begin()), *(scalarSecondDerivates.begin()),
                                *(scalarFirstDerivates.end() - 1), *(scalarSecondDerivates.end() - 1));''',
'''      std::vector<double> scalarValues(times.size());
      for (size_t t = 0; t < times.size(); ++t) {
        scalarValues[t] = values.at(t)(i);
      }
      // TODO Copy all derivates, right now only first and last are supported.
      const size_t last = times.size() - 1;
      containers_.at(i).setData(times, scalarValues,
                                firstDerivatives.at(0)(i), secondDerivatives.at(0)(i),
                                firstDerivatives.at(last)(i), secondDerivatives.at(last)(i));''')], ['C10'])
r('vc-derivative-order', VC, [('''    for (size_t i = 0; i < N; ++i) {
      if (derivativeOrder == 1) {
        value(i) = containers_.at(i).getVelocityAtTime(time);
      }
      else if (derivativeOrder == 2) {
        value(i) = containers_.at(i).getAccelerationAtTime(time);
      }
      else {
        return false;
      }
    }
    return true;''', '''    if (derivativeOrder != 1 && derivativeOrder != 2) {
      return false;
    }
    for (size_t i = 0; i < N; ++i) {
      const auto& container = containers_[i];
      value(i) = (derivativeOrder == 1) ? container.getVelocityAtTime(time) : container.getAccelerationAtTime(time);
    }
    return true;''')], ['C10'])
# ---------------------------------------------------------------- store
r('ma-has-lower', MAN, [('''  for ((*it) = timeToCoefficient_.begin();
      (*it) != timeToCoefficient_.end(); ++(*it)) {
    if ((*it)->first >= time-tol) {
      if ((*it)->first <= time+tol) {
        return true;
      } else {
        return false;
      }
    }
  }
  return false;''', '''  *it = timeToCoefficient_.lower_bound(time - tol);
  return *it != timeToCoefficient_.end() && (*it)->first <= time + tol;''')], ['C11', 'C12'])
r('ma-range-for', MAN, [('''  CoefficientIter it;
  it = timeToCoefficient_.begin();
  for( ; it != timeToCoefficient_.end(); ++it) {
    outKeys->push_back(it->second.key);
  }''', '''  for (const auto& entry : timeToCoefficient_) {
    outKeys->push_back(entry.second.key);
  }'''), ('''  CoefficientIter it;
  it = timeToCoefficient_.begin();
  for( ; it != timeToCoefficient_.end(); ++it) {
    outTimes->push_back(it->first);
  }''', '''  for (const auto& entry : timeToCoefficient_) {
    outTimes->push_back(entry.first);
  }''')], ['C12'])
r('ma-insert-emplace', MAN, [('''    std::pair<Time, KeyCoefficient> iterator(time, KeyCoefficient(key, coefficient));
    std::pair<CoefficientIter, bool> success =
        timeToCoefficient_.insert(iterator);
    keyToCoefficient_[key] = success.first;''', '''    const CoefficientIter inserted = timeToCoefficient_.insert(std::make_pair(time, KeyCoefficient(key, coefficient))).first;
    keyToCoefficient_.insert(std::make_pair(key, inserted));''')], ['C11', 'C12', 'C14'])
r('ma-insert-early', MAN, [('''  CoefficientIter it;
  Key key;

  if (this->hasCoefficientAtTime(time, &it)) {
    this->updateCoefficientByKey(it->second.key, coefficient);
    key = it->second.key;
  } else {
    key = KeyGenerator::getNextKey();''', '''  CoefficientIter existing;

  if (this->hasCoefficientAtTime(time, &existing)) {
    const Key oldKey = existing->second.key;
    this->updateCoefficientByKey(oldKey, coefficient);
    return oldKey;
  }
  const Key key = KeyGenerator::getNextKey();
  {'''), ], ['C11', 'C14'])
r('ma-remove-order', MAN, [('''  it2 = keyToCoefficient_.find(key);
  it1 = timeToCoefficient_.find(it2->second->first);
  timeToCoefficient_.erase(it1);
  keyToCoefficient_.erase(it2);''', '''  it2 = keyToCoefficient_.find(key);
  it1 = timeToCoefficient_.find(it2->second->first);
  keyToCoefficient_.erase(it2);
  timeToCoefficient_.erase(it1);''')], ['C11'])
r('ma-remove-bykey', MAN, [('''  it1 = timeToCoefficient_.find(time);
  it2 = keyToCoefficient_.find(it1->second.key);
  timeToCoefficient_.erase(it1);
  keyToCoefficient_.erase(it2);''', '''  it1 = timeToCoefficient_.find(time);
  keyToCoefficient_.erase(it1->second.key);
  timeToCoefficient_.erase(time);''')], ['C11'])
r('ma-at-lower', MAN, [('''  CoefficientIter it;

  if(time == getMaxTime()) {
    it = timeToCoefficient_.end();
    --it;
  } else {
    it = timeToCoefficient_.upper_bound(time);
  }
  if(it == timeToCoefficient_.begin() || it == timeToCoefficient_.end()) {
    LOG(INFO) << "time, " << time << ", is out of bounds: [" << getMinTime() << ", " << getMaxTime() << "]";
    return false;
  }
  --it;

  // Okay. Now we know that the time is bracketed by
  // it and it + 1.
  *outCoefficient0 = it;
  *outCoefficient1 = (++it);
''', '''  CoefficientIter upper = (time == getMaxTime()) ? std::prev(timeToCoefficient_.end())
                                                 : timeToCoefficient_.upper_bound(time);
  if(upper == timeToCoefficient_.begin() || upper == timeToCoefficient_.end()) {
    LOG(INFO) << "time, " << time << ", is out of bounds: [" << getMinTime() << ", " << getMaxTime() << "]";
    return false;
  }
  *outCoefficient1 = upper;
  *outCoefficient0 = std::prev(upper);
''')], ['C12', 'C14'])
r('ma-range-minmax', MAN, [('''    // be forgiving if start time is lower than definition of curve
    if (startTime < this->getMinTime()) {
      startTime = this->getMinTime();
    }
    // be forgiving if end time is greater than definition of curve
    if (endTime > this->getMaxTime()) {
      endTime = this->getMaxTime();
    }''', '''    startTime = std::max(startTime, this->getMinTime());
    endTime = std::min(endTime, this->getMaxTime());''')], ['C12'])
r('ma-insertmany', MAN, [('''  for(Key i = 0; i < times.size(); ++i) {
    if (outKeys != NULL) {
      outKeys->push_back(insertCoefficient(times[i], values[i]));
    } else {
      insertCoefficient(times[i], values[i]);
    }
  }''', '''  for(size_t i = 0; i < times.size(); ++i) {
    const Key key = insertCoefficient(times[i], values[i]);
    if (outKeys) {
      outKeys->push_back(key);
    }
  }''')], ['C11', 'C14'])
r('ma-equals-early', MAN, [('''  bool equal = true;
  equal &= keyToCoefficient_.size() == other.keyToCoefficient_.size();
  equal &= timeToCoefficient_.size() == other.timeToCoefficient_.size();
  if (equal) {
    CoefficientIter it1, it2;
    it1 = timeToCoefficient_.begin();
    it2 = other.timeToCoefficient_.begin();
    for( ; it1 != timeToCoefficient_.end(); ++it1, ++it2) {
      equal &= it1->first == it2->first;
      equal &= it1->second.equals(it2->second);
    }
  }
  return equal;''', '''  if (keyToCoefficient_.size() != other.keyToCoefficient_.size()) return false;
  if (timeToCoefficient_.size() != other.timeToCoefficient_.size()) return false;
  CoefficientIter it2 = other.timeToCoefficient_.begin();
  for (CoefficientIter it1 = timeToCoefficient_.begin(); it1 != timeToCoefficient_.end(); ++it1, ++it2) {
    if (it1->first != it2->first || !it1->second.equals(it2->second)) return false;
  }
  return true;''')], ['C12'])
r('ma-modify-emplace', MAN, [('''  CoefficientIter newIt = timeToCoefficient_.insert(it,std::pair<Time, KeyCoefficient>(time, KeyCoefficient(it->second.key, coefficient)));
  // Update keyToCoefficient_
  keyToCoefficient_[it->second.key] = newIt;
  // Remove the old coefficient
  timeToCoefficient_.erase(it);''', '''  const Key key = it->second.key;
  timeToCoefficient_.erase(it);
  keyToCoefficient_[key] = timeToCoefficient_.insert(std::pair<Time, KeyCoefficient>(time, KeyCoefficient(key, coefficient))).first;''')], ['C11'])
# ---------------------------------------------------------------- Hermite
r('he-fit-fill', HER, [('''  for (size_t i = 0; i < times.size(); ++i) {
    DerivativeType derivative;
    // catch the boundaries (i == 0 && i == max)
    if (i == 0) {
      // First key.
      if (times.size() > 1) {
//        derivative = calculateSlope(times[0], times[1], values[0], values[1]);
        derivative = initialDerivative;
      } else {
        // set velocities == 0 for start point if only one coefficient
        derivative = initialDerivative;
      }
    } else if (i == times.size() - 1) {''', '''  const size_t nPoints = times.size();
  coefficients.reserve(nPoints);
  for (size_t i = 0; i < nPoints; ++i) {
    DerivativeType derivative;
    // catch the boundaries (i == 0 && i == max)
    if (i == 0) {
      derivative = initialDerivative;
    } else if (i + 1 == nPoints) {''')], ['C14'])
r('he-fit-split', HER, [('''    coefficients.push_back(Coefficient(values[i], derivative));
  }

  manager_.clear();
  manager_.insertCoefficients(times, coefficients, outKeys);''', '''    coefficients.push_back(Coefficient(values[i], derivative));
  }

  manager_.clear();
  for (size_t i = 0; i < times.size(); ++i) {
    const Key key = manager_.insertCoefficient(times[i], coefficients[i]);
    if (outKeys != NULL) outKeys->push_back(key);
  }''')], ['C14'])
r('he-eval-basis', HER, [('''     const double beta0 = 2.0 * alpha3 - 3.0 * alpha2 + 1.0;
     const double beta1 = -2.0 * alpha3 + 3.0 * alpha2;''', '''     const double beta1 = alpha2 * (3.0 - 2.0 * alpha);
     const double beta0 = 1.0 - beta1;''')], ['C14'])
r('he-slope', HER, [('''  const double inverse_dt_sec = 1.0/double(timeB - timeA);
  // Original curves implementation was buggy for 180 deg flips.

  // Calculate the global angular velocity:
  const DerivativeType velocity_m_s = (positionB - positionA) * inverse_dt_sec;
  // note: unit of derivative is m/s for first 3 and rad/s for last 3 entries
  return velocity_m_s;''', '''  return (positionB - positionA) / double(timeB - timeA);''')], ['C14'])
# ---------------------------------------------------------------- CSV
r('cs-load-index', CSV, [('''  for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
    const unsigned fields = itRow->size();
    CHECK_GE(fields, 1) << "String matrix row has no entries.";
    outFileStream << itRow->at(0);
    for (unsigned i = 1; i < fields; i++) {
      outFileStream << "," << itRow->at(i);
    }
    outFileStream << std::endl;
  }''', '''  for (const auto& row : strMatrix) {
    CHECK_GE(row.size(), 1) << "String matrix row has no entries.";
    for (size_t i = 0; i < row.size(); ++i) {
      if (i > 0) outFileStream << ",";
      outFileStream << row[i];
    }
    outFileStream << "\\n";
  }''')], ['C15'])
r('cs-load-move', CSV, [('''    std::string field;
    while (getline(ss, field,',')) {
      strRow.push_back(field); // add column entry to row
    }
    strMatrix.push_back(strRow); // add row to matrix''', '''    for (std::string field; std::getline(ss, field, ','); ) {
      strRow.push_back(field); // add column entry to row
    }
    strMatrix.push_back(std::move(strRow)); // add row to matrix''')], ['C15'])
r('cs-vec-helper', CSV, [('''  Eigen::VectorXd tempVec(vDim);
  for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
    for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
    }
    outValues->push_back(tempVec);
  }''', '''  for (size_t row = 0; row < temp.size(); ++row) {
    outTimes->push_back(atof(temp[row].at(0).c_str()));
    Eigen::VectorXd rowVec(vDim);
    for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
      rowVec(vIdx) = std::stod(temp[row].at(vOffset + vIdx));
    }
    outValues->push_back(rowVec);
  }''')], ['C15'])
r('cs-write-sep', CSV, [('''  for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
    const unsigned fields = itRow->size();
    CHECK_GE(fields, 1) << "String matrix row has no entries.";
    outFileStream << itRow->at(0);
    for (unsigned i = 1; i < fields; i++) {
      outFileStream << "," << itRow->at(i);
    }
    outFileStream << std::endl;
  }''', '''  for (size_t r = 0; r < strMatrix.size(); ++r) {
    const std::vector<std::string>& row = strMatrix[r];
    CHECK_GE(row.size(), 1) << "String matrix row has no entries.";
    for (size_t i = 0; i < row.size(); ++i) {
      outFileStream << row[i];
      if (i + 1 < row.size()) outFileStream << ',';
    }
    outFileStream << std::endl;
  }''')], ['C15'])
r('cs-write-first', CSV, [('''  for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
    const unsigned fields = itRow->size();
    CHECK_GE(fields, 1) << "String matrix row has no entries.";
    outFileStream << itRow->at(0);
    for (unsigned i = 1; i < fields; i++) {
      outFileStream << "," << itRow->at(i);
    }
    outFileStream << std::endl;
  }''', '''  for (const std::vector<std::string>& row : strMatrix) {
    CHECK_GE(row.size(), 1) << "String matrix row has no entries.";
    bool first = true;
    for (const std::string& field : row) {
      if (!first) outFileStream << ",";
      outFileStream << field;
      first = false;
    }
    outFileStream << std::endl;
  }''')], ['C15'])
r('cs-write-delim', CSV, [('''  for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
    const unsigned fields = itRow->size();
    CHECK_GE(fields, 1) << "String matrix row has no entries.";
    outFileStream << itRow->at(0);
    for (unsigned i = 1; i < fields; i++) {
      outFileStream << "," << itRow->at(i);
    }
    outFileStream << std::endl;
  }''', '''  for (const std::vector<std::string>& row : strMatrix) {
    CHECK_GE(row.size(), 1) << "String matrix row has no entries.";
    const char* delim = "";
    for (const std::string& field : row) {
      outFileStream << delim << field;
      delim = ",";
    }
    outFileStream << std::endl;
  }''')], ['C15'])
r('cs-write-line', CSV, [('''  for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
    const unsigned fields = itRow->size();
    CHECK_GE(fields, 1) << "String matrix row has no entries.";
    outFileStream << itRow->at(0);
    for (unsigned i = 1; i < fields; i++) {
      outFileStream << "," << itRow->at(i);
    }
    outFileStream << std::endl;
  }''', '''  for (const std::vector<std::string>& row : strMatrix) {
    CHECK_GE(row.size(), 1) << "String matrix row has no entries.";
    std::string line = row.front();
    for (size_t i = 1; i < row.size(); ++i) {
      line += ",";
      line += row[i];
    }
    outFileStream << line << std::endl;
  }''')], ['C15'])
r('cs-write-helper', CSV, [('''template <typename T>
std::string toString(const T& t) {''', '''namespace {
void writeRow(std::ostream& stream, const std::vector<std::string>& row) {
  CHECK_GE(row.size(), 1) << "String matrix row has no entries.";
  stream << row.at(0);
  for (size_t i = 1; i < row.size(); i++) {
    stream << "," << row.at(i);
  }
  stream << std::endl;
}
}

template <typename T>
std::string toString(const T& t) {'''), ('''  for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
    const unsigned fields = itRow->size();
    CHECK_GE(fields, 1) << "String matrix row has no entries.";
    outFileStream << itRow->at(0);
    for (unsigned i = 1; i < fields; i++) {
      outFileStream << "," << itRow->at(i);
    }
    outFileStream << std::endl;
  }''', '''  for (const std::vector<std::string>& row : strMatrix) {
    writeRow(outFileStream, row);
  }''')], ['C15'])
r('cs-write-while', CSV, [('''  for (std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin() ; itRow != strMatrix.end(); ++itRow) {
    const unsigned fields = itRow->size();
    CHECK_GE(fields, 1) << "String matrix row has no entries.";
    outFileStream << itRow->at(0);
    for (unsigned i = 1; i < fields; i++) {
      outFileStream << "," << itRow->at(i);
    }
    outFileStream << std::endl;
  }''', '''  std::vector<std::vector<std::string> >::const_iterator itRow = strMatrix.begin();
  while (itRow != strMatrix.end()) {
    CHECK(!itRow->empty()) << "String matrix row has no entries.";
    std::vector<std::string>::const_iterator itField = itRow->begin();
    outFileStream << *itField;
    for (++itField; itField != itRow->end(); ++itField) {
      outFileStream << "," << *itField;
    }
    outFileStream << std::endl;
    ++itRow;
  }''')], ['C15'])
r('cs-load-helper', CSV, [('''template <typename T>
std::string toString(const T& t) {''', '''namespace {
std::vector<std::string> splitLine(const std::string& line) {
  std::istringstream ss(line);
  std::vector<std::string> fields;
  std::string field;
  while (std::getline(ss, field, ',')) {
    fields.push_back(field);
  }
  return fields;
}
}

template <typename T>
std::string toString(const T& t) {'''), ('''    // Make string stream out of line
    std::istringstream ss(line);
    std::vector<std::string> strRow;
    // Loop over comma separated fields of CSV line
    std::string field;
    while (getline(ss, field,',')) {
      strRow.push_back(field); // add column entry to row
    }
    strMatrix.push_back(strRow); // add row to matrix''', '''    strMatrix.push_back(splitLine(line));''')], ['C15'])
r('cs-load-back', CSV, [('''    // Make string stream out of line
    std::istringstream ss(line);
    std::vector<std::string> strRow;
    // Loop over comma separated fields of CSV line
    std::string field;
    while (getline(ss, field,',')) {
      strRow.push_back(field); // add column entry to row
    }
    strMatrix.push_back(strRow); // add row to matrix''', '''    std::istringstream ss(line);
    strMatrix.push_back(std::vector<std::string>());
    std::string field;
    while (getline(ss, field,',')) {
      strMatrix.back().push_back(field);
    }''')], ['C15'])
r('cs-load-emplace', CSV, [('''    // Make string stream out of line
    std::istringstream ss(line);
    std::vector<std::string> strRow;
    // Loop over comma separated fields of CSV line
    std::string field;
    while (getline(ss, field,',')) {
      strRow.push_back(field); // add column entry to row
    }
    strMatrix.push_back(strRow); // add row to matrix''', '''    std::istringstream ss(line);
    std::vector<std::string> strRow;
    std::string field;
    while (getline(ss, field,',')) {
      strRow.emplace_back(field);
    }
    strMatrix.emplace_back(strRow);''')], ['C15'])
r('cs-load-outer-row', CSV, [('''  std::string line;
''', '''  std::string line, field;
  std::vector<std::string> strRow;
'''), ('''    // Make string stream out of line
    std::istringstream ss(line);
    std::vector<std::string> strRow;
    // Loop over comma separated fields of CSV line
    std::string field;
    while (getline(ss, field,',')) {
      strRow.push_back(field); // add column entry to row
    }
    strMatrix.push_back(strRow); // add row to matrix''', '''    std::istringstream ss(line);
    strRow.clear();
    while (getline(ss, field,',')) {
      strRow.push_back(field);
    }
    strMatrix.push_back(strRow);''')], ['C15'])
r('cs-vec-rangefor', CSV, [('''  for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
    for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
    }
    outValues->push_back(tempVec);
  }''', '''  for (const auto& row : temp) {
    for (unsigned vIdx = 0; vIdx < vDim; ++vIdx) tempVec[vIdx] = atof(row.at(vIdx + vOffset).c_str());
    outValues->push_back(tempVec);
    outTimes->push_back(atof(row.at(0).c_str()));
  }'''), ('''  for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
    for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
    }
    outValues->push_back(tempVec);
  }''', '''  for (size_t i = 0; i < temp.size(); ++i) {
    const std::vector<std::string>& row = temp.at(i);
    outTimes0->push_back(atof(row[0].c_str()));
    outTimes1->push_back(atof(row[1].c_str()));
    for (unsigned col = vOffset; col < vOffset + vDim; ++col) {
      tempVec(col - vOffset) = atof(row.at(col).c_str());
    }
    outValues->push_back(tempVec);
  }''')], ['C15'])
r('cs-vec-shared', CSV, [('''template <typename T>
std::string toString(const T& t) {''', '''namespace {
Eigen::VectorXd parseTail(const std::vector<std::string>& row, unsigned offset, unsigned dim) {
  Eigen::VectorXd out(dim);
  for (unsigned i = 0; i < dim; ++i) {
    out[i] = atof(row.at(i + offset).c_str());
  }
  return out;
}
}

template <typename T>
std::string toString(const T& t) {'''), ('''  Eigen::VectorXd tempVec(vDim);
  for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
    for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
    }
    outValues->push_back(tempVec);
  }''', '''  for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
    outTimes->push_back((curves::Time)atof(it->at(0).c_str()));
    outValues->push_back(parseTail(*it, vOffset, vDim));
  }'''), ('''  Eigen::VectorXd tempVec(vDim);
  for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
    for (unsigned vIdx = 0; vIdx < vDim; vIdx++) {
      tempVec[vIdx] = atof(it->at(vIdx + vOffset).c_str());
    }
    outValues->push_back(tempVec);
  }''', '''  for (std::vector<std::vector<std::string> >::iterator it = temp.begin() ; it != temp.end(); ++it) {
    outTimes0->push_back((curves::Time)atof(it->at(0).c_str()));
    outTimes1->push_back((curves::Time)atof(it->at(1).c_str()));
    outValues->push_back(parseTail(*it, vOffset, vDim));
  }''')], ['C15'])
r('cs-wtv-local', CSV, [('''  std::vector<std::string> strRow;
  strRow.reserve(vOffset + vDim);
  for (unsigned i = 0; i < times.size(); i++) {
    CHECK_EQ(vDim, values.at(i).rows()) << "all vectors must be of the same dimension.";
    strRow.clear();
    strRow.push_back(toString<Time>(times[i]));
    for (unsigned v = 0; v < vDim; v++) {
      strRow.push_back(toString<double>(values[i][v]));
    };
    strMatrix.push_back(strRow);
  }''', '''  for (unsigned i = 0; i < times.size(); i++) {
    CHECK_EQ(vDim, values.at(i).rows()) << "all vectors must be of the same dimension.";
    std::vector<std::string> strRow(vOffset + vDim);
    strRow[0] = toString<Time>(times[i]);
    for (unsigned v = 0; v < vDim; v++) {
      strRow[v + vOffset] = toString<double>(values[i][v]);
    }
    strMatrix.push_back(strRow);
  }''')], ['C15'])
r('cs-wtv-helper', CSV, [('''template <typename T>
std::string toString(const T& t) {
  std::ostringstream ss; ss<<t; return ss.str();
}
''', '''template <typename T>
std::string toString(const T& t) {
  std::ostringstream ss; ss<<t; return ss.str();
}
namespace {
std::vector<std::string> makeRow(Time t, const Eigen::VectorXd& x) {
  std::vector<std::string> row;
  row.push_back(toString<Time>(t));
  for (int v = 0; v < x.rows(); ++v) row.push_back(toString<double>(x(v)));
  return row;
}
}
'''), ('''  std::vector<std::string> strRow;
  strRow.reserve(vOffset + vDim);
  for (unsigned i = 0; i < times.size(); i++) {
    CHECK_EQ(vDim, values.at(i).rows()) << "all vectors must be of the same dimension.";
    strRow.clear();
    strRow.push_back(toString<Time>(times[i]));
    for (unsigned v = 0; v < vDim; v++) {
      strRow.push_back(toString<double>(values[i][v]));
    };
    strMatrix.push_back(strRow);
  }''', '''  for (size_t i = 0; i < times.size(); ++i) {
    CHECK_EQ(vDim, values.at(i).rows()) << "all vectors must be of the same dimension.";
    strMatrix.push_back(makeRow(times[i], values[i]));
  }''')], ['C15'])
r('cs-wtv-check-first', CSV, [('''  std::vector<std::string> strRow;
  strRow.reserve(vOffset + vDim);
  for (unsigned i = 0; i < times.size(); i++) {
    CHECK_EQ(vDim, values.at(i).rows()) << "all vectors must be of the same dimension.";
    strRow.clear();
    strRow.push_back(toString<Time>(times[i]));
    for (unsigned v = 0; v < vDim; v++) {
      strRow.push_back(toString<double>(values[i][v]));
    };
    strMatrix.push_back(strRow);
  }''', '''  for (unsigned i = 0; i < values.size(); i++) {
    CHECK_EQ(vDim, values.at(i).rows()) << "all vectors must be of the same dimension.";
  }
  for (unsigned i = 0; i < times.size(); i++) {
    std::vector<std::string> strRow;
    strRow.push_back(toString<Time>(times[i]));
    for (unsigned v = 0; v < vDim; v++) {
      strRow.push_back(toString<double>(values[i][v]));
    };
    strMatrix.push_back(strRow);
  }''')], ['C15'])
# ---------------------------------------------------------------- pose curve
SE3 = SRC + 'CubicHermiteSE3Curve.cpp'
r('se-fit-fill', SE3, [('''    coefficients.push_back(Coefficient(values[i], derivative));''', '''    coefficients[i] = Coefficient(values[i], derivative);'''), ('  std::vector<Coefficient> coefficients;\n', '  std::vector<Coefficient> coefficients(times.size());\n')], ['C16'])
r('se-fit-branches', SE3, [('''      if (times.size() > 1) {
//        derivative = calculateSlope(times[0], times[1], values[0], values[1]);
        derivative = initialDerivative;
      } else {
        // set velocities == 0 for start point if only one coefficient
        derivative = initialDerivative;
      }''', '''      derivative = initialDerivative;''')], ['C16'])
r('se-slope', SE3, [('T_W_B.getRotation().boxMinus(T_W_A.getRotation()) * inverse_dt_sec;', '(T_W_B.getRotation() * T_W_A.getRotation().inverted()).logarithmicMap() / (timeB - timeA);')], ['C16'])
r('se-rotate', SE3, [('    const Eigen::Vector3d w1 = T_W_A.getRotation().inverseRotate(scaled_d_W_A);', '    const Eigen::Vector3d w1 = T_W_A.getRotation().inverted().rotate(scaled_d_W_A);')], ['C16'])
r('se-basis', SE3, [('    const double dBeta1 = alpha3 - 3.0 * alpha2 + 3.0 * alpha;', '    const double one_minus_alpha = 1.0 - alpha;\n    const double dBeta1 = 1.0 - one_minus_alpha * one_minus_alpha * one_minus_alpha;'), ('    const double dBeta2 = -2.0 * alpha3 + 3.0 * alpha2;', '    const double dBeta2 = alpha2 * (3.0 - 2.0 * alpha);')], ['C16'])
r('se-velocity', SE3, [('q.getRotation().rotate((q.getRotation().inverted()*qDiff).imaginary());', '(qDiff * q.getRotation().inverted()).imaginary();')], ['C16'])
r('se-helper', SE3, [('''    const Eigen::Vector3d w1 = T_W_A.getRotation().inverseRotate(scaled_d_W_A);
    const Eigen::Vector3d w3 = T_W_B.getRotation().inverseRotate(scaled_d_W_B);
    const RotationQuaternion expW1_inv = RotationQuaternion().exponentialMap(-w1);
    const RotationQuaternion expW3_inv = RotationQuaternion().exponentialMap(-w3);
    const RotationQuaternion expW1_Inv_qWB_expW3 = expW1_inv * T_W_A.getRotation().inverted() * T_W_B.getRotation() * expW3_inv;
    const Eigen::Vector3d w2 = expW1_Inv_qWB_expW3.logarithmicMap();''', '''    Eigen::Vector3d w1, w2, w3;
    controlVectors(T_W_A.getRotation(), T_W_B.getRotation(), scaled_d_W_A, scaled_d_W_B, w1, w2, w3);'''),
  ('bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {', '''namespace {
void controlVectors(const RotationQuaternion& qA, const RotationQuaternion& qB, const Eigen::Vector3d& dA, const Eigen::Vector3d& dB,
                    Eigen::Vector3d& w1, Eigen::Vector3d& w2, Eigen::Vector3d& w3) {
  w1 = qA.inverseRotate(dA);
  w3 = qB.inverseRotate(dB);
  w2 = (RotationQuaternion().exponentialMap(-w1) * qA.inverted() * qB * RotationQuaternion().exponentialMap(-w3)).logarithmicMap();
}
}
bool CubicHermiteSE3Curve::evaluate(ValueType& value, Time time) const {''')], ['C16'])
r('se-inverse', SE3, [('    const RotationQuaternion expW1_inv = RotationQuaternion().exponentialMap(-w1);', '    const RotationQuaternion expW1_inv = RotationQuaternion().exponentialMap(w1).inverted();')], ['C16'])
r('se-diff', SE3, [('''      const Eigen::Vector4d diff =    ((T_W_A.getRotation() * w1_beta1_exp * w1_dbeta1    * w2_beta2_exp * w3_beta3_exp).vector()
                              + (T_W_A.getRotation() * w1_beta1_exp * w2_beta2_exp * w2_dbeta2    * w3_beta3_exp).vector()
                              + (T_W_A.getRotation() * w1_beta1_exp * w2_beta2_exp * w3_beta3_exp * w3_dbeta3   ).vector())*one_over_dt_sec;''', '''      const RotationQuaternion head = T_W_A.getRotation() * w1_beta1_exp;
      const RotationQuaternion tail = w2_beta2_exp * w3_beta3_exp;
      const Eigen::Vector4d first = (head * w1_dbeta1 * tail).vector();
      const Eigen::Vector4d second = (head * w2_dbeta2 * tail).vector();
      const Eigen::Vector4d third = (head * tail * w3_dbeta3).vector();
      const Eigen::Vector4d diff = (first + second + third)*one_over_dt_sec;''')], ['C16'])
r('se-early', SE3, [('''  if (derivativeOrder == 1) {
    // Check if''', '''  if (derivativeOrder != 1) {
    return false;
  } else {
    // Check if'''), ('''  else {
    std::cerr << "CubicHermiteSE3Curve::evaluateDerivative: higher order derivatives are not implemented!";
    return false;
  }
''', '')], ['C16'])
r('se-accel', SE3, [('''  const double d_gamma0 = 6.0*(2*alpha - 1.0)*d_alpha;''', '''  const double d_gamma0 = (12.0*alpha - 6.0)/dt_sec;''')], ['C16'])
r('se-eval-helper', SE3, [('''    const SE3::Position translation(T_W_A.getPosition().vector() * beta0
                                  + T_W_B.getPosition().vector() * beta1
                                  + d_W_A.getTranslationalVelocity().vector() * (beta2 * dt_sec)
                                  + d_W_B.getTranslationalVelocity().vector() * (beta3 * dt_sec));''', '''    Eigen::Vector3d sum = beta0 * T_W_A.getPosition().vector();
    sum += beta1 * T_W_B.getPosition().vector();
    sum += dt_sec * (beta2 * d_W_A.getTranslationalVelocity().vector() + beta3 * d_W_B.getTranslationalVelocity().vector());
    const SE3::Position translation(sum);''')], ['C16'])
# ---------------------------------------------------------------- keys
r('ke-split', KEY, [('  return ++key;', '  key += 1;\n  const size_t result = key;\n  return result;')], ['C13'])
r('ke-scope', KEY, [('  boost::lock_guard<boost::mutex> guard(mutex);\n  return ++key;', '  size_t result;\n  {\n    boost::mutex::scoped_lock lock(mutex);\n    result = ++key;\n  }\n  return result;')], ['C13'])
r('ke-unique', KEY, [('  boost::lock_guard<boost::mutex> guard(mutex);\n  return ++key;', '  boost::unique_lock<boost::mutex> lock(mutex);\n  ++key;\n  return key;')], ['C13'])

# ---------------------------------------------------------------- messages
RJ = 'curves_ros/src/RosJointTrajectoryInterface.cpp'; RP = 'curves_ros/src/RosMultiDOFJointTrajectoryInterface.cpp'; RT = 'curves_ros/src/RosMultiDOFJointTrajectoryTranslationInterface.cpp'
SEARCH = """  size_t nJoints = message.joint_names.size();
  size_t j = 0;
  for (; j < nJoints; ++j) {
    if (message.joint_names[j] == jointName) break;
  }
  if (j == nJoints) return false; // Joint name not found.
"""
r('ro-find', RJ, [(SEARCH, """  const auto it = std::find(message.joint_names.begin(), message.joint_names.end(), jointName);
  if (it == message.joint_names.end()) return false; // Joint name not found.
  const size_t j = std::distance(message.joint_names.begin(), it);
"""), ('#include <vector>', '#include <algorithm>\n#include <vector>')], ['C18'])
r('ro-flag', RP, [(SEARCH, """  bool found = false;
  size_t j = 0;
  for (size_t k = 0; k < message.joint_names.size() && !found; ++k) {
    if (message.joint_names[k] == jointName) {
      j = k;
      found = true;
    }
  }
  if (!found) return false;
""")], ['C18'])
r('ro-while', RT, [(SEARCH, """  const size_t nJoints = message.joint_names.size();
  size_t j = 0;
  while (j < nJoints && message.joint_names[j] != jointName) ++j;
  if (j >= nJoints) return false; // Joint name not found.
""")], ['C18'])
r('ro-helper', RT, [(SEARCH, """  size_t j = 0;
  if (!findJoint(message.joint_names, jointName, j)) return false;
"""), ('namespace curves {\n', """namespace curves {

namespace {
bool findJoint(const std::vector<std::string>& names, const std::string& name, size_t& index) {
  for (index = 0; index < names.size(); ++index) {
    if (names[index] == name) return true;
  }
  return false;
}
}
""")], ['C18'])
r('ro-index', RJ, [("""  for (const auto& point : message.points) {
    times.push_back(ros::Duration(point.time_from_start).toSec());
    values.push_back(point.positions[j]);
  }""", """  const size_t nPoints = message.points.size();
  times.reserve(nPoints);
  values.reserve(nPoints);
  for (size_t i = 0; i < nPoints; ++i) {
    times.push_back(message.points[i].time_from_start.toSec());
    values.push_back(message.points.at(i).positions.at(j));
  }""")], ['C18'])
r('ro-fill', RT, [("""    PolynomialSplineQuinticVector3Curve::ValueType position(point.transforms[j].translation.x,
                                                            point.transforms[j].translation.y,
                                                            point.transforms[j].translation.z);
    values.push_back(position);""", """    const auto& translation = point.transforms[j].translation;
    values.emplace_back(translation.x, translation.y, translation.z);""")], ['C18'])
r('ro-two-loops', RP, [("""  for (const auto& point : message.points) {
    times.push_back(ros::Duration(point.time_from_start).toSec());
    CubicHermiteSE3Curve""", """  for (const auto& point : message.points) {
    times.push_back(ros::Duration(point.time_from_start).toSec());
  }
  for (const auto& point : message.points) {
    CubicHermiteSE3Curve""")], ['C18'])
r('ro-sized', RJ, [("""  for (const auto& point : message.points) {
    times.push_back(ros::Duration(point.time_from_start).toSec());
    values.push_back(point.positions[j]);
  }""", """  times.resize(message.points.size());
  values.resize(message.points.size());
  size_t i = 0;
  for (const auto& point : message.points) {
    times[i] = point.time_from_start.toSec();
    values[i] = point.positions[j];
    ++i;
  }""")], ['C18'])

r('sa-range', SE3, [("""  for (size_t i = 0; i < times.size(); ++i) {
    evaluate(val, times[i]);
    v <<""", """  curveValues.reserve(times.size());
  for (const Time& time : times) {
    evaluate(val, time);
    v <<""")], ['C19'])
r('sa-local', SE3, [("""    v << val.getPosition().x(), val.getPosition().y(), val.getPosition().z(),
        val.getRotation().w(), val.getRotation().x(), val.getRotation().y(), val.getRotation().z();
    curveValues.push_back(v);""", """    Eigen::VectorXd row(7);
    row(0) = val.getPosition().x();
    row(1) = val.getPosition().y();
    row(2) = val.getPosition().z();
    row(3) = val.getRotation().w();
    row(4) = val.getRotation().x();
    row(5) = val.getRotation().y();
    row(6) = val.getRotation().z();
    curveValues.push_back(row);""")], ['C19'])
r('sa-helper', SE3, [("""    v << val.getPosition().x(), val.getPosition().y(), val.getPosition().z(),
        val.getRotation().w(), val.getRotation().x(), val.getRotation().y(), val.getRotation().z();
    curveValues.push_back(v);""", """    curveValues.push_back(toVector(val));"""), ('void CubicHermiteSE3Curve::saveCurveAtTimes(', """static Eigen::VectorXd toVector(const CubicHermiteSE3Curve::ValueType& pose) {
  Eigen::VectorXd v(7);
  v << pose.getPosition().vector(), pose.getRotation().w(), pose.getRotation().x(), pose.getRotation().y(), pose.getRotation().z();
  return v;
}

void CubicHermiteSE3Curve::saveCurveAtTimes("""), ('  Eigen::VectorXd v(7);\n\n', '')], ['C19'])

def main():
    ids = sys.argv[1:] or list(R)
    T = '/tmp/rf-tree'
    for id in ids:
        f, edits, props = R[id]
        shutil.rmtree(T, ignore_errors=True); subprocess.check_call(['cp', '-a', os.environ.get('RF_REPO', '/repo'), T])
        for e in edits:
            g, old, new = e if len(e) == 3 else (f,) + e
            p = os.path.join(T, g); s = open(p).read()
            if old not in s: print(id, 'EDIT DOES NOT APPLY', old[:60]); break
            open(p, 'w').write(s.replace(old, new, 1))
        else:
            for pr in props:
                t = time.time()
                o = subprocess.run([sys.executable, os.path.join(HERE, '..', 'check.py'), pr, '--tier', 'quick'], env=dict(os.environ, VERIF_REPO=T, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                last = [l for l in o.stdout.splitlines() if l.strip()]
                print('%-22s %s rc=%d %4.0fs %s' % (id, pr, o.returncode, time.time() - t, (last or [''])[-1][:150]), flush=True)
                if o.returncode or 'proved' not in (last or [''])[-1]:
                    for l in last[-14:-1]: print('      ', l[:220], flush=True)
    shutil.rmtree(T, ignore_errors=True)
if __name__ == '__main__': main()
