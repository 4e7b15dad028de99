"""what each property's check consists of"""
TRUSTED = ['clang 18 front end (AST of the code under contract)', 'extractor/extract.cpp (dumps that AST)', 'engine/sx.py, engine/models.py (verification conditions; models of std, Eigen, boost)',
           'z3 (python3-vt)', 'engine/poly.py (polynomial identity checker)']
COMMON_ASSUMPTIONS = ['double arithmetic is read as exact real arithmetic; NaN and infinities are out of scope (rounding is sampled by the native runs only)',
                      'std::vector/array/map, algorithms, Eigen dense operations behave as their models in engine/models.py',
                      'Eigen solve() returns an exact solution of a solvable linear system (solvability is an obligation)']
SPL = ['curves/include/curves/PolynomialSpline.hpp', 'curves/include/curves/polynomial_splines_traits.hpp', 'curves/src/polynomial_splines_traits.cpp']
CON = ['curves/include/curves/PolynomialSplineContainer.hpp', 'curves/include/curves/PolynomialSplineContainer.tpp']
TR = ['curves/src/polynomial_splines_traits.cpp']
PROPS = {}
import os
STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'stubs')
for p in ('C01', 'C02', 'C03'): PROPS[p] = dict(driver='spline.cpp', src=TR, files=SPL)
for i in (4, 5, 6, 7, 8): PROPS['C%02d' % i] = dict(driver='container.cpp', src=TR, files=SPL + CON, defs=['-DVF_ONLY=%d' % i])
MAN = ['curves/include/curves/LocalSupport2CoefficientManager-inl.hpp', 'curves/include/curves/LocalSupport2CoefficientManager.hpp', 'curves/src/KeyGenerator.cpp']
CUR = ['curves/include/curves/PolynomialSplineScalarCurve.hpp', 'curves/include/curves/PolynomialSplineVectorSpaceCurve.hpp']
for i in (9, 10): PROPS['C%02d' % i] = dict(driver='curves.cpp', src=TR, files=SPL + CON + CUR, defs=['-DVF_ONLY=%d' % i])
for i in (11, 12): PROPS['C%d' % i] = dict(driver='manager.cpp', src=['curves/src/KeyGenerator.cpp'], files=MAN, defs=['-DVF_ONLY=%d' % i], libs=['-lboost_thread', '-lboost_system'])
HER = ['curves/src/CubicHermiteE3Curve.cpp', 'curves/include/curves/CubicHermiteE3Curve.hpp']
PROPS['C14'] = dict(driver='hermite.cpp', src=['curves/src/KeyGenerator.cpp', 'curves/src/CubicHermiteE3Curve.cpp'], files=HER + MAN, native_inc=[STUBS], libs=['-lboost_thread', '-lboost_system'],
                    assumptions=['kindr (named by the header, not installed) is replaced by empty stand-in types; the position curve uses none of its behaviour'])
PROPS['C13'] = dict(driver='keys.cpp', src=['curves/src/KeyGenerator.cpp'], files=['curves/src/KeyGenerator.cpp', 'curves/include/curves/KeyGenerator.hpp'], sym='conc.py', libs=['-lboost_thread', '-lboost_system'], nsecs=10)
CSV = ['curves/src/helpers.cpp', 'curves/include/curves/helpers.hpp']
PROPS['C15'] = dict(driver='csv.cpp', src=['curves/src/helpers.cpp'], files=CSV, ded='ded_csv.cpp',
                    assumptions=['std::string, stream and file operations behave as engine/texts.py (a file is a list of lines, a line a list of comma-free fields); opening for writing succeeds', 'a printed number parses back to itself (the native runs use numbers whose default text is exact)'])
for _p in ('C04', 'C05', 'C06', 'C07', 'C08'): PROPS[_p].update(ded='ded_container.cpp')
for _p in ('C09', 'C10'): PROPS[_p].update(ded='ded_curves.cpp')
for _p in ('C11', 'C12'): PROPS[_p].update(ded='ded_manager.cpp', assumptions=['std::map and boost::unordered_map of any size (below 2^24 entries) behave as engine/maps.py; iterators and references stay valid as the standard says', 'KeyGenerator::getNextKey by its contract (a key not issued before, below 2^62), which C13 proves'])
PROPS['C12']['assumptions'].append('stores satisfy the representation invariant, which the C11 check proves every constructor and mutator establishes')
PROPS['C14'].update(ded='ded_hermite.cpp'); PROPS['C14']['assumptions'] += PROPS['C11']['assumptions']
PSE = ['curves/src/CubicHermiteSE3Curve.cpp', 'curves/include/curves/CubicHermiteSE3Curve.hpp']
PROPS['C16'] = dict(driver='pose.cpp', src=['curves/src/KeyGenerator.cpp', 'curves/src/SE3Curve.cpp', 'curves/src/CubicHermiteSE3Curve.cpp', 'curves/src/helpers.cpp'], files=PSE + MAN,
                    native_inc=[os.path.join(STUBS, 'se3')], ded='ded_pose.cpp', libs=['-lboost_thread', '-lboost_system'], budget=400,
                    assumptions=['kindr is not installed: the code is compiled against the stand-in stubs/se3 (quaternions, positions, transformations, twists in the conventions of kindr 1.0)',
                                 'rotations obey the laws listed in engine/quat.py (unit quaternions, rotate(q,v) = q v conj(q), exp(0) = 1, conj(exp(v)) = exp(-v), exp(log(q)) = q up to sign, derivative of exp along a fixed axis)',
                                 'the poses given to a fit have unit quaternions'] + PROPS['C11']['assumptions'])
ROS = ['curves_ros/src/%s.cpp' % x for x in ('RosJointTrajectoryInterface', 'RosMultiDOFJointTrajectoryInterface', 'RosMultiDOFJointTrajectoryTranslationInterface')]
PROPS['C18'] = dict(driver='ros.cpp', src=ROS + TR + ['curves/src/KeyGenerator.cpp', 'curves/src/SE3Curve.cpp', 'curves/src/CubicHermiteSE3Curve.cpp', 'curves/src/helpers.cpp'], files=ROS, repo_inc=['curves_ros/include'],
                    native_inc=[os.path.join(STUBS, 'se3'), os.path.join(STUBS, 'ros')], ded='ded_ros.cpp', libs=['-lboost_thread', '-lboost_system'],
                    assumptions=['ROS, kindr and kindr_ros are not installed: the code is compiled against the stand-ins stubs/ros and stubs/se3 (messages with the fields of the ROS definitions, Duration::toSec as in roscpp, conversion of a geometry_msgs/Transform as in kindr_ros)',
                                 'fitCurve by its contracts, which C09, C10 and C16 prove (the curve is what the times and values determine and takes each value at its time)',
                                 'each point of a message has at least as many entries as the message has joint names'])
PROPS['C19'] = dict(driver='save.cpp', src=PROPS['C16']['src'], files=PSE + CSV, native_inc=[os.path.join(STUBS, 'se3')], ded='ded_pose.cpp', libs=['-lboost_thread', '-lboost_system'],
                    assumptions=['kindr is not installed: the code is compiled against the stand-in stubs/se3', 'evaluate, the store\'s getTimes and writeTimeVectorCSV by their contracts, which C16, C12 and C15 prove',
                                 'a printed number parses back to itself (the text keeps six digits: the native runs compare to that precision)'])
