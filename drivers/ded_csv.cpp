// instantiates the CSV helpers (engine/spec_csv.py)
#include "vf.h"
#include <string>
#include <vector>
#include <curves/helpers.hpp>
#include <curves/src/helpers.cpp>
using namespace curves;
DRIVER(DED, use_csv) {
  std::vector<std::vector<std::string> > m; std::vector<Time> t, u; std::vector<Eigen::VectorXd> v; std::string f;
  writeCSV(f, m); m = loadCSV(f); loadTimeVectorCSV(f, &t, &v); writeTimeVectorCSV(f, t, v); loadTimeTimeVectorCSV(f, &t, &u, &v);
}
