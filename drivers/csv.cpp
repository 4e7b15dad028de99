// C15: CSV helpers.
#include "vf.h"
#include <string>
#include <vector>
#include <curves/helpers.hpp>
#ifdef VF_EXTRACT
#include <curves/src/helpers.cpp>
#endif
namespace vf {
void field(std::string& out, int nonempty);  // arbitrary text without comma or line break
std::string file(int i);                     // a scratch file
void same(const char* label, const std::string& a, const std::string& b);
}
#ifdef VF_NATIVE
#include <unistd.h>
namespace vf {
void field(std::string& out, int nonempty) {
  out.clear();
  if (!nonempty && choose("field_empty", 0, 1)) return;
  static const char al[] = "abcXYZ 019.-+e;\t\"'_/\\%|#$&()=*!?<>{}[]^~`@:\xc3\xa9\x7f";
  const int n = choose("len", 1, rare(60) ? 700 : 9);
  for (int i = 0; i < n; ++i) out += al[choose("ch", 0, (int)sizeof(al) - 2)];
}
std::string file(int i) { return "vf-" + std::to_string(getpid()) + "-" + std::to_string(i) + ".csv"; }
void same(const char* l, const std::string& a, const std::string& b) { require(l, a == b); }
}
#endif
using namespace curves;
typedef std::vector<std::vector<std::string> > SM;
namespace {
SM anyMatrix(int rows, int cols) {
  SM m;
  for (int i = 0; i < rows; ++i) {
    std::vector<std::string> r; const int c = vf::choose("cols", 1, cols);
    for (int j = 0; j < c; ++j) { std::string s; vf::field(s, j == c - 1); r.push_back(s); }
    m.push_back(r);
  }
  return m;
}
void equal(const SM& a, const SM& b) {
  vf::require("same number of rows", a.size() == b.size());
  for (int i = 0; i < (int)a.size(); ++i) {
    vf::require("same number of fields in each row", a[i].size() == b[i].size());
    for (int j = 0; j < (int)a[i].size(); ++j) vf::same("each field reads back", a[i][j], b[i][j]);
  }
}
double num(const char* n) {
  if (!vf::native() || vf::choose("plain", 0, 2)) return vf::grid(n, -99, 99);
  double x = vf::real(n, -10, 10); int e = vf::choose("decimal exponent", -30, 30);
  for (; e > 0; --e) x *= 10;
  for (; e < 0; ++e) x /= 10;
  return x;
}
// the text keeps six digits
void close(const char* l, double a, double b) {
  if (!vf::native()) { vf::eq(l, a, b); return; }
  const double d = a - b, s = 1e-5 * (b < 0 ? -b : b);
  vf::require(l, -s <= d && d <= s);
}
#ifdef VF_NATIVE
void exact(const char* l, double a, double b) { const double d = a - b, s = 1e-13 * (b < 0 ? -b : b); vf::require(l, -s <= d && d <= s); }
#endif
}
BDRIVER(C15, roundtrip) {
  SM m = anyMatrix(vf::choose("rows", 1, vf::big(2, 3, 6, 30)), vf::big(3, 3, 6, 30));
  writeCSV(vf::file(0), m); equal(loadCSV(vf::file(0)), m);
}
BDRIVER(C15, overwrite) {
  writeCSV(vf::file(0), anyMatrix(2, 2));
  SM m = anyMatrix(vf::choose("rows", 1, 2), 2);
  writeCSV(vf::file(0), m); equal(loadCSV(vf::file(0)), m);
}
BDRIVER(C15, timeVector) {
  const int n = vf::choose("rows", 1, vf::big(3, 4, 6, 30)), d = vf::choose("dim", 1, vf::big(3, 4, 6, 30));
  std::vector<Time> t, t2; std::vector<Eigen::VectorXd> v, v2;
  for (int i = 0; i < n; ++i) { t.push_back(num("t")); Eigen::VectorXd x(d); for (int j = 0; j < d; ++j) x(j) = num("x"); v.push_back(x); }
  if (vf::choose("dirty", 0, 1)) { t2.push_back(4.0); Eigen::VectorXd x(1); x(0) = 3.0; v2.push_back(x); }
  writeTimeVectorCSV(vf::file(0), t, v); loadTimeVectorCSV(vf::file(0), &t2, &v2);
  vf::require("one time and one vector per row", (int)t2.size() == n && (int)v2.size() == n);
  for (int i = 0; i < n; ++i) {
    close("time reads back", t2[i], t[i]);
    vf::require("vector has the written dimension", (int)v2[i].size() == d);
    for (int j = 0; j < d; ++j) close("vector entry reads back", v2[i](j), v[i](j));
  }
}
BDRIVER(C15, layout) {  // the written file has the time first and the entries in order
  const int n = vf::choose("rows", 1, 2), d = vf::choose("dim", 1, 3);
  std::vector<Time> t; std::vector<Eigen::VectorXd> v;
  for (int i = 0; i < n; ++i) { t.push_back(num("t")); Eigen::VectorXd x(d); for (int j = 0; j < d; ++j) x(j) = num("x"); v.push_back(x); }
  writeTimeVectorCSV(vf::file(0), t, v);
  SM m = loadCSV(vf::file(0));
  vf::require("one row per sample", (int)m.size() == n);
  for (int i = 0; i < n; ++i) {
    vf::require("one column per entry plus the time", (int)m[i].size() == d + 1);
    close("first column is the time", atof(m[i][0].c_str()), t[i]);
    for (int j = 0; j < d; ++j) close("later columns are the vector", atof(m[i][j + 1].c_str()), v[i](j));
  }
}
BDRIVER(C15, twoTimes) {
  const int n = vf::choose("rows", 1, vf::big(3, 4, 6, 30)), d = vf::choose("dim", 1, vf::big(3, 4, 6, 30));
  std::vector<Time> t; std::vector<Eigen::VectorXd> v;
  for (int i = 0; i < n; ++i) { t.push_back(num("t")); Eigen::VectorXd x(d + 1); for (int j = 0; j <= d; ++j) x(j) = num("x"); v.push_back(x); }
  writeTimeVectorCSV(vf::file(0), t, v);  // the second time is the first written entry
  std::vector<Time> a, b; std::vector<Eigen::VectorXd> w;
  if (vf::choose("dirty", 0, 1)) { a.push_back(4.0); b.push_back(5.0); b.push_back(6.0); Eigen::VectorXd x(1); x(0) = 3.0; w.push_back(x); }
  loadTimeTimeVectorCSV(vf::file(0), &a, &b, &w);
  vf::require("one pair of times and one vector per row", (int)a.size() == n && (int)b.size() == n && (int)w.size() == n);
  for (int i = 0; i < n; ++i) {
    close("first time", a[i], t[i]); close("second time", b[i], v[i](0));
    vf::require("vector has the remaining columns", (int)w[i].size() == d);
    for (int j = 0; j < d; ++j) close("vector entries follow the times", w[i](j), v[i](j + 1));
  }
}
#ifdef VF_NATIVE
// numbers written by someone else with all their digits are read as they are
BDRIVER(C15, allDigits) {
  const int n = vf::choose("rows", 1, 4), d = vf::choose("dim", 1, 4), two = vf::choose("two", 0, 1);
  SM m; std::vector<std::vector<double> > x;
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> r; std::vector<double> y;
    for (int j = 0; j < d + 1 + two; ++j) {
      const double u = vf::choose("large", 0, 1) ? 1.7e9 + vf::real("x", -1e6, 1e6) : num("x"); char b[64];
      snprintf(b, sizeof b, vf::choose("form", 0, 1) ? "%.17g" : "%.16e", u); r.push_back(b); y.push_back(u);
    }
    m.push_back(r); x.push_back(y);
  }
  writeCSV(vf::file(0), m);
  std::vector<Time> a, b; std::vector<Eigen::VectorXd> w;
  if (two) loadTimeTimeVectorCSV(vf::file(0), &a, &b, &w); else loadTimeVectorCSV(vf::file(0), &a, &w);
  vf::require("one time and one vector per row", (int)a.size() == n && (int)w.size() == n && (int)b.size() == (two ? n : 0));
  for (int i = 0; i < n; ++i) {
    exact("time is read with all its digits", a[i], x[i][0]);
    if (two) exact("second time is read with all its digits", b[i], x[i][1]);
    vf::require("vector has the remaining columns", (int)w[i].size() == d);
    for (int j = 0; j < d; ++j) exact("entry is read with all its digits", w[i](j), x[i][j + 1 + two]);
  }
}
#endif
BDRIVER(C15, refuses) {
  vf::expectAbort();
  const int how = vf::choose("how", 0, 3);
  std::vector<Time> t, u; std::vector<Eigen::VectorXd> v; SM m;
  if (how == 0) writeCSV(vf::file(0), m);
  if (how == 1) loadCSV(vf::file(7));
  if (how == 2) writeTimeVectorCSV(vf::file(0), t, v);
  if (how == 3) { std::vector<std::string> r; r.push_back("1"); m.push_back(r); writeCSV(vf::file(0), m); loadTimeVectorCSV(vf::file(0), &t, &v); }
  vf::notReached("empty data or a missing file is refused");
}
