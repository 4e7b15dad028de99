// C11, C12: the coefficient store, against a reference list kept by the driver.
#include "vf.h"
#include <vector>
#include <stdexcept>
#include <curves/LocalSupport2CoefficientManager.hpp>
#include <curves/KeyGenerator.hpp>
#ifdef VF_EXTRACT
#include <curves/src/KeyGenerator.cpp>
#endif
using namespace curves;
namespace {
typedef LocalSupport2CoefficientManager<double> M;
struct Entry { Key key; double time, value; };
struct Ref {  // entries sorted by time
  std::vector<Entry> e;
  int atTime(double t) const { for (int i = 0; i < (int)e.size(); ++i) if (e[i].time == t) return i; return -1; }
  int withKey(Key k) const { for (int i = 0; i < (int)e.size(); ++i) if (e[i].key == k) return i; return -1; }
  void insert(Key k, double t, double v) {
    int p = 0; while (p < (int)e.size() && e[p].time < t) ++p;
    Entry x; x.key = k; x.time = t; x.value = v;
    std::vector<Entry> r; for (int i = 0; i < p; ++i) r.push_back(e[i]);
    r.push_back(x); for (int i = p; i < (int)e.size(); ++i) r.push_back(e[i]);
    e = r;
  }
  void erase(int p) { std::vector<Entry> r; for (int i = 0; i < (int)e.size(); ++i) if (i != p) r.push_back(e[i]); e = r; }
};
double anyTime() { return vf::grid("t", -3, 3); }
double anyValue() { return vf::real("v", -3, 3); }
bool fresh(const Ref& r, const std::vector<Key>& dead, Key k) {
  if (r.withKey(k) >= 0) return false;
  for (int i = 0; i < (int)dead.size(); ++i) if (dead[i] == k) return false;
  return true;
}
// the store is exactly the reference
void agree(const M& m, const Ref& r, const std::vector<Key>& dead) {
  const int n = (int)r.e.size();
  vf::require("number of coefficients", (int)m.size() == n && m.empty() == (n == 0));
  std::vector<Key> keys; std::vector<Time> times;
  m.getKeys(&keys); m.getTimes(&times);
  vf::require("number of keys and times agree", (int)keys.size() == n && (int)times.size() == n);
  for (int i = 0; i < n; ++i) {
    vf::require("key of each coefficient", keys[i] == r.e[i].key);
    vf::eq("time of each coefficient", times[i], r.e[i].time);
    vf::require("reachable by key", m.hasCoefficientWithKey(r.e[i].key));
    vf::require("reachable by time", m.hasCoefficientAtTime(r.e[i].time));
    vf::eq("value by key is the one last written", m.getCoefficientByKey(r.e[i].key), r.e[i].value);
    vf::eq("time by key", m.getCoefficientTimeByKey(r.e[i].key), r.e[i].time);
  }
  for (int i = 0; i < (int)dead.size(); ++i) vf::require("removed key is unreachable", !m.hasCoefficientWithKey(dead[i]));
  M::CoefficientMap all; m.getCoefficients(&all);
  vf::require("map of all coefficients has every key once", (int)all.size() == n);
  int c = 0; for (M::CoefficientIter it = m.coefficientBegin(); it != m.coefficientEnd(); ++it) {
    vf::require("iteration stays inside", c < n); if (c >= n) break;
    vf::eq("iterated time", it->first, r.e[c].time); vf::require("iterated key", it->second.key == r.e[c].key); vf::eq("iterated value", it->second.coefficient, r.e[c].value); ++c;
  }
  vf::require("iteration covers all", c == n);
}
void insertOne(M& m, Ref& r, const std::vector<Key>& dead, double t, double v) {
  const int p = r.atTime(t);
  const Key k = m.insertCoefficient(t, v);
  if (p >= 0) { vf::require("inserting at an existing time keeps the key", k == r.e[p].key); r.e[p].value = v; }
  else { vf::require("inserting at a new time gives a new key", fresh(r, dead, k)); r.insert(k, t, v); }
}
void fillStore(M& m, Ref& r, int n) { std::vector<Key> none; for (int i = 0; i < n; ++i) insertOne(m, r, none, anyTime(), anyValue()); }
void operation(M& m, Ref& r, std::vector<Key>& dead, int op) {
  const int n = (int)r.e.size();
  const int p = n > 0 ? vf::choose("which", 0, n - 1) : -1;
  if (op == 0) insertOne(m, r, dead, anyTime(), anyValue());
  else if (op == 1) {
    std::vector<Time> t; std::vector<double> v; std::vector<Key> out;
    const int c = vf::choose("count", 0, 2); const bool want = vf::choose("want", 0, 1) == 1;
    out.push_back(77);
    for (int i = 0; i < c; ++i) { t.push_back(anyTime()); v.push_back(anyValue()); }
    if (want) m.insertCoefficients(t, v, &out); else m.insertCoefficients(t, v);
    if (!want) { m.getKeys(&out); for (int i = 0; i < c; ++i) { const int q = r.atTime(t[i]); if (q >= 0) r.e[q].value = v[i]; else { std::vector<Time> tt; m.getTimes(&tt); for (int j = 0; j < (int)tt.size() && j < (int)out.size(); ++j) if (tt[j] == t[i]) { vf::require("new key", fresh(r, dead, out[j])); r.insert(out[j], t[i], v[i]); break; } } } }
    else {
      vf::require("one key per inserted value is appended", (int)out.size() == c + 1 && out[0] == 77);
      for (int i = 0; i < c; ++i) { const int q = r.atTime(t[i]); if (q >= 0) { vf::require("kept key reported", out[i + 1] == r.e[q].key); r.e[q].value = v[i]; } else { vf::require("new key reported", fresh(r, dead, out[i + 1])); r.insert(out[i + 1], t[i], v[i]); } }
    }
  } else if (op == 2) {
    const double t = anyTime(), v = anyValue(); vf::assume(n == 0 || t > r.e[n - 1].time);
    std::vector<Key> out; m.addCoefficientAtEnd(t, v, &out);
    vf::require("append reports its key", out.size() == 1);
    vf::require("append gives a new key", fresh(r, dead, out[0])); r.insert(out[0], t, v);
  } else if (op == 3 && n > 0) {
    const double v = anyValue(); m.updateCoefficientByKey(r.e[p].key, v); r.e[p].value = v;
  } else if (op == 4 && n > 0) {
    const double t = anyTime(), v = anyValue(); const int q = r.atTime(t); vf::assume(q < 0 || q == p);
    M::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin(); for (int i = 0; i < p; ++i) ++it;
    m.modifyCoefficient(it, t, v);
    const Key k = r.e[p].key; r.erase(p); r.insert(k, t, v);
  } else if (op == 5 && n > 0) { m.removeCoefficientWithKey(r.e[p].key); dead.push_back(r.e[p].key); r.erase(p); }
  else if (op == 6 && n > 0) { m.removeCoefficientAtTime(r.e[p].time); dead.push_back(r.e[p].key); const double t = r.e[p].time; r.erase(p); vf::require("removed time is unreachable", !m.hasCoefficientAtTime(t)); }
  else if (op == 7 && n > 0) {  // batch over a run of consecutive coefficients
    const int q = vf::choose("last", p, n - 1);
    std::vector<Time> t; std::vector<double> v;
    for (int i = p; i <= q; ++i) { t.push_back(r.e[i].time); v.push_back(anyValue()); r.e[i].value = v.back(); }
    m.modifyCoefficientsValuesInBatch(t, v);
    t.clear(); v.clear(); m.modifyCoefficientsValuesInBatch(t, v);  // naming nothing changes nothing
  } else if (op == 8) {
    M::CoefficientMap c;
    for (int i = 0; i < n; ++i) if (vf::choose("in", 0, 1)) { const double v = anyValue(); c[r.e[i].key] = v; r.e[i].value = v; }
    m.updateCoefficients(c);
  } else if (op == 9) { m.clear(); for (int i = 0; i < n; ++i) dead.push_back(r.e[i].key); r.e.clear(); }
}
void history(int n0, int op) {
  M m; Ref r; std::vector<Key> dead;
  fillStore(m, r, vf::choose("initial", 0, n0));
  operation(m, r, dead, op);
  agree(m, r, dead);
  const int more = vf::native() ? vf::choose("more", 0, 10) : 0;
  for (int i = 0; i < more; ++i) { operation(m, r, dead, vf::choose("op", 0, 9)); agree(m, r, dead); }
}
}  // namespace
#if !defined(VF_ONLY) || VF_ONLY == 11
BDRIVER(C11, insert) { history(vf::big(2, 3, 5, 40), 0); }
BDRIVER(C11, insertMany) { history(vf::big(1, 2, 5, 40), 1); }
BDRIVER(C11, append) { history(vf::big(2, 3, 5, 40), 2); }
BDRIVER(C11, update) { history(vf::big(2, 3, 5, 40), 3); }
BDRIVER(C11, move) { history(vf::big(3, 3, 5, 40), 4); }
BDRIVER(C11, removeKey) { history(vf::big(2, 3, 5, 40), 5); }
BDRIVER(C11, removeTime) { history(vf::big(2, 3, 5, 40), 6); }
BDRIVER(C11, batch) { history(vf::big(2, 3, 5, 40), 7); }
BDRIVER(C11, updateMany) { history(vf::big(2, 3, 5, 40), 8); }
BDRIVER(C11, clear) { history(vf::big(2, 3, 5, 40), 9); }
BDRIVER(C11, sequence) {
  M m; Ref r; std::vector<Key> dead;
  const int k = vf::big(2, 2, 3, 60);
  for (int i = 0; i < k; ++i) { const int op = vf::choose("op", 0, 6); vf::assume(op != 1); operation(m, r, dead, op); }
  agree(m, r, dead);
}
BDRIVER(C11, twoStores) {  // stores do not share keys
  M a, b; Ref ra, rb; std::vector<Key> none;
  fillStore(a, ra, vf::choose("na", 0, 2)); fillStore(b, rb, vf::choose("nb", 0, 1));
  for (int i = 0; i < (int)rb.e.size(); ++i) vf::require("keys of different stores differ", ra.withKey(rb.e[i].key) < 0);
  agree(a, ra, none); agree(b, rb, none);
}
BDRIVER(C11, unknownKey) {
  M m; Ref r; fillStore(m, r, vf::choose("initial", 0, 2)); const Key k = 1000000;
  vf::expectAbort();
  const int op = vf::choose("op", 0, 8);
  if (op == 0) m.removeCoefficientWithKey(k);
  if (op == 1) { const double t = anyTime(); vf::assume(r.atTime(t) < 0); m.removeCoefficientAtTime(t); }
  if (op == 2) m.updateCoefficientByKey(k, anyValue());
  if (op == 3) m.getCoefficientByKey(k);
  if (op == 4) m.getCoefficientTimeByKey(k);
  if (op == 5) { const double t = anyTime(); vf::assume(r.e.size() > 0); vf::assume(t <= r.e.back().time); m.addCoefficientAtEnd(t, anyValue()); }
  if (op == 6) {  // moving a coefficient onto another one's time
    const int n = (int)r.e.size(); vf::assume(n > 1);
    const int p = vf::choose("which", 0, n - 1), q = vf::choose("onto", 0, n - 1); vf::assume(p != q);
    M::TimeToKeyCoefficientMap::iterator it = m.coefficientBegin(); for (int i = 0; i < p; ++i) ++it;
    m.modifyCoefficient(it, r.e[q].time, anyValue());
  }
  if (op == 7) {  // a batch over a run of stored times with one more time, not stored, somewhere
    const int n = (int)r.e.size(); const int p = vf::choose("first", 0, n), q = vf::choose("end", p, n), at = vf::choose("at", 0, q - p);
    const double x = anyTime(); vf::assume(r.atTime(x) < 0);
    std::vector<Time> t; std::vector<double> v;
    for (int i = p; i < q; ++i) { if (i - p == at) { t.push_back(x); v.push_back(anyValue()); } t.push_back(r.e[i].time); v.push_back(anyValue()); }
    if (at == q - p) { t.push_back(x); v.push_back(anyValue()); }
    m.modifyCoefficientsValuesInBatch(t, v);
  }
  if (op == 8) {  // an update that names a missing key, with or without stored ones
    M::CoefficientMap c; c[k] = anyValue();
    for (int i = 0; i < (int)r.e.size(); ++i) if (vf::choose("in", 0, 1)) c[r.e[i].key] = anyValue();
    m.updateCoefficients(c);
  }
  vf::notReached("operation on a missing coefficient is refused");
}
#endif
#if !defined(VF_ONLY) || VF_ONLY == 12
BDRIVER(C12, lists) {
  M m; Ref r; fillStore(m, r, vf::choose("initial", 0, vf::big(3, 3, 6, 40)));
  const int n = (int)r.e.size();
  std::vector<Key> keys; std::vector<Time> times; times.push_back(9.0); keys.push_back(55);
  m.getTimes(&times);
  vf::require("times listed exactly once", (int)times.size() == n);
  for (int i = 0; i < n; ++i) vf::eq("times in increasing order", times[i], r.e[i].time);
  m.appendKeys(&keys);
  vf::require("keys are appended", (int)keys.size() == n + 1 && keys[0] == 55);
  for (int i = 0; i < n; ++i) vf::require("appended keys follow the times", keys[i + 1] == r.e[i].key);
  m.getKeys(&keys);
  vf::require("keys listed exactly once", (int)keys.size() == n);
  for (int i = 0; i < n; ++i) vf::require("keys follow the times", keys[i] == r.e[i].key);
  vf::eq("minimum time", m.getMinTime(), n ? r.e[0].time : 0.0);
  vf::eq("maximum time", m.getMaxTime(), n ? r.e[n - 1].time : 0.0);
}
BDRIVER(C12, membership) {
  M m; Ref r; fillStore(m, r, vf::choose("initial", 0, vf::big(3, 3, 6, 40)));
  const double t = anyTime();
  vf::require("membership by time is exact", m.hasCoefficientAtTime(t) == (r.atTime(t) >= 0));
  const Key k = (Key)vf::choose("key", 0, 12);
  vf::require("membership by key is exact", m.hasCoefficientWithKey(k) == (r.withKey(k) >= 0));
}
BDRIVER(C12, bracket) {
  M m; Ref r; fillStore(m, r, vf::choose("initial", 0, vf::big(3, 3, 6, 40)));
  const int n = (int)r.e.size();
  const double t = anyTime();
  M::CoefficientIter a = m.coefficientEnd(), b = m.coefficientEnd();
  const bool ok = m.getCoefficientsAt(t, &a, &b);
  int k = -1;
  for (int i = 0; i + 1 < n; ++i) if (r.e[i].time <= t && (t < r.e[i + 1].time || (i + 2 == n && t == r.e[i + 1].time))) k = i;
  vf::require("a bracketing pair is found exactly inside the stored range", ok == (k >= 0));
  if (ok && k >= 0) {
    vf::eq("earlier coefficient of the pair", a->first, r.e[k].time); vf::require("earlier key", a->second.key == r.e[k].key); vf::eq("earlier value", a->second.coefficient, r.e[k].value);
    vf::eq("later coefficient of the pair", b->first, r.e[k + 1].time); vf::require("later key", b->second.key == r.e[k + 1].key); vf::eq("later value", b->second.coefficient, r.e[k + 1].value);
  }
}
BDRIVER(C12, window) {
  M m; Ref r; fillStore(m, r, vf::choose("initial", 1, vf::big(3, 3, 6, 40)));
  const int n = (int)r.e.size();
  const double t = anyTime(); vf::assume(t >= r.e[0].time); vf::assume(t <= r.e[n - 1].time);
  std::vector<Time> w; w.push_back(5.0);
  m.getTimesInWindow(&w, t, r.e[n - 1].time);
  int c = 0; for (int i = 0; i < n; ++i) if (r.e[i].time >= t) { vf::require("window lists every stored time inside", c < (int)w.size()); if (c < (int)w.size()) vf::eq("window times in order", w[c], r.e[i].time); ++c; }
  vf::require("window lists nothing else", c == (int)w.size());
}
BDRIVER(C12, range) {
  M m; Ref r; fillStore(m, r, vf::choose("initial", 0, vf::big(3, 3, 6, 40)));
  const int n = (int)r.e.size();
  const double s = anyTime(), e = anyTime();
  M::CoefficientMap out; m.getCoefficientsInRange(s, e, &out);
  int want = 0;
  if (n > 0 && s <= e && s <= r.e[n - 1].time && e >= r.e[0].time) {
    int lo = 0; for (int i = 0; i < n; ++i) if (r.e[i].time <= s) lo = i;
    int hi = n - 1; for (int i = n - 1; i >= 0; --i) if (r.e[i].time >= e) hi = i;
    if (hi < lo) hi = lo;
    for (int i = lo; i <= hi; ++i) { ++want; vf::require("range contains the entries it spans", out.count(r.e[i].key) == 1); vf::eq("range values", out[r.e[i].key], r.e[i].value); }
  }
  vf::require("range contains nothing else", (int)out.size() == want);
}
BDRIVER(C12, equality) {
  M m; Ref r; fillStore(m, r, vf::choose("initial", 0, vf::big(2, 3, 4, 40)));
  M c(m);
  vf::require("a store equals itself", m.equals(m));
  const int n = (int)r.e.size(); const int how = vf::choose("how", 0, 2);
  M d; Ref rd; fillStore(d, rd, vf::choose("other", 0, 1));
  if (n != (int)rd.e.size()) { vf::require("stores of different size differ", !m.equals(d)); vf::require("stores of different size differ", !d.equals(m)); }
  if (n > 0 && (int)rd.e.size() == n) vf::require("stores with different keys differ", !m.equals(d));
  (void)how;
}
#endif
