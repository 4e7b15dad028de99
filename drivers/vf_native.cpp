// Native side of vf.h: sampling, replay, failure capture.  Linked with the drivers and the
// real sources of /repo.
#include "vf.h"
#include <glog/logging.h>
#include <algorithm>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace {
struct D { std::string name; void (*f)(); };
std::vector<D>& reg() { static std::vector<D> r; return r; }
struct Discard {};
struct Failed {};
struct Done {};
sigjmp_buf jb;
volatile int armed = 0;
bool expectingAbort = false;
bool failed = false, replaying = false, thorough = false;
std::string failLabel;
std::vector<std::pair<std::string, std::string>> tape;  // name,value in order
std::map<std::string, double> given;
std::map<std::string, int> counts;
std::vector<double> drawn, literals; std::vector<int> sizes;
double maxIn = 0, tolerance = 2e-6;
uint64_t st = 1;
unsigned long long evals = 0, nontrivial = 0;
uint64_t rnd() { st += 0x9E3779B97F4A7C15ull; uint64_t z = st; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
double uni() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
std::string key(const char* n) { int k = counts[n]++; return k ? std::string(n) + "#" + std::to_string(k) : n; }
void onSig(int s) {
  if (armed) { siglongjmp(jb, s); }
  _exit(99);
}
void onFatal() { if (armed) siglongjmp(jb, SIGABRT); abort(); }
}  // namespace
namespace vf {
Reg::Reg(const char* n, void (*f)()) { reg().push_back(D{n, f}); }
double real(const char* n, double lo, double hi) {
  std::string k = key(n); double v;
  if (replaying && given.count(k)) v = given[k];
  else {
    unsigned m = rnd() % 100;
    if (m < 55) v = lo + (hi - lo) * uni();
    else if (m < 70) v = std::round((lo + (hi - lo) * uni()) * 2) / 2;
    else if (m < 80 && !drawn.empty()) v = drawn[rnd() % drawn.size()];
    else if (m < 84 && drawn.size() > 1) v = drawn[rnd() % drawn.size()] + drawn[rnd() % drawn.size()];
    else if (m < 88) v = rnd() % 2 ? lo : hi;
    else if (m < 91) v = 0;
    else if (m < 98 && !literals.empty()) v = literals[rnd() % literals.size()] * (rnd() % 4 ? 1 : -1);
    else v = lo + (hi - lo) * uni();
    if (!(v >= lo && v <= hi)) v = lo + (hi - lo) * uni();
  }
  char b[64]; snprintf(b, sizeof b, "%.17g", v); tape.push_back({k, b});
  drawn.push_back(v); maxIn = std::max(maxIn, std::fabs(v));
  return v;
}
double grid(const char* n, double lo, double hi) {
  std::string k = key(n); double v;
  if (replaying && given.count(k)) v = given[k];
  else {
    unsigned m = rnd() % 100;
    if (m < 8 && !drawn.empty()) v = drawn[rnd() % drawn.size()];
    else if (m < 12) v = lo;
    else if (m < 16) v = hi;
    else if (m < 20) v = 0;
    else if (m < 25 && !literals.empty()) v = literals[rnd() % literals.size()];
    else v = lo + (hi - lo) * uni();
    v = std::round(v * 8) / 8;
    if (!(v >= lo && v <= hi)) v = std::round((lo + (hi - lo) * uni()) * 8) / 8;
    if (v < lo) v = lo;
  }
  char b[64]; snprintf(b, sizeof b, "%.17g", v); tape.push_back({k, b});
  drawn.push_back(v); maxIn = std::max(maxIn, std::fabs(v));
  return v;
}
int choose(const char* n, int lo, int hi) {
  std::string k = key(n); int v;
  if (replaying && given.count(k)) v = (int)given[k]; else v = lo + (int)(rnd() % (uint64_t)(hi - lo + 1));
  tape.push_back({k, std::to_string(v)});
  return v;
}
int bound(int q, int t) { return thorough ? t : q; }
void assume(bool c) { if (!c) throw Discard(); }
void require(const char* l, bool c) { ++nontrivial; if (!c) { failed = true; failLabel = l; throw Failed(); } }
void eq(const char* l, double a, double b) {
  ++nontrivial;
  double tol = tolerance * (1 + std::fabs(a) + std::fabs(b) + maxIn);
  if (!(std::fabs(a - b) <= tol)) {
    std::ostringstream s; s.precision(17); s << l << ": got " << a << ", expected " << b;
    failed = true; failLabel = s.str(); throw Failed();
  }
}
void tight(double t) { tolerance = t; }
void expectAbort() { expectingAbort = true; }
void notReached(const char* l) { require(l, false); }
bool native() { return true; }
int size(int nat, int huge) {
  std::string k = key("size"); int v = nat;
  if (replaying && given.count(k)) v = (int)given[k];
  else if (rnd() % 24 == 0) {
    v = huge;
    const unsigned m = rnd() % 60;
    if (m == 0) v = 3 * huge;
    else if (m < 12 && !sizes.empty()) { const int l = sizes[rnd() % sizes.size()] + (int)(rnd() % 3); if (l > nat && l <= 3 * huge) v = l; }  // around a literal of the code
  }
  tape.push_back({k, std::to_string(v)});
  return v;
}
bool rare(int n) {
  std::string k = key("rare"); bool v;
  if (replaying) v = given.count(k) && given[k] != 0; else v = rnd() % n == 0;
  tape.push_back({k, v ? "1" : "0"});
  return v;
}
}  // namespace vf
namespace {
// 0 ok, 1 failed, 2 discarded
int runOne(const D& d) {
  tape.clear(); counts.clear(); drawn.clear(); maxIn = 0; tolerance = 2e-6; failed = false; failLabel.clear(); expectingAbort = false;
  ++evals;
  struct itimerval tv; memset(&tv, 0, sizeof tv); tv.it_value.tv_sec = 20; setitimer(ITIMER_REAL, &tv, 0);
  int s = sigsetjmp(jb, 1);
  int res = 0;
  if (s == 0) {
    armed = 1;
    try { d.f(); }
    catch (Discard&) { res = 2; }
    catch (Failed&) { res = 1; }
    catch (std::exception& e) { if (!expectingAbort) { failed = true; failLabel = std::string("exception: ") + e.what(); res = 1; } }
    catch (...) { if (!expectingAbort) { failed = true; failLabel = "unknown exception"; res = 1; } }
    armed = 0;
  } else {
    armed = 0;
    if (s == SIGABRT && expectingAbort) res = 0;
    else {
      failed = true; res = 1;
      failLabel = s == SIGABRT ? "the code aborted" : s == SIGSEGV ? "segmentation fault" : s == SIGALRM ? "no termination within 20 s" : "fatal signal " + std::to_string(s);
    }
  }
  return res;
}
void save(const std::string& path, const D& d) {
  std::ofstream f(path);
  f << "driver " << d.name << "\n# " << failLabel << "\n";
  for (auto& p : tape) f << p.first << " " << p.second << "\n";
}
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } };
}  // namespace
int main(int argc, char** argv) {
  google::InitGoogleLogging(argv[0]);
  google::InstallFailureFunction(onFatal);
  FLAGS_logtostderr = true;
  static char alt[1 << 16];
  stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSig; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigemptyset(&sa.sa_mask);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, 0);
  std::string mode = argc > 1 ? argv[1] : "list";
  NullBuf nb; std::streambuf* out = std::cout.rdbuf();
  if (getenv("VF_THOROUGH")) thorough = true;
  if (const char* l = getenv("VF_LITERALS")) { std::istringstream is(l); double v; while (is >> v) { literals.push_back(v); if (v == std::floor(v) && v > 2 && v < 1e6) sizes.push_back((int)v); } }
  if (mode == "list") { for (auto& d : reg()) printf("%s\n", d.name.c_str()); return 0; }
  int devnull = -1;
  FILE* res = fdopen(dup(1), "w");
  if (freopen("/dev/null", "w", stdout)) {}
  if (freopen("/dev/null", "w", stderr)) {}
  std::cout.rdbuf(&nb);
  (void)devnull; (void)out;
  if (mode == "replay") {
    std::ifstream f(argv[2]); std::string line, drv;
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#') continue;
      std::istringstream is(line); std::string a, b; is >> a >> b;
      if (a == "driver") drv = b; else given[a] = atof(b.c_str());
    }
    replaying = true; int any = 0;
    for (auto& d : reg()) if (d.name == drv) {
      any = 1;
      int r = runOne(d);
      if (r == 1) { fprintf(res, "FAIL %s | %s\n", d.name.c_str(), failLabel.c_str()); fflush(res); _exit(1); }
      fprintf(res, r == 2 ? "DISCARDED %s\n" : "OK %s\n", d.name.c_str());
    }
    fflush(res); _exit(any ? 0 : 3);
  }
  // run PREFIX SECONDS SEED OUT
  std::string prefix = argv[2]; double secs = atof(argv[3]); st = strtoull(argv[4], 0, 10) * 7919 + 13; std::string outp = argv[5];
  std::vector<D> todo; for (auto& d : reg()) if (d.name.compare(0, prefix.size(), prefix) == 0) todo.push_back(d);
  if (todo.empty()) { fprintf(res, "NODRIVERS\n"); fflush(res); _exit(3); }
  struct timeval t0, t1; gettimeofday(&t0, 0);
  unsigned long long disc = 0; std::map<std::string, unsigned long long> per;
  for (unsigned long long it = 0;; ++it) {
    const D& d = todo[it % todo.size()];
    int r = runOne(d);
    if (r == 2) ++disc; else ++per[d.name];
    if (r == 1) { save(outp, d); fprintf(res, "FAIL %s | %s\n", d.name.c_str(), failLabel.c_str()); fflush(res); _exit(1); }
    gettimeofday(&t1, 0);
    if ((t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec) > secs && it >= todo.size() * 3) break;
  }
  unsigned long long mn = ~0ull; for (auto& d : todo) mn = std::min(mn, per[d.name]);
  fprintf(res, "PASS evaluations=%llu discarded=%llu checks=%llu drivers=%zu min_per_driver=%llu\n", evals, disc, nontrivial, todo.size(), mn);
  fflush(res);
  _exit(0);
}
