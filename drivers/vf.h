// Primitives shared by the verification drivers.  The same driver source is (a) executed
// symbolically by the engine on the AST of the real code and (b) compiled natively against
// the real code to replay counterexamples and to sample.
#pragma once
namespace vf {
double real(const char* name, double lo, double hi);  // arbitrary real; [lo,hi] is only the native sampling range
double grid(const char* name, double lo, double hi);  // as real, but sampled natively on a dyadic grid (sums and differences exact)
int choose(const char* name, int lo, int hi);         // arbitrary integer in [lo,hi]
int bound(int quick, int thorough);                   // size bound of a bounded driver
void assume(bool c);
void require(const char* label, bool c);
void eq(const char* label, double a, double b);       // exact in the engine, up to rounding natively
void expectAbort();                                   // from here on the code must refuse (CHECK / throw)
void notReached(const char* label);
bool native();
bool rare(int n);                                     // native runs only: true once in n
int size(int nat, int huge);                          // native runs only: mostly nat, once in a while huge or up to three times that
inline int big(int quick, int thorough, int nat, int huge) { return !native() ? bound(quick, thorough) : size(nat, huge); }
}  // namespace vf
#ifdef VF_NATIVE
namespace vf { void tight(double t); struct Reg { Reg(const char*, void (*)()); }; }
#define DRIVER(prop, name) void drv_##prop##_##name(); static vf::Reg reg_##prop##_##name(#prop "_" #name, drv_##prop##_##name); void drv_##prop##_##name()
#define BDRIVER(prop, name) void drvb_##prop##_##name(); static vf::Reg regb_##prop##_##name(#prop "_" #name, drvb_##prop##_##name); void drvb_##prop##_##name()
#define VF_TIGHT(t) vf::tight(t)  // drivers whose code does not solve a linear system
#else
#define VF_TIGHT(t)
#define DRIVER(prop, name) void drv_##prop##_##name()
#define BDRIVER(prop, name) void drvb_##prop##_##name()
#endif
