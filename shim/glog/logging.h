// Stand-in for glog used only while *extracting* the AST for verification.
// CHECK(c) is kept as an explicit check the verifier sees; log streams are dropped.
#pragma once
#include <ostream>
namespace verif_shim {
struct Sink { template<class T> Sink& operator<<(const T&) { return *this; } Sink& operator<<(std::ostream&(*)(std::ostream&)) { return *this; } };
struct Voidify { void operator&(const Sink&) {} };
bool check(bool ok);
template<class T> T checkNotNull(T p) { check(p != nullptr); return p; }
}
#define CHECK(c) ::verif_shim::check(bool(c)) ? (void)0 : ::verif_shim::Voidify() & ::verif_shim::Sink()
#define CHECK_EQ(a,b) CHECK((a)==(b))
#define CHECK_NE(a,b) CHECK((a)!=(b))
#define CHECK_GE(a,b) CHECK((a)>=(b))
#define CHECK_GT(a,b) CHECK((a)>(b))
#define CHECK_LE(a,b) CHECK((a)<=(b))
#define CHECK_LT(a,b) CHECK((a)<(b))
#define CHECK_NEAR(a,b,m) CHECK(((a)-(b)) <= (m) && ((b)-(a)) <= (m))
#define CHECK_NOTNULL(p) ::verif_shim::checkNotNull(p)
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a,b) CHECK_EQ(a,b)
#define DCHECK_GE(a,b) CHECK_GE(a,b)
#define DCHECK_GT(a,b) CHECK_GT(a,b)
#define DCHECK_LE(a,b) CHECK_LE(a,b)
#define DCHECK_LT(a,b) CHECK_LT(a,b)
#define LOG(x) ::verif_shim::Sink()
#define VLOG(x) ::verif_shim::Sink()
#define DLOG(x) ::verif_shim::Sink()
#define LOG_IF(x,c) ::verif_shim::Sink()
