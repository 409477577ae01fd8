// Harness API.  The same harness source is compiled twice:
//   - symbolically: clang -> LLVM IR -> rewrite.py -> linked with symrt.cpp (Z3)
//   - concretely:   g++ as in the real build, linked with concrete.cpp, for replay / validation
#pragma once
#include <string>
#include <vector>
#include <map>
extern "C" {
double sym_real(const char *name, double lo, double hi);   // arbitrary real in [lo,hi]
int    sym_choose(const char *name, int n);                // arbitrary 0..n-1 (every value explored)
void   sym_observe(const char *name, double v);            // output compared between symbolic and native runs
int    sym_b_const(int v);
int    sym_b_cmp(int op, double a, double b);              // 0 <, 1 <=, 2 ==  (no path fork); native: <= and == take a tolerance
int    sym_b_tcmp(int op, double a, double b);             // same, exact also natively (for times)
int    sym_b_and(int a, int b);
int    sym_b_or(int a, int b);
int    sym_b_not(int a);
void   sym_assert(int b, const char *msg);                 // property
void   sym_assume(int b);                                  // precondition
void   sym_reach(const char *label);                       // reachability witness (vacuity guard)
void   sym_note(const char *msg);
int    sym_is_symbolic(void);                              // 1 under the symbolic runtime
double sym_avg(double a, double b);
const char *sym_token(double v);                           // text whose numeric parse gives v back (symbolic or not)
}
struct B { int h; };
inline B b_const(bool v){ return B{sym_b_const(v)}; }
inline B operator&(B a, B b){ return B{sym_b_and(a.h,b.h)}; }
inline B operator|(B a, B b){ return B{sym_b_or(a.h,b.h)}; }
inline B operator!(B a){ return B{sym_b_not(a.h)}; }
inline B implies(B a, B b){ return (!a)|b; }
inline B lt(double a,double b){ return B{sym_b_cmp(0,a,b)}; }
inline B le(double a,double b){ return B{sym_b_cmp(1,a,b)}; }
inline B gt(double a,double b){ return lt(b,a); }
inline B ge(double a,double b){ return le(b,a); }
inline B eq(double a,double b){ return B{sym_b_cmp(2,a,b)}; }
inline B tlt(double a,double b){ return B{sym_b_tcmp(0,a,b)}; }
inline B tle(double a,double b){ return B{sym_b_tcmp(1,a,b)}; }
inline B teq(double a,double b){ return B{sym_b_tcmp(2,a,b)}; }
inline void ensure(B b,const char*m){ sym_assert(b.h,m); }
inline void ensure(bool b,const char*m){ sym_assert(sym_b_const(b),m); }
inline void assume(B b){ sym_assume(b.h); }
inline std::string tok(double v){ return std::string(sym_token(v)); }
// harness registry (C interface, so that harnesses may be compiled with debug containers)
typedef std::vector<std::string> Args;
typedef void (*HarnessRaw)(int,const char*const*);
struct HarnessReg { HarnessReg(const char*n, HarnessRaw f); };
#define HARNESS(name) static void name(const Args&); static void raw_##name(int c,const char*const*v){ Args a; for(int i=0;i<c;i++) a.push_back(v[i]); name(a); } \
  static HarnessReg reg_##name(#name,raw_##name); static void name(const Args& A)
