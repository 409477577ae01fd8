// Symbolic runtime: executes rewritten LLVM IR of the real code natively, with every
// floating-point operation routed here.  Symbolic doubles are NaN-boxed handles to rational
// functions over the harness inputs; branches on them are decided / forked with Z3; the tree of
// feasible paths is explored depth first by re-execution.
#include "sym.h"
#include <z3.h>
#include <gmpxx.h>
#include <setjmp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <map>
#include <functional>
#include <set>
#include <unordered_map>
#include <memory>
using std::string; using std::vector; using std::map;
typedef mpq_class Q;
typedef unsigned __int128 Mono;          // 32 variables x 4-bit exponents
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

// ---------------------------------------------------------------- polynomials
struct Poly { vector<std::pair<Mono,Q>> t; int deg=0; };   // sorted by descending monomial
static vector<std::unique_ptr<Poly>> polys; static vector<Z3_ast> polyAst;
struct PKey { size_t h; };
static std::unordered_multimap<size_t,int> polyIx;
static int mdeg(Mono m){ int d=0; while(m){ d+=(int)(m&15); m>>=4; } return d; }
static size_t phash(const Poly&p){ size_t h=1469598103934665603ull; for(auto&x:p.t){ h=(h^(size_t)x.first)*1099511628211ull; h=(h^(size_t)(x.first>>64))*1099511628211ull;
  h=(h^(size_t)mpz_get_ui(x.second.get_num_mpz_t()))*1099511628211ull+(sgn(x.second)<0); h=(h^mpz_get_ui(x.second.get_den_mpz_t()))*1099511628211ull; } return h; }
static int P(Poly&&p){ size_t h=phash(p); auto r=polyIx.equal_range(h);
  for(auto i=r.first;i!=r.second;++i) if(polys[i->second]->t==p.t) return i->second;
  int d=0; for(auto&x:p.t) d=std::max(d,mdeg(x.first)); p.deg=d;
  int id=polys.size(); polys.emplace_back(new Poly(std::move(p))); polyAst.push_back(nullptr); polyIx.emplace(h,id); return id; }
static int P_const(const Q&q){ Poly p; if(q!=0) p.t.push_back({0,q}); return P(std::move(p)); }
static bool isConst(int p,Q*out=nullptr){ auto&t=polys[p]->t; if(t.empty()){ if(out)*out=0; return true;} if(t.size()==1&&t[0].first==0){ if(out)*out=t[0].second; return true;} return false; }
static int P_addmul(int a,const Q&ka,int b,const Q&kb){ Poly r; auto&x=polys[a]->t;auto&y=polys[b]->t; size_t i=0,j=0; r.t.reserve(x.size()+y.size());
  while(i<x.size()||j<y.size()){ if(j>=y.size()||(i<x.size()&&x[i].first>y[j].first)){ if(ka!=0) r.t.push_back({x[i].first,x[i].second*ka}); i++; }
    else if(i>=x.size()||y[j].first>x[i].first){ if(kb!=0) r.t.push_back({y[j].first,y[j].second*kb}); j++; }
    else { Q c=x[i].second*ka+y[j].second*kb; if(c!=0) r.t.push_back({x[i].first,c}); i++;j++; } }
  return P(std::move(r)); }
[[noreturn]] static void path_abort(const char*why);
static Mono madd(Mono a,Mono b){ Mono r=a+b; // detect nibble overflow
  for(int k=0;k<32;k++) if(((a>>(4*k))&15)+((b>>(4*k))&15)>15) path_abort("degree overflow"); return r; }
static int P_mul(int a,int b){ Q c; if(isConst(a,&c)) return P_addmul(b,c,b,0); if(isConst(b,&c)) return P_addmul(a,c,a,0);
  map<Mono,Q,std::greater<Mono>> m; for(auto&x:polys[a]->t) for(auto&y:polys[b]->t) m[madd(x.first,y.first)]+=x.second*y.second;
  Poly r; for(auto&x:m) if(x.second!=0) r.t.push_back(x); if(r.t.size()>4000) path_abort("polynomial too large"); return P(std::move(r)); }
static bool mdiv(Mono a,Mono b,Mono&q){ q=0; for(int k=0;k<32;k++){ int x=(int)((a>>(4*k))&15),y=(int)((b>>(4*k))&15); if(x<y) return false; q|=(Mono)(x-y)<<(4*k);} return true; }
static bool P_divexact(int a,int b,int&q){ Q c; if(isConst(b,&c)){ if(c==0) return false; q=P_addmul(a,1/c,a,0); return true; }
  if(polys[a]->deg<polys[b]->deg) { if(polys[a]->t.empty()){ q=a; return true;} return false; }
  int r=a; map<Mono,Q,std::greater<Mono>> m; int it=0; auto lb=polys[b]->t[0];
  while(!polys[r]->t.empty()){ if(++it>200) return false; auto la=polys[r]->t[0]; Mono mq; if(!mdiv(la.first,lb.first,mq)) return false; Q cq=la.second/lb.second; m[mq]+=cq;
    Poly s; for(auto&y:polys[b]->t) s.t.push_back({y.first+mq,y.second*cq}); r=P_addmul(r,1,P(std::move(s)),-1); }
  Poly R; for(auto&x:m) if(x.second!=0) R.t.push_back(x); q=P(std::move(R)); return true; }

// ---------------------------------------------------------------- inputs
struct Var { string name; Q lo,hi; bool grid; };
static vector<Var> vars; static map<string,int> varIx;     // stable over the job
static vector<Z3_ast> varAst;

// ---------------------------------------------------------------- values
struct Val { int num; vector<int> den; int e,M; bool exact; };   // den: sorted positive factors; grid: multiple of 2^e, |v|<=2^M
static vector<Val> vals;                                  // path local
static const uint64_t TAG=0x7FFDull<<48;
union DU{ double d; uint64_t u; };
static inline bool isSym(double d){ DU x; x.d=d; return (x.u>>48)==0x7FFD; }
static inline uint32_t sid(double d){ DU x; x.d=d; return (uint32_t)x.u; }
static double boxed(uint32_t id){ DU x; x.u=TAG|id; return x.d; }
static bool exactPath; static int ONEGRID=-20;             // inputs on a 2^-20 grid (declared in evidence)
static void gridOf(double c,int&e,int&M){ if(c==0){ e=1000; M=-1000; return; } int ex; double f=frexp(c,&ex); M=ex; int64_t mant=(int64_t)ldexp(f,53); int tz=__builtin_ctzll((uint64_t)(mant<0?-mant:mant)); e=ex-53+tz; }
static bool finiteD(double d){ return std::isfinite(d); }
static Q toQ(double d){ return Q(d); }
static double mk(Val v){ Q c; if(v.den.empty()&&isConst(v.num,&c)){ double d=c.get_d(); if(toQ(d)==c) return d; }
  if(v.num==-1) abort(); vals.push_back(std::move(v)); return boxed(vals.size()-1); }
static Val get(double d){ if(isSym(d)){ uint32_t i=sid(d); if(i>=vals.size()) path_abort("stale symbolic value"); return vals[i]; }
  Val v; v.num=P_const(toQ(d)); gridOf(d,v.e,v.M); v.exact=true; return v; }
static void gridchk(Val&v){ if(v.M-v.e>53) { v.exact=false; } if(!v.exact) exactPath=false; }

// ---------------------------------------------------------------- shared state with the parent
enum { MAXDEC=60000 };
struct Dec { uint8_t kind; uint8_t forced; int16_t taken; int16_t n; uint8_t pendmask_valid; uint8_t pad; uint32_t alt; };
// kind 0: sign fork (taken 0/1, alt=1 pending other side) ; kind 1: choose (taken index, alt = 1 if more)
struct Stats { long paths,aborted,decisions,forks,queries,qsat,qunsat,qunknown,asserts,discharged,undecided,violations,exactpaths,crashes,hangs,maxdepth,obs,samples,restarts,fastsign,limit; double solver; int done; };
struct Shm { int ndec; Dec dec[MAXDEC]; Stats st; char model[1<<16]; char phase[64]; char reach[8192]; char notes[8192]; };
static Shm*sh; static int curDepth; static int prefixLen; static int levelOf[MAXDEC+1];
static sigjmp_buf runJmp; static bool inRun=false;
static FILE*fout=nullptr; static string outPrefix; static int maxViol=3; static double tlimit=1e18; static unsigned qto=3000;
static int partI=0,partK=1,partDepth=7; static int forkCount; static uint64_t forkHash;
static Z3_context ctx; static Z3_solver solver; static Z3_sort RealS;
static vector<Z3_ast> asserted; static vector<size_t> scopes; static bool nonlin=false; static vector<char> nlscopes;
static vector<Q> model; static bool modelOk=false; static vector<std::pair<string,int>> choices;
static map<int,vector<Q>> savedModel; static map<int,bool> savedOk;   // decision index -> model for the pending side
static string abortWhy;
static bool uncertain;      // this path passed through a branch whose feasibility is unknown
static void path_abort(const char*why){ abortWhy=why; if(!inRun){ fprintf(stderr,"abort outside run: %s\n",why); _exit(3);} siglongjmp(runJmp,1); }

static Z3_ast zq(const Q&q){ return Z3_mk_numeral(ctx,q.get_str().c_str(),RealS); }
static Z3_ast zpoly(int p){ if(polyAst[p]) return polyAst[p]; vector<Z3_ast> s; for(auto&x:polys[p]->t){ vector<Z3_ast> f; if(x.second!=1||x.first==0) f.push_back(zq(x.second));
    Mono m=x.first; for(int k=0;m;k++,m>>=4) for(int e=0;e<(int)(m&15);e++) f.push_back(varAst[k]); s.push_back(f.size()==1?f[0]:Z3_mk_mul(ctx,f.size(),f.data())); }
  Z3_ast r = s.empty()? zq(0) : s.size()==1? s[0] : Z3_mk_add(ctx,s.size(),s.data()); Z3_inc_ref(ctx,r); return polyAst[p]=r; }
static void z_push(){ Z3_solver_push(ctx,solver); scopes.push_back(asserted.size()); nlscopes.push_back(nonlin); }
static void z_pop(int n){ if(n<=0) return; Z3_solver_pop(ctx,solver,n); size_t k=scopes.size()-n; size_t to=scopes[k]; nonlin=nlscopes[k]; for(size_t i=to;i<asserted.size();i++) Z3_dec_ref(ctx,asserted[i]); asserted.resize(to); scopes.resize(k); nlscopes.resize(k); }
static void z_assert(Z3_ast a,bool nl){ Z3_inc_ref(ctx,a); asserted.push_back(a); if(nl) nonlin=true; Z3_solver_assert(ctx,solver,a); }
static void setTO(Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); }
static void readModel(Z3_solver s,vector<Q>&out,bool&ok,vector<string>*txt=nullptr){ out.assign(vars.size(),Q(0)); ok=true; Z3_model m=Z3_solver_get_model(ctx,s); if(!m){ ok=false; return; } Z3_model_inc_ref(ctx,m);
  for(size_t i=0;i<vars.size();i++){ Z3_ast r=nullptr; if(!Z3_model_eval(ctx,m,varAst[i],true,&r)){ ok=false; continue; } Z3_inc_ref(ctx,r);
    if(Z3_is_numeral_ast(ctx,r)){ out[i]=Q(Z3_get_numeral_string(ctx,r)); }
    else if(Z3_is_algebraic_number(ctx,r)){ ok=false; Z3_ast l=Z3_get_algebraic_number_lower(ctx,r,40); Z3_inc_ref(ctx,l); out[i]=Q(Z3_get_numeral_string(ctx,l)); Z3_dec_ref(ctx,l);} else ok=false;
    Z3_dec_ref(ctx,r); } Z3_model_dec_ref(ctx,m); }
// check asserted (+ extra literals): 1 sat, 0 unsat, -1 unknown.  Linear: incremental simplex; nonlinear: nlsat first.
// The per-path watchdog only counts the code under test: it is suspended while the solver runs (exit 78: solver stuck).
static int nlCheck(const vector<Z3_ast>&extra,vector<Q>*mo,bool*mok,unsigned to){ Z3_tactic t=Z3_mk_tactic(ctx,"qfnra-nlsat"); Z3_tactic_inc_ref(ctx,t); Z3_solver s2=Z3_mk_solver_from_tactic(ctx,t); Z3_solver_inc_ref(ctx,s2); setTO(s2,to);
  for(auto a:asserted) Z3_solver_assert(ctx,s2,a); for(auto a:extra) Z3_solver_assert(ctx,s2,a); Z3_lbool b=Z3_solver_check(ctx,s2); int r= b==Z3_L_TRUE?1: b==Z3_L_FALSE?0:-1; if(r==1&&mo) readModel(s2,*mo,*mok); Z3_solver_dec_ref(ctx,s2); Z3_tactic_dec_ref(ctx,t); return r; }
static int smtCheck(const vector<Z3_ast>&extra,vector<Q>*mo,bool*mok,unsigned to){ setTO(solver,to); Z3_solver_push(ctx,solver); for(auto a:extra) Z3_solver_assert(ctx,solver,a); Z3_lbool b=Z3_solver_check(ctx,solver); int r= b==Z3_L_TRUE?1: b==Z3_L_FALSE?0:-1;
  if(r==1&&mo) readModel(solver,*mo,*mok); Z3_solver_pop(ctx,solver,1); return r; }
static bool solverBusy=false;
static int z_check(const vector<Z3_ast>&extra,bool enl,vector<Q>*mo,bool*mok,unsigned to=0){ if(!to) to=qto; double t0=now(); sh->st.queries++; itimerval old,lim={{0,0},{(long)(to*4/1000+20),0}}; solverBusy=true; setitimer(ITIMER_REAL,&lim,&old);
  int r= (nonlin||enl)? nlCheck(extra,mo,mok,to) : smtCheck(extra,mo,mok,to); if(r<0) r= (nonlin||enl)? smtCheck(extra,mo,mok,to) : nlCheck(extra,mo,mok,to*2);
  solverBusy=false; setitimer(ITIMER_REAL,&old,nullptr);
  if(r==1) sh->st.qsat++; else if(r==0) sh->st.qunsat++; else sh->st.qunknown++;
  sh->st.solver+=now()-t0; return r; }
static Q evalP(int p,const vector<Q>&m){ Q r=0; for(auto&x:polys[p]->t){ Q c=x.second; Mono k=x.first; for(int i=0;k;i++,k>>=4) for(int e=0;e<(int)(k&15);e++) c*=m[i]; r+=c; } return r; }
static string modelText(const vector<Q>&m){ std::ostringstream o; for(size_t i=0;i<vars.size()&&i<m.size();i++) o<<"r "<<vars[i].name<<" "<<m[i].get_str()<<"\n"; for(auto&c:choices) o<<"c "<<c.first<<" "<<c.second<<"\n"; return o.str(); }
static void publishModel(){ string s=modelText(model); if(s.size()<sizeof(sh->model)) strcpy(sh->model,s.c_str()); }
// interval bound of a polynomial over the input box
static void boundsP(int p,Q&lo,Q&hi){ lo=hi=0; for(auto&x:polys[p]->t){ Q a=x.second,b=x.second; Mono k=x.first; for(int i=0;k;i++,k>>=4) for(int e=0;e<(int)(k&15);e++){ Q c[4]={a*vars[i].lo,a*vars[i].hi,b*vars[i].lo,b*vars[i].hi}; a=*std::min_element(c,c+4); b=*std::max_element(c,c+4);} lo+=a; hi+=b; } }

// ---------------------------------------------------------------- sign queries
static std::unordered_map<int,int> signMask;    // path local: canonical poly -> possible signs (1 neg,2 zero,4 pos)
static vector<int> denFactors;                  // path local: polynomials known positive (denominators)
static int canon(int p,bool&flip){ auto&t=polys[p]->t; if(t.empty()){ flip=false; return p; } Q l=t[0].second; flip=sgn(l)<0; if(l==1) return p; if(l==-1){ return P_addmul(p,-1,p,0);} return P_addmul(p,1/l,p,0); }
static int maskFlip(int m){ return (m&2)|((m&1)<<2)|((m&4)>>2); }
static Z3_ast signFormula(int p,int mask){ Z3_ast a=zpoly(p),z=zq(0); switch(mask){ case 1:return Z3_mk_lt(ctx,a,z); case 2:return Z3_mk_eq(ctx,a,z); case 3:return Z3_mk_le(ctx,a,z); case 4:return Z3_mk_gt(ctx,a,z); case 6:return Z3_mk_ge(ctx,a,z); case 5:return Z3_mk_not(ctx,Z3_mk_eq(ctx,a,z)); } return Z3_mk_true(ctx); }
static void pathDeadline(){ if(now()>tlimit){ sh->st.limit=1; path_abort("deadline"); } }
static int nextDecision(){ if(curDepth>=MAXDEC-1) path_abort("too many decisions"); return curDepth++; }
static void forkMark(int side){ if(partK>1&&forkCount<partDepth){ forkHash=forkHash*1000003u+side+1; forkCount++; if(forkCount==partDepth&&(int)((forkHash*0x9E3779B97F4A7C15ull>>40)%partK)!=partI) path_abort("other part"); } }
// is sign(p) in mask?  forks if both possible
static bool querySign(int p0,int mask0){ Q c; if(isConst(p0,&c)){ int s=sgn(c); return (mask0>>(s+1))&1; }
  int p=p0; if(polys[p]->deg>1){ for(int f:denFactors){ int q; while(P_divexact(p,f,q)){ p=q; if(polys[p]->deg<=1) break; } } }
  if(isConst(p,&c)){ int s=sgn(c); return (mask0>>(s+1))&1; }
  bool fl; p=canon(p,fl); int mask=fl?maskFlip(mask0):mask0;
  auto it=signMask.find(p); int known = it==signMask.end()?7:it->second;
  if(it==signMask.end()){ Q lo,hi; boundsP(p,lo,hi); int k=0; if(lo<0)k|=1; if(lo<=0&&hi>=0)k|=2; if(hi>0)k|=4; known=k; if(k!=7) { signMask[p]=k; sh->st.fastsign++; } }
  if((known&~mask)==0) return true; if((known&mask)==0) return false;
  bool nl=polys[p]->deg>1; int d=nextDecision(); sh->st.decisions++; int side;
  if(d<prefixLen){ Dec&D=sh->dec[d]; if(D.kind!=0){ fprintf(stderr,"nondeterministic replay\n"); _exit(4);} side=D.taken;
    if(!D.forced && levelOf[d]<0){ z_push(); z_assert(signFormula(p,side?mask&known:~mask&known),nl); levelOf[d]=scopes.size(); } }
  else { pathDeadline(); int ms=-1; if(modelOk){ int s=sgn(evalP(p,model)); ms=(mask>>(s+1))&1; }
    Dec D; memset(&D,0,sizeof D); D.kind=0; D.n=2; int f[2]; vector<Q> mo[2]; bool mk_[2]={false,false};
    for(int k=0;k<2;k++){ if(ms==k){ f[k]=1; continue; } f[k]=z_check({signFormula(p,k?mask&known:~mask&known)},nl,&mo[k],&mk_[k]); }
    if(ms<0){ if(f[0]==0&&f[1]==0) path_abort("infeasible"); side = f[1]!=0?1:0; if(f[1]==-1&&f[0]==1) side=0; } else side=ms;
    int o=1-side; if(f[side]==-1||f[o]==-1) uncertain=true; D.taken=side; D.forced=(f[o]==0);
    if(!D.forced){ D.alt=1; savedModel[d]=mo[o]; savedOk[d]=mk_[o]&&f[o]==1; sh->st.forks++; }
    if(ms<0){ model=mo[side]; modelOk=mk_[side]&&f[side]==1; if(f[side]==1) publishModel(); }
    sh->dec[d]=D; sh->ndec=d+1; levelOf[d]=-1;
    if(!D.forced){ z_push(); z_assert(signFormula(p,side?mask&known:~mask&known),nl); levelOf[d]=scopes.size(); } }
  signMask[p]= side? (known&mask):(known&~mask);
  if(!sh->dec[d].forced) forkMark(side);
  return side; }

// ---------------------------------------------------------------- arithmetic
static vector<int> lcm(const vector<int>&a,const vector<int>&b){ vector<int> r; std::set_union(a.begin(),a.end(),b.begin(),b.end(),std::back_inserter(r)); return r; }
static int raise(int num,const vector<int>&have,const vector<int>&want){ vector<int> miss; std::set_difference(want.begin(),want.end(),have.begin(),have.end(),std::back_inserter(miss)); for(int f:miss) num=P_mul(num,f); return num; }
static void reduce(Val&v){ for(size_t i=0;i<v.den.size();){ int q; if(P_divexact(v.num,v.den[i],q)){ v.num=q; v.den.erase(v.den.begin()+i);} else i++; } }
static double addsub(double a,double b,int s){ Val x=get(a),y=get(b); Val r; r.den=lcm(x.den,y.den); int n1=raise(x.num,x.den,r.den),n2=raise(y.num,y.den,r.den); r.num=P_addmul(n1,1,n2,s); if(!r.den.empty()) reduce(r);
  r.e=std::min(x.e,y.e); r.M=std::max(x.M,y.M)+1; r.exact=x.exact&&y.exact; 
  if(!isSym(b)&&b==0) {r.e=x.e;r.M=x.M;} if(!isSym(a)&&a==0){ r.e=y.e; r.M=y.M; }
  Q c; if(r.den.empty()&&isConst(r.num,&c)&&c==0){ return 0.0; }
  // tighten magnitude with the input box
  if(r.den.empty()&&polys[r.num]->deg<=1){ Q lo,hi; boundsP(r.num,lo,hi); Q m=std::max(abs(lo),abs(hi)); int M=0; double md=m.get_d(); if(md>0) frexp(md*(1+1e-12),&M); r.M=std::min(r.M,M); }
  gridchk(r); return mk(r); }
extern "C" {
// a constant below 1e-9 added to a symbolic value is a rounding tolerance: idealised as 0
static bool tinyC(double c){ return !isSym(c)&&c!=0&&fabs(c)<1e-9; }
double __sym_fadd(double a,double b){ if(!isSym(a)&&!isSym(b)) return tinyC(b)&&fabs(a)>=1e-3?a:a+b; if(tinyC(a)) return b; if(tinyC(b)) return a; if(!isSym(a)&&!finiteD(a)) return a; if(!isSym(b)&&!finiteD(b)) return b; return addsub(a,b,1); }
double __sym_fneg(double);
double __sym_fsub(double a,double b){ if(!isSym(a)&&!isSym(b)) return tinyC(b)&&(a==0||fabs(a)>=1e-3)?a:a-b; if(tinyC(b)) return a; if(tinyC(a)) return __sym_fneg(b); if(!isSym(a)&&!finiteD(a)) return a; if(!isSym(b)&&!finiteD(b)) return -b; return addsub(a,b,-1); }
double __sym_fneg(double a){ if(!isSym(a)) return -a; Val x=get(a); x.num=P_addmul(x.num,-1,x.num,0); return mk(x); }
static int signOf(double a){ Val x=get(a); if(querySign(x.num,2)) return 0; return querySign(x.num,4)?1:-1; }
double __sym_fmul(double a,double b){ if(!isSym(a)&&!isSym(b)) return a*b;
  if(!isSym(a)) std::swap(a,b); // a symbolic
  if(!isSym(b)&&!finiteD(b)){ if(b!=b) return b; int s=signOf(a); return s==0?NAN:s*b; }
  if(!isSym(b)&&b==0) return 0.0; if(!isSym(b)&&b==1) return a; 
  Val x=get(a),y=get(b),r; r.num=P_mul(x.num,y.num); r.den=x.den; r.den.insert(r.den.end(),y.den.begin(),y.den.end()); std::sort(r.den.begin(),r.den.end()); if(!r.den.empty()) reduce(r);
  r.e=x.e+y.e; r.M=x.M+y.M; r.exact=x.exact&&y.exact; gridchk(r); return mk(r); }
double __sym_fdiv(double a,double b){ if(!isSym(a)&&!isSym(b)) return a/b;
  if(!isSym(b)){ if(b!=b) return b; if(std::isinf(b)) return 0.0; if(b==0){ int s=signOf(a); return s==0?NAN: (std::signbit(b)?-s:s)*INFINITY; }
    Val x=get(a); x.num=P_addmul(x.num,1/toQ(b),x.num,0); int e2; double f=frexp(b,&e2); if(fabs(f)==0.5){ x.e-=e2-1; x.M-=e2-1; } else { x.exact=false; } gridchk(x); return mk(x); }
  int s=signOf(b);
  if(s==0){ if(!isSym(a)&&a!=a) return a; int t; if(isSym(a)) t=signOf(a); else t=(a>0)-(a<0); return t==0?NAN:t*INFINITY; }
  if(!isSym(a)&&!finiteD(a)) return a*s;
  if(!isSym(a)&&a==0) return 0.0;
  Val x=get(a),y=get(b),r; int n=y.num; if(s<0) n=P_addmul(n,-1,n,0); int m=x.num; if(s<0) m=P_addmul(m,-1,m,0);
  // a/b = m*yden / (xden*n) with n>0 ; normalise n to leading coefficient +-1
  Q l=polys[n]->t[0].second; Q al=abs(l); n=P_addmul(n,1/al,n,0); m=P_addmul(m,1/al,m,0);
  r.num=m; for(int f:y.den) r.num=P_mul(r.num,f); r.den=x.den; Q cc; if(!isConst(n,&cc)){ r.den.push_back(n); std::sort(r.den.begin(),r.den.end()); if(std::find(denFactors.begin(),denFactors.end(),n)==denFactors.end()) denFactors.push_back(n);} else r.num=P_addmul(r.num,1/cc,r.num,0);
  reduce(r); r.e=0;r.M=0; r.exact=false; gridchk(r); return mk(r); }
double __sym_frem(double a,double b){ if(!isSym(a)&&!isSym(b)) return fmod(a,b); path_abort("unsupported frem"); }
static int diffPoly(double a,double b){ Val x=get(a),y=get(b); vector<int> d=lcm(x.den,y.den); int n1=raise(x.num,x.den,d),n2=raise(y.num,y.den,d); return P_addmul(n1,1,n2,-1); }
bool __sym_fcmp(int pred,double a,double b){
  if(!isSym(a)&&!isSym(b)){ bool un=(a!=a)||(b!=b); switch(pred){ case 1:return !un&&a==b; case 2:return a>b; case 3:return a>=b; case 4:return a<b; case 5:return a<=b; case 6:return !un&&a!=b; case 7:return !un; case 8:return un; case 9:return un||a==b; case 10:return un||a>b; case 11:return un||a>=b; case 12:return un||a<b; case 13:return un||a<=b; case 14:return un||a!=b; } abort(); }
  if(pred==7) return !((!isSym(a)&&a!=a)||(!isSym(b)&&b!=b)); if(pred==8) return ((!isSym(a)&&a!=a)||(!isSym(b)&&b!=b));
  bool unord=pred>=8; int p=unord?pred-8:pred; // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
  if((!isSym(a)&&a!=a)||(!isSym(b)&&b!=b)) return unord;
  if(!isSym(a)&&std::isinf(a)){ int s=a>0?1:-1; return p==2?s>0:p==3?s>0:p==4?s<0:p==5?s<0:p==6; }
  if(!isSym(b)&&std::isinf(b)){ int s=b>0?-1:1; return p==2?s>0:p==3?s>0:p==4?s<0:p==5?s<0:p==6; }
  static const int MK[7]={0,2,4,6,1,3,5}; return querySign(diffPoly(a,b),MK[p]); }
double __sym_fabs(double a){ if(!isSym(a)) return fabs(a); return querySign(get(a).num,6)?a:__sym_fneg(a); }
double __sym_fmax(double a,double b){ if(!isSym(a)&&!isSym(b)) return fmax(a,b); if(!isSym(a)&&a!=a) return b; if(!isSym(b)&&b!=b) return a; return __sym_fcmp(4,a,b)?b:a; }
double __sym_fmin(double a,double b){ if(!isSym(a)&&!isSym(b)) return fmin(a,b); if(!isSym(a)&&a!=a) return b; if(!isSym(b)&&b!=b) return a; return __sym_fcmp(4,b,a)?b:a; }
double __sym_fma(double a,double b,double c){ if(!isSym(a)&&!isSym(b)&&!isSym(c)) return fma(a,b,c); return __sym_fadd(__sym_fmul(a,b),c); }
double __sym_floor(double a){ if(!isSym(a)) return floor(a); path_abort("unsupported floor"); }
double __sym_ceil(double a){ if(!isSym(a)) return ceil(a); path_abort("unsupported ceil"); }
bool __sym_fpclass(double a,int m){ if(isSym(a)){ if((m&0x1f8)==0x1f8) return true; if((m&0x1f8)==0) return false; path_abort("unsupported fpclass"); }
  bool neg=std::signbit(a); int c; switch(std::fpclassify(a)){ case FP_NAN:c=2;break; case FP_INFINITE:c=neg?4:0x200;break; case FP_NORMAL:c=neg?8:0x100;break; case FP_SUBNORMAL:c=neg?0x10:0x80;break; default:c=neg?0x20:0x40;} if(std::isnan(a)) return (m&3)!=0; return (m&c)!=0; }
double __sym_copysign(double a,double b){ if(!isSym(a)&&!isSym(b)) return copysign(a,b); double x=__sym_fabs(a); bool neg=isSym(b)?__sym_fcmp(4,b,0.0):std::signbit(b); return neg?__sym_fneg(x):x; }
double __sym_unsup1(double a){ (void)a; path_abort("unsupported libm call"); }
double __sym_unsup2(double a,double b){ (void)a;(void)b; path_abort("unsupported libm call"); }
long __sym_unsupi(double a){ (void)a; path_abort("unsupported libm call"); }
double __sym_guard(double a){ if(isSym(a)) path_abort("unsupported fptrunc"); return a; }
long __sym_fptosi(double a){ if(!isSym(a)) return (long)a; // finite case split: each integer value in range becomes a decision
  Val x=get(a); if(!x.den.empty()) path_abort("unsupported fptosi"); Q lo,hi; boundsP(x.num,lo,hi); if(abs(lo)>64||abs(hi)>64) path_abort("fptosi range"); 
  long L=(long)floor(lo.get_d()),H=(long)ceil(hi.get_d()); for(long k=L;k<=H;k++){ bool in; if(k>0) in=__sym_fcmp(3,a,(double)k)&&__sym_fcmp(4,a,(double)k+1); else if(k<0) in=__sym_fcmp(5,a,(double)k)&&__sym_fcmp(2,a,(double)k-1); else in=__sym_fcmp(2,a,-1.)&&__sym_fcmp(4,a,1.); if(in) return k; } path_abort("fptosi"); }
// ---- text I/O of doubles: a symbolic value is printed as a reserved integer and read back as the same value
static const double MAGIC=7654000000.0; 
double sym_real(const char*,double,double); void sym_assume(int); int sym_is_int(double);
// printed with p < 17 significant digits and not merely displayed: the decimal rounding, as a fresh value on the decimal grid
static int roundCount;
static double roundDigits(double d,int p){ if(p<1) p=1; if(__sym_fcmp(1,d,0.0)) return 0; bool neg=__sym_fcmp(4,d,0.0); double a=neg?__sym_fneg(d):d; int k=-5; while(k<9&&__sym_fcmp(3,a,pow(10,k+1))) k++; Q u=1; for(int i=0;i<abs(k-p+1);i++) u*=10; if(k-p+1<0) u=1/u;
  double r=sym_real(("rounded"+std::to_string(roundCount++)).c_str(),-1e9,1e9); Val q=get(r); q.num=P_addmul(q.num,u,q.num,0); double v=mk(q); sym_assume(sym_is_int(r)); double h=__sym_fsub(v,a); Val hv=get(h); hv.num=P_addmul(hv.num,2/u,hv.num,0); h=mk(hv); sym_assume(sym_b_cmp(1,h,1.0)); sym_assume(sym_b_cmp(1,-1.0,h)); return neg?__sym_fneg(v):v; }
std::ostream* __sym_os_double(std::ostream*o,double d){ if(isSym(d)&&o->precision()<17&&o!=&std::cout&&o!=&std::cerr&&o!=&std::clog) d=roundDigits(d,o->precision()); if(!isSym(d)){ *o<<d; return o; } char b[32]; snprintf(b,sizeof b,"%.0f",MAGIC+sid(d)); *o<<(const char*)b; return o; }
std::istream* __sym_is_double(std::istream*i,double*d){ double v=0; (*i)>>v; *d=v; bool neg=v<0; double w=neg?-v:v; if(w>=MAGIC&&w<MAGIC+900000&&w==floor(w)&&(w-MAGIC)<vals.size()){ double h=boxed((uint32_t)(w-MAGIC)); *d=neg?__sym_fneg(h):h; } return i; }
static double untoken(double v){ bool neg=v<0; double w=neg?-v:v; if(w>=MAGIC&&w<MAGIC+900000&&w==floor(w)&&(w-MAGIC)<vals.size()){ double h=boxed((uint32_t)(w-MAGIC)); return neg?__sym_fneg(h):h; } return v; }
double __sym_strtod(const char*s,char**e){ return untoken(strtod(s,e)); } double __sym_atof(const char*s){ return untoken(atof(s)); }
const char*sym_token(double v){ static char bufs[16][40]; static int k; char*b=bufs[k++&15]; if(isSym(v)) snprintf(b,40,"%.0f",MAGIC+sid(v)); else snprintf(b,40,"%.17g",v); return b; }

// ---------------------------------------------------------------- harness API
double sym_real(const char*name,double lo,double hi){ auto it=varIx.find(name); int i; if(it==varIx.end()){ if(vars.size()>=32) path_abort("too many inputs"); i=vars.size(); vars.push_back({name,toQ(lo),toQ(hi),true}); varIx[name]=i; Z3_ast v=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,name),RealS); Z3_inc_ref(ctx,v); varAst.push_back(v); model.resize(vars.size()); } else { i=it->second; if(vars[i].lo!=toQ(lo)||vars[i].hi!=toQ(hi)) { fprintf(stderr,"input %s redeclared with other bounds\n",name); _exit(5);} }
  static vector<char> once; if(once.size()<vars.size()) once.resize(vars.size(),0);
  if(!once[i]){ once[i]=1; // bounds hold on every path: assert at base level
    int n=scopes.size(); vector<Z3_ast> keep; (void)n; 
    Z3_ast c1=Z3_mk_ge(ctx,varAst[i],zq(vars[i].lo)),c2=Z3_mk_le(ctx,varAst[i],zq(vars[i].hi)); 
    // asserted as an extra level so that it survives (re-asserted when popped)
    z_assert(c1,false); z_assert(c2,false); extern vector<std::pair<size_t,std::pair<Z3_ast,Z3_ast>>> boundLevels; boundLevels.push_back({scopes.size(),{c1,c2}}); Z3_inc_ref(ctx,c1); Z3_inc_ref(ctx,c2);
    model[i]= (vars[i].lo<=0&&vars[i].hi>=0)? Q(0): vars[i].lo; publishModel(); }
  Val v; Poly p; p.t.push_back({(Mono)1<<(4*i),Q(1)}); v.num=P(std::move(p)); v.e=ONEGRID; int M; double m=std::max(fabs(lo),fabs(hi)); frexp(m,&M); v.M=M; v.exact=true; return mk(v); }
int sym_choose(const char*name,int n){ int d=nextDecision(); int v; if(n<=1){ curDepth--; choices.push_back({name,0}); return 0; }
  if(d<prefixLen){ if(sh->dec[d].kind!=1){ fprintf(stderr,"nondeterministic replay\n"); _exit(4);} v=sh->dec[d].taken; }
  else { Dec D; memset(&D,0,sizeof D); D.kind=1; D.n=n; D.taken=0; D.alt=1; v=0; sh->dec[d]=D; sh->ndec=d+1; levelOf[d]=-1; savedModel[d]=model; savedOk[d]=modelOk; sh->st.decisions++; sh->st.forks++; }
  choices.push_back({name,v}); publishModel(); forkMark(v); return v; }
}
vector<std::pair<size_t,std::pair<Z3_ast,Z3_ast>>> boundLevels;   // bounds first asserted inside some scope
static vector<std::pair<string,double>> observed;               // path local
static vector<Z3_ast> bforms; static vector<char> bnl;           // path local formulas: index -> ast
static int bmk(Z3_ast a,bool nl){ Z3_inc_ref(ctx,a); bforms.push_back(a); bnl.push_back(nl); return bforms.size()-1+2; }
static Z3_ast bz(int h){ return h==0?Z3_mk_false(ctx):h==1?Z3_mk_true(ctx):bforms[h-2]; }
static bool bn(int h){ return h<2?false:bnl[h-2]; }
static string harnessName; static Args harnessArgs;
static void emitViolation(const char*kind,const string&msg,const string&mt){ if(!fout) return; fprintf(fout,"VIOLATION\nkind %s\nmsg %s\n%sEND\n",kind,msg.c_str(),mt.c_str()); fflush(fout); sh->st.violations++; }
extern "C" {
void sym_observe(const char*name,double v){ observed.push_back({name,v}); sh->st.obs++; }
int sym_is_symbolic(void){ return 1; }
double sym_avg(double a,double b){ return __sym_fmul(__sym_fadd(a,b),0.5); }
int sym_b_const(int v){ return v?1:0; }
int sym_b_cmp(int op,double a,double b){ if(!isSym(a)&&!isSym(b)) return op==0?a<b:op==1?a<=b:a==b;
  bool an=!isSym(a)&&a!=a,bn_=!isSym(b)&&b!=b; if(an||bn_) return 0; 
  if(!isSym(a)&&std::isinf(a)) return op==2?0:a<0; if(!isSym(b)&&std::isinf(b)) return op==2?0:b>0;
  int p=diffPoly(a,b); Q c; int mask= op==0?1:op==1?3:2; if(isConst(p,&c)) return (mask>>(sgn(c)+1))&1;
  if(polys[p]->deg>1) for(int f:denFactors){ int q; while(P_divexact(p,f,q)) p=q; }
  bool fl; p=canon(p,fl); if(isConst(p,&c)){ int s=sgn(c); if(fl) s=-s; return (mask>>(s+1))&1; } if(fl) mask=maskFlip(mask);
  auto it=signMask.find(p); int known=it==signMask.end()?7:it->second; if(known==7){ Q lo,hi; boundsP(p,lo,hi); int k=0; if(lo<0)k|=1; if(lo<=0&&hi>=0)k|=2; if(hi>0)k|=4; known=k; }
  if((known&~mask)==0) return 1; if((known&mask)==0) return 0;
  return bmk(signFormula(p,mask),polys[p]->deg>1); }
int sym_b_tcmp(int op,double a,double b){ return sym_b_cmp(op,a,b); }
int sym_is_int(double a){ if(!isSym(a)) return a==floor(a); return bmk(Z3_mk_is_int(ctx,zpoly(get(a).num)),false); }
int sym_b_and(int a,int b){ if(a==0||b==0) return 0; if(a==1) return b; if(b==1) return a; if(a==b) return a; Z3_ast x[2]={bz(a),bz(b)}; return bmk(Z3_mk_and(ctx,2,x),bn(a)||bn(b)); }
int sym_b_or(int a,int b){ if(a==1||b==1) return 1; if(a==0) return b; if(b==0) return a; if(a==b) return a; Z3_ast x[2]={bz(a),bz(b)}; return bmk(Z3_mk_or(ctx,2,x),bn(a)||bn(b)); }
int sym_b_not(int a){ if(a<2) return 1-a; return bmk(Z3_mk_not(ctx,bz(a)),bn(a)); }
static bool replaying(){ return curDepth<prefixLen; }
void sym_assume(int b){ if(b==1) return; if(b==0) path_abort("assume"); int d=nextDecision(); sh->st.decisions++;
  if(d<prefixLen){ if(levelOf[d]<0){ z_push(); z_assert(bz(b),bn(b)); levelOf[d]=scopes.size(); } if(!sh->dec[d].taken) path_abort("assume"); return; }
  pathDeadline(); vector<Q> mo; bool mk_=false; int r=z_check({bz(b)},bn(b),&mo,&mk_); Dec D; memset(&D,0,sizeof D); D.kind=2; D.forced=1; D.taken=r!=0; sh->dec[d]=D; sh->ndec=d+1; levelOf[d]=-1;
  if(r==0) path_abort("assume"); if(r==-1) uncertain=true; z_push(); z_assert(bz(b),bn(b)); levelOf[d]=scopes.size(); model=mo; if(model.size()<vars.size()) model.resize(vars.size()); modelOk=mk_&&r==1; if(r==1) publishModel(); }
// a model on the dyadic grid, so that the native replay is (as far as possible) rounding free
static bool gridModel(const vector<Z3_ast>&extra,vector<Q>&mo){ Z3_sort I=Z3_mk_int_sort(ctx); for(int g: {2,8,64}){ Z3_solver s=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,s); setTO(s,1500); for(auto a:asserted) Z3_solver_assert(ctx,s,a); for(auto a:extra) Z3_solver_assert(ctx,s,a);
    for(size_t i=0;i<vars.size();i++){ Z3_ast k=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,("k!"+vars[i].name).c_str()),I); Z3_ast m[2]={zq(Q(1,g)),Z3_mk_int2real(ctx,k)}; Z3_solver_assert(ctx,s,Z3_mk_eq(ctx,varAst[i],Z3_mk_mul(ctx,2,m))); }
    double t0=now(); Z3_lbool b=Z3_solver_check(ctx,s); sh->st.queries++; sh->st.solver+=now()-t0; bool ok=false; if(b==Z3_L_TRUE) readModel(s,mo,ok); Z3_solver_dec_ref(ctx,s); if(ok) return true; } return false; }
void sym_assert(int b,const char*msg){ int d=nextDecision(); if(d<prefixLen){ if(sh->dec[d].kind!=3){ fprintf(stderr,"nondeterministic replay\n"); _exit(4);} if(sh->dec[d].taken) sym_assume(b); return; } // already decided on this prefix
  pathDeadline(); sh->st.asserts++; Dec D; memset(&D,0,sizeof D); D.kind=3; D.forced=1; sh->dec[d]=D; sh->ndec=d+1; levelOf[d]=-1;
  if(b==1){ sh->st.discharged++; return; }
  int nb=sym_b_not(b); vector<Q> mo; bool ok=false; int r;
  if(b==0){ r=1; mo=model; ok=modelOk; if(!ok) r=z_check({},false,&mo,&ok); if(r==0) path_abort("infeasible"); } else r=z_check({bz(nb)},bn(nb),&mo,&ok,qto*4);
  if(r==0){ sh->st.discharged++; return; }
  if(r==-1){ sh->st.undecided++; return; }
  vector<Q> gm; vector<Z3_ast> ex; if(b!=0) ex.push_back(bz(nb)); if(gridModel(ex,gm)) mo=gm;
  emitViolation("assert",msg,modelText(mo)); if(sh->st.violations>=maxViol){ sh->st.limit=2; tlimit=0; }
  sh->dec[d].taken=1; sym_assume(b); }   // continue on the part of the path where the assertion holds
void sym_reach(const char*l){ string k=string(l)+"\n"; if(strstr(sh->reach,k.c_str())==nullptr && strlen(sh->reach)+k.size()<sizeof(sh->reach)) strcat(sh->reach,k.c_str()); }
void sym_note(const char*l){ string k=string(l)+"\n"; if(strstr(sh->notes,k.c_str())==nullptr && strlen(sh->notes)+k.size()<sizeof(sh->notes)) strcat(sh->notes,k.c_str()); }
}
typedef std::function<void(const Args&)> HarnessFn;
static map<string,HarnessFn>& registry(){ static map<string,HarnessFn> r; return r; }
HarnessReg::HarnessReg(const char*n,HarnessRaw f){ registry()[n]=[f](const Args&a){ vector<const char*> v; for(auto&s:a) v.push_back(s.c_str()); f((int)v.size(),v.data()); }; }
extern "C" void harness_reset();   // per-path reset of the library's global state, provided by the harness prologue
static Q evalV(double d,const vector<Q>&m){ Val v=get(d); Q r=evalP(v.num,m); for(int f:v.den) r/=evalP(f,m); return r; }
static bool freshPaths=false; static int sampleEvery=1; static int maxSamples=40;
static void onAlarm(int){ _exit(solverBusy?78:77); }
static void popTo(size_t level){ if(scopes.size()>level) z_pop(scopes.size()-level);
  // re-assert input bounds whose level vanished
  for(auto&b:boundLevels) if(b.first>level){ z_assert(b.second.first,false); z_assert(b.second.second,false); b.first=level; } }
static void worker(){ // explores from the decision stack in shared memory
  freopen("/dev/null","w",stdout); std::cout.setstate(std::ios::goodbit);
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); ctx=Z3_mk_context(cfg); RealS=Z3_mk_real_sort(ctx); Z3_inc_ref(ctx,Z3_sort_to_ast(ctx,RealS)); Z3_set_error_handler(ctx,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(6); });
  solver=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,solver); P_const(0); for(int i=0;i<=MAXDEC;i++) levelOf[i]=-1;
  prefixLen=sh->ndec; modelOk=(prefixLen==0); bool needModel=prefixLen>0; HarnessFn fn=registry()[harnessName];
  signal(SIGALRM,onAlarm);
  for(;;){ vals.clear(); signMask.clear(); denFactors.clear(); observed.clear(); roundCount=0; choices.clear(); for(auto a:bforms) Z3_dec_ref(ctx,a); bforms.clear(); bnl.clear(); curDepth=0; exactPath=true; uncertain=false; abortWhy.clear(); forkCount=0; forkHash=0; static long pathNo=0; pathNo++;
    strcpy(sh->phase,"run"); itimerval tv={{0,0},{20,0}}; setitimer(ITIMER_REAL,&tv,nullptr); bool completed=false; harness_reset();
    inRun=true; if(sigsetjmp(runJmp,0)==0){ fn(harnessArgs); completed=true; } inRun=false; tv.it_value.tv_sec=0; setitimer(ITIMER_REAL,&tv,nullptr); strcpy(sh->phase,"engine");
    (void)needModel;
    if(completed){ sh->st.paths++; if(exactPath) sh->st.exactpaths++; sh->st.maxdepth=std::max(sh->st.maxdepth,(long)curDepth);
      if(sh->st.samples<maxSamples && (pathNo%sampleEvery)==0 && modelOk && !uncertain){ // validation record
        bool ok=true; vector<Q> mo=model; std::ostringstream o; o<<"SAMPLE\n"<<modelText(mo); for(auto&x:observed){ if(!isSym(x.second)) { char b[64]; snprintf(b,64,"%.17g",x.second); o<<"o "<<x.first<<" "<<b<<"\n"; } else { char b[64]; snprintf(b,64,"%.17g",evalV(x.second,mo).get_d()); o<<"o "<<x.first<<" "<<b<<"\n"; } } o<<"END\n"; if(ok&&fout){ fputs(o.str().c_str(),fout); fflush(fout); sh->st.samples++; if(sh->st.samples%10==0) sampleEvery*=3; } } }
    else { if(abortWhy=="deadline") { if(!sh->st.limit) sh->st.limit=1; return; } if(abortWhy!="assume"&&abortWhy!="infeasible"&&abortWhy!="other part"&&abortWhy!="violated"){ sym_note(("aborted: "+abortWhy).c_str()); sh->st.aborted++; sh->st.undecided++; } }
    // backtrack
    int d=sh->ndec-1; while(d>=0){ Dec&D=sh->dec[d]; if(D.kind==0&&D.alt==1) break; if(D.kind==1&&D.taken+1<D.n) break; d--; }
    if(d<0){ sh->st.done=1; return; }
    // levels: pop everything asserted at or after decision d
    size_t lv=scopes.size(); for(int k=d;k<sh->ndec;k++) if(levelOf[k]>=0){ lv=std::min(lv,(size_t)levelOf[k]-1); levelOf[k]=-1; }
    popTo(lv); Dec&D=sh->dec[d]; if(D.kind==0){ D.taken=1-D.taken; D.alt=2; } else D.taken++;
    sh->ndec=d+1; prefixLen=d+1; auto it=savedModel.find(d); if(it!=savedModel.end()){ model=it->second; modelOk=savedOk[d]; if(model.size()<vars.size()) { size_t o=model.size(); model.resize(vars.size()); for(;o<vars.size();o++) model[o]=(vars[o].lo<=0&&vars[o].hi>=0)?Q(0):vars[o].lo; } if(D.kind==0) { savedModel.erase(it); savedOk.erase(d);} } else modelOk=false;
    for(auto i=savedModel.upper_bound(d);i!=savedModel.end();){ savedOk.erase(i->first); i=savedModel.erase(i); }
    publishModel();
    if(freshPaths) return;   // the next path runs in a new process (used when the code under test keeps state of its own)
  } }
int main(int argc,char**argv){ // symexec <harness> --out F [--time s] [--part i/K] [args...]
  if(argc<2){ for(auto&r:registry()) printf("%s\n",r.first.c_str()); return 0; }
  harnessName=argv[1]; double tsec=1e9; bool nofork=false; for(int i=2;i<argc;i++){ string a=argv[i]; if(a=="--out") outPrefix=argv[++i]; else if(a=="--time") tsec=atof(argv[++i]); else if(a=="--part"){ sscanf(argv[++i],"%d/%d",&partI,&partK); } else if(a=="--qto") qto=atoi(argv[++i]); else if(a=="--maxviol") maxViol=atoi(argv[++i]); else if(a=="--samples") maxSamples=atoi(argv[++i]); else if(a=="--nofork") nofork=true; else if(a=="--freshpaths") freshPaths=true; else harnessArgs.push_back(a); }
  if(!registry().count(harnessName)){ fprintf(stderr,"no harness %s\n",harnessName.c_str()); return 9; }
  sh=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset(sh,0,sizeof(Shm)); double t0=now(); tlimit=t0+tsec;
  fout= outPrefix.empty()? stderr: fopen(outPrefix.c_str(),"w"); fflush(fout);
  if(nofork){ worker(); }
  else for(;;){ int err[2]; if(pipe(err)) return 8; pid_t p=fork(); if(p==0){ dup2(err[1],2); close(err[0]); close(err[1]); worker(); fflush(fout); _exit(0); }
    close(err[1]); string et; char buf[4096]; ssize_t n; while((n=read(err[0],buf,sizeof buf))>0){ if(et.size()<60000) et.append(buf,n); } close(err[0]); int st; waitpid(p,&st,0);
    if(!et.empty()) fputs(et.substr(0,3000).c_str(),stderr);
    if(WIFEXITED(st)&&WEXITSTATUS(st)==0){ if(freshPaths&&!sh->st.done&&!sh->st.limit&&now()<tlimit) continue; break; }
    if(WIFEXITED(st)&&WEXITSTATUS(st)>=3&&WEXITSTATUS(st)<=9&&strcmp(sh->phase,"run")!=0){ fprintf(stderr,"engine error %d\n",WEXITSTATUS(st)); fprintf(fout,"ENGINE_ERROR %d\n",WEXITSTATUS(st)); break; }
    if(WIFEXITED(st)&&WEXITSTATUS(st)>=3&&WEXITSTATUS(st)<=6){ fprintf(fout,"ENGINE_ERROR %d\n",WEXITSTATUS(st)); break; }
    if(WIFSIGNALED(st)&&WTERMSIG(st)==SIGKILL){ fprintf(fout,"ENGINE_ERROR killed\n"); break; }
    bool stuck=WIFEXITED(st)&&WEXITSTATUS(st)==78;
    // crash / sanitizer report / hang of the code under test on the current path
    bool hang=WIFEXITED(st)&&WEXITSTATUS(st)==77; string m= hang?"does not terminate": "crash"; if(WIFSIGNALED(st)){ m+=" signal "+std::to_string(WTERMSIG(st)); } size_t k=et.find("ERROR: AddressSanitizer"); if(k==string::npos) k=et.find("Error:"); if(k==string::npos) k=et.find("terminate called"); if(k!=string::npos){ string l=et.substr(k,et.find('\n',k)-k); m+=" ["+l.substr(0,160)+"]"; }
    for(auto&c:m) if(c=='\n') c=' ';
    if(stuck){ sh->st.undecided++; sh->st.aborted++; fprintf(fout,"NOTE solver gave no answer in time on a path\n"); sh->st.restarts++; } else {
    if(hang) sh->st.hangs++; else sh->st.crashes++; emitViolation(hang?"hang":"crash",m,sh->model); sh->st.restarts++; }
    if(sh->st.violations>=maxViol||sh->st.restarts>20||now()>tlimit){ sh->st.limit=2; break; }
    int d=sh->ndec-1; while(d>=0){ Dec&D=sh->dec[d]; if(D.kind==0&&D.alt==1) break; if(D.kind==1&&D.taken+1<D.n) break; d--; } if(d<0){ sh->st.done=1; break; }
    Dec&D=sh->dec[d]; if(D.kind==0){ D.taken=1-D.taken; D.alt=2; } else D.taken++; sh->ndec=d+1; }
  auto&s=sh->st; fprintf(fout,"STATS paths %ld aborted %ld decisions %ld forks %ld queries %ld sat %ld unsat %ld unknown %ld asserts %ld discharged %ld undecided %ld violations %ld exactpaths %ld crashes %ld hangs %ld maxdepth %ld samples %ld done %d limit %ld solver %.3f wall %.3f\n",s.paths,s.aborted,s.decisions,s.forks,s.queries,s.qsat,s.qunsat,s.qunknown,s.asserts,s.discharged,s.undecided,s.violations,s.exactpaths,s.crashes,s.hangs,s.maxdepth,s.samples,s.done,s.limit,s.solver,now()-t0);
  for(char*l=strtok(sh->reach,"\n");l;l=strtok(nullptr,"\n")) fprintf(fout,"REACH %s\n",l); for(char*l=strtok(sh->notes,"\n");l;l=strtok(nullptr,"\n")) fprintf(fout,"NOTE %s\n",l); fflush(fout); return 0; }
