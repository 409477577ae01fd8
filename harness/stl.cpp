// Whole-formula harnesses: parser -> driver/monitor -> transducers, against the reference semantics.
#include "util.h"
static void feed(STLDriver&d,const Trace&t,int a,int b){ for(int i=a;i<b;i++) d.add_sample(row(t,i)); }
// robustness (and both bounds) of a fully evaluable formula equal the STL semantics
HARNESS(rho){ Cfg c(A); Setup S; setup(c,S); complete(S); feed(S.d,S.t,0,S.t.n); string w=c.s("what","rho"),via=c.s("via","driver"); double r,lo,up;
  if(via=="driver"){ vector<double> q=S.d.get_online_rob("phi",S.t0); ensure(q.size()==3,"three values"); if(q.size()!=3) return; r=q[0]; lo=q[1]; up=q[2]; }
  else { STLMonitor m=S.d.get_monitor("phi"); r=m.eval_rob(S.t0); lo=m.get_lower_rob(); up=m.get_upper_rob(); ensure(eq(m.get_rob(),r),"the stored robustness is the returned one"); }
  sym_observe("rob",r); sym_observe("low",lo); sym_observe("up",up); sym_reach("end");
  if(w.find("rho")!=string::npos) checkRho(S,S.t0,r,"robustness equals the STL semantics");
  if(w.find("bounds")!=string::npos){ ensure(eq(r,lo),"lower bound equals the robustness on complete data"); ensure(eq(r,up),"upper bound equals the robustness on complete data"); }
  if(w.find("side")!=string::npos){ checkRho(S,S.t0,lo,"lower bound equals the STL semantics on complete data"); checkRho(S,S.t0,up,"upper bound equals the STL semantics on complete data"); } }
// bounds given on every prefix of the trace enclose the robustness of the whole trace, and only tighten
HARNESS(online){ Cfg c(A); Setup S; setup(c,S); complete(S); string w=c.s("what","sound,mono"); STLMonitor m; bool mon=c.s("via","driver")=="monitor"; if(mon) m=S.d.get_monitor("phi"); vector<double> lo,up; double r=0; int k0=c.i("from",1);
  for(int i=0;i<S.t.n;i++){ if(mon) m.add_sample(row(S.t,i)); else S.d.add_sample(row(S.t,i)); if(i+1<k0) continue; if(mon){ r=m.eval_rob(S.t0); lo.push_back(m.get_lower_rob()); up.push_back(m.get_upper_rob()); } else { vector<double> q=S.d.get_online_rob("phi",S.t0); r=q[0]; lo.push_back(q[1]); up.push_back(q[2]); } }
  sym_observe("rob",r); for(size_t i=0;i<lo.size();i++){ sym_observe("lo",lo[i]); sym_observe("up",up[i]); } sym_reach("end");
  if(w.find("sound")!=string::npos){ Prev o(S.t,S.E); bool orc=S.prev; for(size_t i=0;i<lo.size();i++){ ensure(orc?o.cmp(S.f,S.t0,lo[i],true):le(lo[i],r),"lower bound is below the final robustness"); ensure(orc?o.cmp(S.f,S.t0,up[i],false):le(r,up[i]),"upper bound is above the final robustness"); } }
  if(w.find("mono")!=string::npos) for(size_t i=0;i+1<lo.size();i++){ ensure(le(lo[i],lo[i+1]),"a new sample does not lower the lower bound"); ensure(ge(up[i],up[i+1]),"a new sample does not raise the upper bound"); }
  if(w.find("order")!=string::npos) for(size_t i=0;i<lo.size();i++){ ensure(le(lo[i],up[i]),"lower bound is below the upper bound"); ensure(le(-Signal::BigM,lo[i])&le(up[i],Signal::BigM),"bounds stay within +-BigM"); } }
// no information: nothing known before the first sample of the window
HARNESS(noinfo){ Cfg c(A); Setup S; setup(c,S); feed(S.d,S.t,0,S.t.n); double s=S.t0; FP g=S.f; while(temporal(g)&&g->op!="until"){ s=s+g->a; g=g->l; } assume(tlt(S.t.T[S.t.n-1],s)); double M=Signal::BigM; if(c.s("bigm")!=""){ M=c.s("bigm")=="sym"?sym_real("M",200,20000):atof(c.s("bigm").c_str()); Signal::set_BigM(M); } vector<double> q=S.d.get_online_rob("phi",S.t0); sym_observe("lo",q[1]); sym_observe("up",q[2]); sym_reach("end");
  ensure(eq(q[1],-M),"without data in the window the lower bound is -BigM"); ensure(eq(q[2],M),"without data in the window the upper bound is +BigM"); }
// the robustness signal of a monitor evaluated over [t0,t1]
HARNESS(getsig){ Cfg c(A); Setup S; setup(c,S); double t1=timeArg(c,"t1","sym"); assume(tle(S.t0,t1)); S.hs.clear(); horizons(S.f,t1,S.hs); complete(S); feed(S.d,S.t,0,S.t.n); STLMonitor m=S.d.get_monitor("phi"); double r;
  if(c.s("via")=="set"){ m.set_eval_time(S.t0,t1); r=m.eval_rob(); } else r=m.eval_rob(S.t0,t1); Signal z=m.get_signal(); sym_observe("rob",r); ensure(!z.empty(),"the robustness signal is not empty"); if(z.empty()) return; sym_observe("b",z.beginTime); sym_observe("e",z.endTime);
  ensure(tle(z.beginTime,S.t0)&tle(t1,z.endTime),"the robustness signal covers the evaluation window"); double tau=sym_real("tau",0,8); assume(tle(S.t0,tau)&tle(tau,t1)); for(size_t i=0;i+1<z.size();i++) ensure(tle(z[i].time,z[i+1].time),"the robustness signal is ordered in time");
  double v=sigAt(z,tau); sym_observe("v",v); sym_reach("end"); checkRho(S,tau,v,"the robustness signal equals the STL semantics at every instant of the window"); checkRho(S,S.t0,r,"the returned robustness is the one at the start of the window"); }
// LINEAR interpolation, modularly: the robustness of a formula is its top operator (reference semantics) applied to the robustness
// signals that the library itself gives for the operands (those are checked at every instant by getsig)
static Pwl sigPwl(const Signal&z){ Pwl p; for(const Sample&s:z) addv(p,s.time,s.value); if(p.t.empty()) abort(); if(p.t.back()<z.endTime) addv(p,z.endTime,z.back().valueAt(z.endTime)); return p; }
HARNESS(compose){ Cfg c(A); Setup S; setup(c,S); complete(S); feed(S.d,S.t,0,S.t.n); const FP&f=S.f; double t0=S.t0; auto part=[&](const FP&g,double s,double e)->Pwl{ STLDriver d; d.set_interpol("LINEAR"); ensure(d.parse_string(decl(S.E.sigs,S.E)+"part := "+text(g,S.E)+"\n"),"operand accepted"); feed(d,S.t,0,S.t.n); STLMonitor m=d.get_monitor("part"); m.eval_rob(s,e); Signal z=m.get_signal(); ensure(!z.empty(),"the robustness signal of an operand is not empty"); Pwl p=sigPwl(z); ensure(tle(p.t[0],s)&tle(e,p.t.back()),"the robustness signal of an operand covers its window"); return p; };
  double v; if(f->op=="not") v=-pwlAt(part(f->l,t0,t0),t0);
  else if(f->op=="ev"||f->op=="alw"){ double s=t0+f->a,e=t0+f->b,k=f->op=="ev"?1:-1; Pwl p=pwlCut(part(f->l,s,e),s,e); v=k*p.v[0]; for(double q:p.v) if(k*q>v) v=k*q; v=k*v; }
  else if(f->op=="until"){ double s=t0+f->a,e=t0+f->b; Pwl m=pwlRunMin(pwlCut(part(f->l,t0,e),t0,e)),g=pwlMin(pwlCut(part(f->r,s,e),s,e),pwlCut(m,s,e)); v=g.v[0]; for(double q:g.v) if(q>v) v=q; }
  else { double p=pwlAt(part(f->l,t0,t0),t0),q=pwlAt(part(f->r,t0,t0),t0); if(f->op=="=>") p=-p; v= f->op=="and"? (p<q?p:q) : (p>q?p:q); }
  vector<double> q=S.d.get_online_rob("phi",t0); ensure(q.size()==3,"three values"); if(q.size()!=3) return; for(double x:q){ sym_observe("q",x); ensure(eq(x,v),"robustness and bounds compose from the robustness of the operands"); } sym_reach("end"); }
