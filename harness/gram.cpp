// Concrete STL text (every accepted spelling) against the reference semantics of the formula it denotes.
#include "util.h"
// text=<whole specification text defining phi; "\n" is a newline, $c a symbolic constant>  set=<parameters of the text that take the value of the symbolic constant of that name after parsing>  f=<reference>
HARNESS(gram){ Cfg c(A); Setup S; S.E.sigs=split(c.s("sigs","x"),','); S.E.thi=c.i("thi",4); S.E.lo=-50; S.E.hi=50; { SParse sp(c.s("f"),S.E); S.f=sp.parse(); } intervals(S.f); S.t=makeTrace(c,S.E.sigs); S.prev=c.s("mode","P")=="P"; S.t0=timeArg(c,"t0","0"); horizons(S.f,S.t0,S.hs); complete(S);
  S.d.set_interpol(S.prev?"PREVIOUS":"LINEAR"); bool ok=S.d.parse_string(subst(c.s("text"),S.E)); ensure(ok,"the specification is accepted by the parser"); if(!ok) return;
  string phi=c.s("phi","phi"); for(int i=0;i<S.t.n;i++) S.d.add_sample(row(S.t,i)); if(c.s("set")!=""){ if(c.s("first")=="1") S.d.get_online_rob(phi,S.t0); for(auto&w:split(c.s("set"),',')) S.d.set_param(w,S.E.sym.at(w)); } vector<double> q=S.d.get_online_rob(phi,S.t0); ensure(q.size()==3,"the formula is defined"); if(q.size()!=3) return; sym_observe("rob",q[0]); sym_reach("end");
  checkRho(S,S.t0,q[0],"the formula means what its text says"); }
// text that must be rejected: parse_string reports failure, defines nothing, and the driver stays usable
HARNESS(reject){ Cfg c(A); Setup S; S.E.sigs=split(c.s("sigs","x"),','); S.t=makeTrace(c,S.E.sigs); S.d.set_interpol("PREVIOUS"); ensure(S.d.parse_string("signal x\nok := x[t] > 1\n"),"the good formula is accepted"); bool ok=S.d.parse_string(subst(c.s("text"),S.E)); ensure(!ok,"malformed text is rejected");
  for(int i=0;i<S.t.n;i++) S.d.add_sample(row(S.t,i)); vector<double> q=S.d.get_online_rob("ok",0); ensure(q.size()==3,"the earlier formula is still there"); if(q.size()!=3) return; sym_observe("rob",q[0]); sym_reach("end"); ensure(eq(q[0],S.t.X[0][0]-1),"the earlier formula is unaffected"); }
