// Edge situations: evaluation at any time on any amount of data, objects without data / formula / signals, time-robust
// atoms, and the role of BigM.
#include "util.h"
// evaluation never crashes and always yields three ordered numbers, whatever the data, the evaluation time and the window
HARNESS(anytime){ Cfg c(A); Setup S; setup(c,S); string sem=c.s("sem","SPACE"); double a=sym_real("from",0,9),b=sym_real("len",0,4); STLMonitor m=S.d.get_monitor("phi"); m.set_semantics(sem); S.d.set_semantics(sem); int first=c.i("first",1);
  for(int i=0;i<S.t.n;i++){ S.d.add_sample(row(S.t,i)); m.add_sample(row(S.t,i)); if(i+1<first) continue; vector<double> q=S.d.get_online_rob("phi",a); ensure(q.size()==3,"three values"); double r=m.eval_rob(a,a+b); Signal z=m.get_signal(); ensure(!z.empty(),"the robustness signal is not empty"); double lo=m.get_lower_rob(),up=m.get_upper_rob(); if(i+1==S.t.n){ sym_observe("rob",q.size()?q[0]:0); sym_observe("r",r); sym_observe("lo",lo); sym_observe("up",up); } if(q.size()==3&&sem=="SPACE") ensure(le(q[1],q[2]),"the lower bound is below the upper bound"); }
  sym_reach("end"); }
// nothing to evaluate: every entry point answers without crashing
HARNESS(empty){ Cfg c(A); double v=sym_real("x",-9,9),t=sym_real("t",0,9); STLDriver d; ensure(d.get_signals_names()=="","a driver without signals has no signal names"); ensure(d.get_online_rob("phi",t).empty(),"no data, no robustness"); ensure(d.get_param("p")==0,"an unknown parameter reads as 0"); d.set_param("p",v);
  STLMonitor none=d.get_monitor("nosuch"); double r=none.eval_rob(t); ensure(eq(r,0.0),"a monitor of an unknown formula evaluates to 0"); ensure(none.get_signal_names()=="","no names"); ensure(none.get_signal().empty(),"no signal"); none.display_formula(); STLMonitor none2(none),none3; none3=none2; none3=std::move(none2); none3.eval_rob(t,t+1);
  ensure(d.parse_string("signal x, y\nparam p=1\nphi := ev_[0,1] (x[t] > p and y[t] < 2)\n"),"accepted"); ensure(d.get_signals_names()=="x y","signal names in declaration order"); ensure(d.get_online_rob("phi",t).empty(),"no data, no robustness"); ensure(d.get_online_rob("nosuch",t).empty(),"no formula, no robustness");
  STLMonitor m=d.get_monitor("phi"); ensure(m.get_signal_names()=="x y","signal names of the monitor"); bool th=false; try{ m.eval_rob(t); } catch(std::exception&){ th=true; } m.reset_signal_data(); m.set_param("p",v); m.display_formula(); std::ostringstream os; os<<m; ensure(os.str().find("x, y")!=string::npos,"the monitor prints its signals"); d.print(os); d.print_trace(os); ensure(os.str().find("phi")!=string::npos,"the driver prints its formulas");
  STLDriver e(d); STLDriver f; f=d; f=std::move(e); ensure(f.get_signals_names()=="x y","names are copied"); f.clear(); f.clear(); ensure(f.get_online_rob("phi",t).empty(),"a cleared driver has no formulas"); ensure(!f.run_tests(),"no tests, no error"); f.add_stl_test("nosuch"); f.pop_next_trace_test(); ensure(f.get_next_trace_test()==nullptr,"no next test");
  { // signals without samples
    double a=sym_real("a",0,4),b=sym_real("b",0,4); assume(tle(a,b)); Signal none0,one; one.appendSample(0,v); one.appendSample(1,v+1); for(int k=0;k<3;k++){ const Signal&x=k==1?one:none0,&y=k==2?one:none0; for(int p=0;p<2;p++){ Signal::interpol=p?Interpol::PREVIOUS:Interpol::LINEAR; Signal z; z.compute_until(x,y); ensure(z.empty(),"until of an empty signal is empty"); z.compute_timed_until(x,y,a,b); ensure(z.empty(),"timed until of an empty signal is empty"); if(k!=1){ z.compute_not(x); ensure(z.empty(),"negation of an empty signal is empty"); z.compute_timed_eventually(x,a,b); z.compute_timed_globally(x,a,b); z=x; z.shift(a); Signal w; w.appendSignal(x); } } } }
  d=d; m=m; d.add_sample({0,v,v}); m.add_sample({0,v,v}); vector<double> q=d.get_online_rob("phi",0); sym_observe("rob",q[0]); sym_reach("end"); }
// an atom under LEFT_TIME / RIGHT_TIME: signed time since / until the truth value changes inside the evaluation window
HARNESS(timeatom){ Cfg c(A); string sem=c.s("sem"); Setup S; S.E.sigs=split("x",','); S.E.lo=-50; S.E.hi=50; S.E.thi=4; { SParse sp(c.s("f","(> x $c)"),S.E); S.f=sp.parse(); } S.t=makeTrace(c,S.E.sigs); S.prev=c.s("mode","P")=="P"; S.ftext=text(S.f,S.E); declare(S,S.d); double a=sym_real("from",0,8),b=sym_real("to",0,8); const vector<double>&T=S.t.T; int n=S.t.n; assume(tle(a,b)&tle(b,T[n-1])); vector<double> w; for(int i=0;i<n;i++){ double x=esum(S.f->el.get(),S.t,i),y=esum(S.f->er.get(),S.t,i); w.push_back(S.f->op==">"?x-y:y-x); if(c.s("zero")!="1") assume(lt(w[i],0)|gt(w[i],0)); }
  for(int i=0;i<n;i++) S.d.add_sample(row(S.t,i)); STLMonitor m=S.d.get_monitor("phi"); m.set_semantics(sem); m.eval_rob(a,b); Signal z=m.get_signal(); ensure(!z.empty(),"the time robustness signal is not empty"); if(z.empty()) return; double tau=sym_real("tau",0,8); assume(tle(a,tau)&tlt(tau,b)); double r=sigAt(z,tau); sym_observe("v",r); sym_reach("end");
  // maximal interval around tau, inside [a,b], on which the truth value is constant
  auto pos=[&](double x){ return x>0; }; vector<double> ct; vector<bool> cv; auto put=[&](double t,bool p){ if(cv.empty()||cv.back()!=p){ ct.push_back(t); cv.push_back(p); } };
  for(int i=0;i<n;i++){ put(T[i],pos(w[i])); if(!S.prev&&i+1<n&&pos(w[i])!=pos(w[i+1])) put(T[i]+w[i]*(T[i+1]-T[i])/(w[i]-w[i+1]),pos(w[i+1])); }
  size_t k=0; for(size_t i=1;i<ct.size();i++) if(ct[i]<=tau) k=i; bool p=cv[k]; double lo=ct[k]<a?a:ct[k]; double hi=b; if(k+1<ct.size()&&ct[k+1]<b) hi=ct[k+1]; double d=sem=="LEFT_TIME"?tau-lo:hi-tau; ensure(eq(r,p?d:-d),"time robustness of a predicate is the signed time since/until its truth value changes"); }
// BigM only stands for the unknown: with another BigM (beyond all values) known values stay, unknown ones become +-M
HARNESS(bigm){ Cfg c(A); c.kv.insert({"range","50"}); Setup S; setup(c,S); for(int i=0;i<S.t.n;i++) S.d.add_sample(row(S.t,i)); vector<double> q=S.d.get_online_rob("phi",S.t0); double M=sym_real("M",300,20000); double old=Signal::BigM; Signal::set_BigM(M); vector<double> p=S.d.get_online_rob("phi",S.t0); if(q.size()!=3||p.size()!=3){ ensure(false,"three values"); return; } for(int j=1;j<3;j++){ double e=q[j]; if(e<-300) e=-M; else if(e>300) e=M; sym_observe("b",p[j]); ensure(eq(p[j],e),"BigM only stands for the unknown"); } sym_reach("end"); Signal::set_BigM(old); vector<double> s=S.d.get_online_rob("phi",S.t0); for(int j=0;j<3;j++) ensure(eq(s[j],q[j]),"restoring BigM restores the bounds"); }
