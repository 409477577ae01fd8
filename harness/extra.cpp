// Trace files, stl_tests, time semantics through the API, and relations between robustness values.
#include "util.h"
#include <unistd.h>
#include <fstream>
#include <sstream>
static string scratch(const char*n){ return "scratch_"+std::to_string(getpid())+"_"+n; }
static void sameTrace(const trace_data&a,const trace_data&b,const char*msg){ ensure(a.size()==b.size(),"the trace has as many samples as before"); if(a.size()!=b.size()) return; for(size_t i=0;i<a.size();i++){ ensure(a[i].size()==b[i].size(),"every sample has as many values as before"); if(a[i].size()!=b[i].size()) return; for(size_t j=0;j<a[i].size();j++) ensure(teq(a[i][j],b[i][j]),msg); } }
// a trace written to a file and read back is the same trace, and gives the same robustness; the file may lack its last newline
HARNESS(trace){ Cfg c(A); Setup S; setup(c,S); for(int i=0;i<S.t.n;i++) S.d.add_sample(row(S.t,i)); string f=scratch("trace"); unlink(f.c_str()); STLDriver e; declare(S,e); string how=c.s("how","dump");
  if(c.s("over")=="1"){ std::ofstream o(f.c_str()); for(int i=0;i<9;i++){ o<<100+i; for(size_t j=0;j<S.E.sigs.size();j++) o<<" "<<i; o<<"\n"; } } else if(c.s("over")=="2"){ STLDriver w(S.d); w.dump_trace_file(f); }
  if(how=="dump") S.d.dump_trace_file(f); else if(how=="print"){ std::ofstream o(f.c_str()); o.precision(17); S.d.print_trace(o); } else { std::ofstream o(f.c_str()); o.precision(17); for(int i=0;i<S.t.n;i++){ vector<double> r=row(S.t,i); for(size_t j=0;j<r.size();j++) o<<(j?"\t":how=="indent"?"  ":"")<<tok(r[j]); if(i+1<S.t.n||how!="nolf") o<<"\n"; if(how=="blank") o<<"\n"; } }
  if(c.s("old")=="1"){ vector<double> r=row(S.t,0); e.add_sample(r); } else if(c.s("old")=="2"){ /* earlier or later data than the file, left from before */ for(int i=0;i<2;i++){ vector<double> r=row(S.t,0); r[0]=(i?e.data[0][0]+1:sym_real("told",-9,9)); r[1]=r[1]+i+1; e.data.push_back(r); } if(c.s("seen")=="1") e.get_online_rob("phi",S.t0); }
  bool ok=e.read_trace_file(f); unlink(f.c_str()); ensure(ok,"the trace file is read"); sameTrace(S.d.data,e.data,"every value reads back as written"); if(e.data.size()!=S.d.data.size()||e.data.back().size()!=S.d.data.back().size()) return; vector<double> a=S.d.get_online_rob("phi",S.t0),b=e.get_online_rob("phi",S.t0); for(int k=0;k<3;k++){ sym_observe("q",b[k]); ensure(eq(a[k],b[k]),"robustness on the trace read back is the same"); } trace_data d0=e.data; ensure(!e.read_trace_file(scratch("nosuchfile")),"a missing trace file is reported"); (void)d0; sym_reach("end"); }
// stl_tests: each test's formula is evaluated on the trace at time 0; the report, the counts and the error flag follow the signs
//   two tests; the first with a local parameter, the second using the global one; an optional second trace_test
HARNESS(tests){ Cfg c(A); vector<string> sigs={"x"}; Env E; E.sigs=sigs; string mode=c.s("mode","P"); Trace T=makeTrace(c,sigs); double p=sym_real("p",-50,50),q=sym_real("q",-50,50); bool er1=true,er2=false; if(c.s("errs")=="1"){ er1=sym_choose("err1",2); er2=sym_choose("err2",2); } STLDriver d; d.set_interpol(mode=="P"?"PREVIOUS":"LINEAR");
  string loc=c.s("local","1")=="1"?" (p="+tok(q)+")":""; string txt="signal x\nparam p="+tok(p)+"\nphi := ev_[0,1] (x[t] > p)\ntest T1: \"env1\", 10, true {\n t1"+loc+" { ev_[0,1] (x[t] > p), \"pos1\", \"neg1\", "+(er1?"true":"false")+" }\n t2 { alw_[0,1] (x[t] < p), \"pos2\", \"neg2\", "+(er2?"true":"false")+" }\n}\n"; bool two=c.s("two")!="", named=c.s("two")=="2"; if(two) txt+="test T2: \"env2\", 10, true {\n t1"+(named?"":" (p="+tok(q)+")")+"\n t2\n}\n";
  bool ok=d.parse_string(txt); ensure(ok,"the specification with tests is accepted"); if(!ok) return; STLDriver *u=&d; std::unique_ptr<STLDriver> k; string how=c.s("how","run");
  if(how=="copy"){ k.reset(new STLDriver(d)); u=k.get(); d.clear(); } else if(how=="assign"){ k.reset(new STLDriver); k->parse_string(txt); *k=d; u=k.get(); d.clear(); } else if(how=="move"){ k.reset(new STLDriver(std::move(d))); u=k.get(); } else if(how=="clear"){ d.clear(); ensure(d.formula_map.empty()&&d.param_map.empty()&&d.stl_test_map.empty()&&d.trace_test_queue_empty()&&d.nb_test_total==0,"clear forgets formulas, parameters and tests"); bool r=d.parse_string(txt); ensure(r,"a cleared driver can be used again"); if(!r) return; }
  ensure(u->nb_test_total==(two?4:2),"all tests are counted"); ensure(u->get_next_trace_test_env().find("env1")!=string::npos,"the first trace test comes first");
  if(c.s("warm")=="1"){ STLDriver w; w.set_interpol(mode=="P"?"LINEAR":"PREVIOUS"); w.parse_string("signal x\npsi := x[t]>0\n"); w.add_sample(row(T,0)); w.get_online_rob("psi",0); }
  for(int i=0;i<T.n;i++) u->add_sample(row(T,i));
  auto rob=[&](const char*f,double par){ STLDriver r; r.set_interpol(mode=="P"?"PREVIOUS":"LINEAR"); r.parse_string("signal x\nparam p="+tok(par)+"\nphi := "+f+"\n"); for(int i=0;i<T.n;i++) r.add_sample(row(T,i)); return r.get_online_rob("phi",0)[0]; };
  double r1=rob("ev_[0,1] (x[t] > p)",c.s("local","1")=="1"?q:p),r2=rob("alw_[0,1] (x[t] < p)",p),r3=two?rob("ev_[0,1] (x[t] > p)",named?p:q):0; int pos=0; bool err=u->run_tests(); bool p1=r1>0,p2=r2>0; pos=p1+p2; sym_observe("pos",u->nb_test_pos); ensure(u->nb_test_pos==pos,"the number of positive tests is the number of tests with positive robustness"); ensure(err==((p1&&er1)||(p2&&er2)),"the error flag is raised exactly by positive tests marked as errors"); ensure((u->report.find("pos1")!=string::npos)==p1&&(u->report.find("neg1")!=string::npos)==!p1,"the report of the first test matches its robustness"); ensure((u->report.find("pos2")!=string::npos)==p2&&(u->report.find("neg2")!=string::npos)==!p2,"the report of the second test matches its robustness"); ensure(u->report.find("t1:")<u->report.find("t2:"),"tests are reported in order");
  if(two){ ensure(!u->trace_test_queue_empty(),"one trace test at a time is consumed"); ensure(u->get_next_trace_test_env().find("env2")!=string::npos,"the second trace test is next"); bool e2=u->run_tests(); bool p3=r3>0; ensure(u->nb_test_pos==pos+p3+p2,"tests referred to by name are evaluated like the original"); ensure(e2==((p3&&er1)||(p2&&er2)),"the error flag only reflects the tests just run"); }
  ensure(u->trace_test_queue_empty(),"the tests are consumed"); if(c.s("over")=="1"){ bool e3=u->run_tests(); ensure(!e3,"running without tests reports no error"); ensure(u->trace_test_queue_empty(),"running without tests changes nothing"); }
  vector<double> g=u->get_online_rob("phi",0); ensure(g.size()==3,"the named formula is still there"); if(g.size()==3) ensure(eq(g[0],rob("ev_[0,1] (x[t] > p)",p)),"tests do not influence the named formulas"); sym_reach("end"); }
// time semantics through the API: the sign of time robustness agrees with the (boolean) satisfaction of the formula
HARNESS(timesem){ Cfg c(A); Setup S; setup(c,S); complete(S); string sem=c.s("sem"); for(int i=0;i<S.t.n;i++) S.d.add_sample(row(S.t,i)); double r,rs; if(c.s("via")=="monitor"){ STLMonitor m=S.d.get_monitor("phi"); m.set_semantics(sem); r=m.eval_rob(S.t0); m.set_semantics("SPACE"); rs=m.eval_rob(S.t0); } else { S.d.set_semantics(sem); r=S.d.get_online_rob("phi",S.t0)[0]; S.d.set_semantics("SPACE"); rs=S.d.get_online_rob("phi",S.t0)[0]; } sym_observe("time",r); sym_observe("space",rs); sym_reach("end"); ensure(implies(gt(r,1e-6),ge(rs,0)),"positive time robustness implies satisfaction"); ensure(implies(lt(r,-1e-6),le(rs,0)),"negative time robustness implies violation"); checkRho(S,S.t0,rs,"switching back to space robustness gives the space robustness");
  if(c.s("nonzero","1")=="1"){ ensure(implies(gt(rs,0),ge(r,-1e-6)),"a satisfied formula has no negative time robustness"); ensure(implies(lt(rs,0),le(r,1e-6)),"a violated formula has no positive time robustness"); } }
// relations between robustness values of different traces / formulas
static vector<double> evalOn(Setup&S,const Trace&t,const string&ftext,double t0,bool all){ STLDriver d; d.set_interpol(S.prev?"PREVIOUS":"LINEAR"); bool ok=d.parse_string(decl(S.E.sigs,S.E)+"phi := "+ftext+"\n"); ensure(ok,"accepted"); for(int i=0;i<t.n;i++) d.add_sample(row(t,i)); vector<double> q=d.get_online_rob("phi",t0); if(!all) q.resize(1); return q; }
HARNESS(meta){ Cfg c(A); Setup S; setup(c,S); string rel=c.s("rel"); bool part=c.s("partial")=="1"; if(!part) complete(S); vector<double> a=evalOn(S,S.t,S.ftext,S.t0,true); sym_observe("r",a[0]);
  if(rel=="radius"){ // |x-x'|<=delta pointwise  =>  |rho-rho'|<=delta   (1-Lipschitz atoms)
    double dl=sym_real("delta",0,20); Trace u=S.t; for(int s=0;s<u.ns;s++) for(int i=0;i<u.n;i++){ double e=sym_real(nm("e"+S.E.sigs[s]+"_",i).c_str(),-20,20); assume(le(e,dl)&le(-dl,e)); u.X[s][i]=u.X[s][i]+e; } vector<double> b=evalOn(S,u,S.ftext,S.t0,true); sym_reach("end"); double k=c.i("lip",1); for(int j=0;j<(part?3:1);j++){ sym_observe("r2",b[j]); ensure(le(a[j]-b[j],k*dl)&le(b[j]-a[j],k*dl),"perturbing the trace by delta changes robustness and its bounds by at most delta"); } }
  else if(rel=="mono"){ // raising the signals of a formula without negation never lowers robustness
    Trace u=S.t; for(int s=0;s<u.ns;s++) for(int i=0;i<u.n;i++) u.X[s][i]=u.X[s][i]+sym_real(nm("e"+S.E.sigs[s]+"_",i).c_str(),0,20); vector<double> b=evalOn(S,u,S.ftext,S.t0,true); sym_reach("end"); for(int j=0;j<(part?3:1);j++){ sym_observe("r2",b[j]); ensure(le(a[j],b[j]),"raising the signals never lowers the robustness of a positive formula"); } }
  else if(rel=="dual"){ vector<double> b=evalOn(S,S.t,subst(c.s("g"),S.E),S.t0,true); sym_reach("end"); for(int j=0;j<(part?3:1);j++){ sym_observe("r2",b[j]); ensure(eq(a[j],b[j]),"equivalent formulas have equal robustness"); } }
  else if(rel=="split"){ // an extra sample that lies on the signal changes nothing
    Trace u; u.ns=S.t.ns; int at=c.i("at",0); double tm=sym_real("tm",0,c.i("tmax",8)); assume(tlt(S.t.T[at],tm)); if(at+1<S.t.n) assume(tlt(tm,S.t.T[at+1])); for(int s=0;s<u.ns;s++) u.X.push_back({}); for(int i=0;i<S.t.n;i++){ u.T.push_back(S.t.T[i]); for(int s=0;s<u.ns;s++) u.X[s].push_back(S.t.X[s][i]); if(i==at){ u.T.push_back(tm); for(int s=0;s<u.ns;s++){ double v=S.t.X[s][i]; if(!S.prev) v=v+(S.t.X[s][i+1]-v)/(S.t.T[i+1]-S.t.T[i])*(tm-S.t.T[i]); u.X[s].push_back(v); } } } u.n=u.T.size(); vector<double> b=evalOn(S,u,S.ftext,S.t0,true); sym_reach("end"); sym_observe("r2",b[0]); ensure(eq(a[0],b[0]),"a redundant sample does not change the robustness"); }
  else if(rel=="shift"){ // the same behaviour later: prefix the trace by one more sample and evaluate later
    double sh=c.s("by")=="sym"?sym_real("by",0.25,4):atof(c.s("by","1").c_str()); Trace u; u.ns=S.t.ns; u.T.push_back(0); for(int s=0;s<u.ns;s++){ u.X.push_back({}); u.X[s].push_back(sym_real(("w"+S.E.sigs[s]).c_str(),-50,50)); } for(int i=0;i<S.t.n;i++){ u.T.push_back(S.t.T[i]+sh); for(int s=0;s<u.ns;s++) u.X[s].push_back(S.t.X[s][i]); } u.n=u.T.size(); vector<double> b=evalOn(S,u,S.ftext,S.t0+sh,true); sym_reach("end"); for(int j=0;j<(part?3:1);j++){ sym_observe("r2",b[j]); ensure(eq(a[j],b[j]),"robustness only depends on the trace from the evaluation time on"); } }
  else abort(); }
// a repaired rounding defect stays repaired: fully concrete data (the real-arithmetic encoding has no rounding), expected value within 1e-9
HARNESS(regress){ Cfg c(A); Setup S; S.E.sigs=split(c.s("sigs","x"),','); { SParse sp(c.s("f"),S.E); S.f=sp.parse(); } S.ftext=text(S.f,S.E); S.prev=c.s("mode","L")=="P"; declare(S,S.d); vector<string> T=split(c.s("times"),','),X=split(c.s("vals"),','); for(size_t i=0;i<T.size();i++){ vector<double> r; r.push_back(atof(T[i].c_str())); for(size_t j=0;j<S.E.sigs.size();j++) r.push_back(atof(X[i*S.E.sigs.size()+j].c_str())); S.d.add_sample(r); } double e=atof(c.s("expect").c_str()),t0=atof(c.s("t0","0").c_str()); vector<double> q=S.d.get_online_rob("phi",t0); ensure(q.size()==3,"three values"); for(double v:q){ sym_observe("v",v); ensure(le(v-e,1e-9)&le(e-v,1e-9),"a repaired rounding defect stays repaired"); } sym_reach("end"); }
