// Histories: every sequence of API calls (bounded length) leaves each object with exactly the results of a fresh
// object built from its logical state (formula, samples, parameters, settings).
#include "util.h"
#include <memory>
#include <functional>
// range of a new parameter value: interval parameters are listed in tpar=
static double E_lo(const Cfg&c,const string&p){ return c.has("tpar",p.c_str())?0:-50; }
static double E_hi(const Cfg&c,const string&p){ return c.has("tpar",p.c_str())?4:50; }
struct State { vector<vector<double>> data; bool prev; string sem; map<string,double> par; double ws,we; State():prev(true),ws(0),we(0){} };
struct World { string spec; vector<string> sigs; Setup S; };
static double npHi(const Cfg&c,const string&p){ return c.has("tpar",p.c_str())?c.i("thi",4):4; }
static R3 fresh(const World&W,const State&s,bool mon,const string&phi,double t0){ STLDriver d; d.set_interpol(s.prev?"PREVIOUS":"LINEAR"); d.set_semantics(s.sem); string txt="signal "; for(size_t i=0;i<W.sigs.size();i++) txt+=(i?",":"")+W.sigs[i]; txt+="\n"; if(!s.par.empty()){ txt+="param "; bool f=true; for(auto&p:s.par){ txt+=(f?"":",")+p.first+"="+tok(p.second); f=false; } txt+="\n"; } ensure(d.parse_string(txt+W.spec),"specification accepted");
  for(auto&r:s.data) d.add_sample(r); R3 o; if(mon){ STLMonitor m=d.get_monitor(phi); o.r=m.eval_rob(t0); o.lo=m.get_lower_rob(); o.up=m.get_upper_rob(); } else { vector<double> q=d.get_online_rob(phi,t0); o.r=q[0]; o.lo=q[1]; o.up=q[2]; } return o; }
// a fresh monitor evaluated over [ws,we] (the window its object was last given): results and signal
static STLMonitor freshM(const World&W,const State&s,const string&phi){ STLDriver d; d.set_interpol(s.prev?"PREVIOUS":"LINEAR"); d.set_semantics(s.sem); string txt="signal "; for(size_t i=0;i<W.sigs.size();i++) txt+=(i?",":"")+W.sigs[i]; txt+="\n"; if(!s.par.empty()){ txt+="param "; bool f=true; for(auto&p:s.par){ txt+=(f?"":",")+p.first+"="+tok(p.second); f=false; } txt+="\n"; } ensure(d.parse_string(txt+W.spec),"specification accepted"); for(auto&r:s.data) d.add_sample(r); return d.get_monitor(phi); }
static void same(const R3&a,const R3&b,const char*m1,const char*m2,const char*m3){ ensure(eq(a.r,b.r),m1); ensure(eq(a.lo,b.lo),m2); ensure(eq(a.up,b.up),m3); }
struct Obj { std::unique_ptr<STLDriver> d; std::unique_ptr<STLMonitor> m; State s; string phi; bool mon() const { return !!m; }
  void add(const vector<double>&r){ if(m) m->add_sample(r); else d->add_sample(r); s.data.push_back(r); }
  void interp(bool p){ s.prev=p; const char*n=p?"PREVIOUS":"LINEAR"; if(m) m->set_interpol(n); else d->set_interpol(n); }
  void sem(const string&n){ s.sem=n; if(m) m->set_semantics(n); else d->set_semantics(n); }
  void wipe(){ s.data.clear(); if(m) m->reset_signal_data(); else d->data.clear(); }
  void param(const string&k,double v){ s.par[k]=v; if(m) m->set_param(k,v); else d->set_param(k,v); }
  R3 eval(double t0){ R3 o; if(m){ o.r=m->eval_rob(t0); o.lo=m->get_lower_rob(); o.up=m->get_upper_rob(); } else { vector<double> q=d->get_online_rob(phi,t0); o.r=q[0]; o.lo=q[1]; o.up=q[2]; } return o; } };
typedef std::unique_ptr<Obj> OP;
// ops: letters  a add sample to object 0   b add sample to object 1   e eval 0   f eval 1   E eval 0 at t0'   i switch interpolation of 0  t switch semantics of 0  r forget the samples of 0
//               w set the evaluation window of 0  v evaluate 0 over its window  W evaluate 0 over another window  D dump 0's robustness files  P print 0  B change BigM  x define a further formula
//               p set parameter of 0   q set parameter of 1   c copy 0 into 1   m move 0 into 1   A copy-assign 0 to 1   M move-assign 0 to 1  g get_monitor of 0 into 1   d destroy 0 (if there is a 1)
HARNESS(session){ Cfg c(A); World W; W.sigs=split(c.s("sigs","x"),','); W.S.E.sigs=W.sigs; W.S.E.thi=c.i("thi",4); parseF(c,W.S); intervals(W.S.f); W.spec="phi := "+W.S.ftext+"\n"; string psi=c.s("psi"); if(!psi.empty()) W.spec+="psi := "+psi+"\n"; int n=c.i("n",3), L=c.i("len",4); string ops=c.s("ops","aeE"); double t1=timeArg(c,"t0p","0.5");
  Trace T=makeTrace(c,W.sigs); vector<OP> o(2); o[0].reset(new Obj); Obj&z=*o[0]; z.phi="phi"; z.s.prev=c.s("mode","P")=="P"; z.s.sem="SPACE"; z.s.par=W.S.E.par; z.d.reset(new STLDriver); z.d->set_interpol(z.s.prev?"PREVIOUS":"LINEAR"); ensure(z.d->parse_string(decl(W.sigs,W.S.E)+W.spec),"specification accepted"); if(c.s("via")=="monitor"){ z.m.reset(new STLMonitor(z.d->get_monitor("phi"))); if(c.s("keep")!="1") z.d.reset(); }
  int pre=c.i("pre",1); for(int i=0;i<pre;i++) z.add(row(T,i)); int np=0;
  for(int k=0;k<L;k++){ char op=ops[sym_choose("op",ops.size())]; OP&a=o[0],&b=o[1];
    switch(op){
      case 'a': if(!a||(int)a->s.data.size()>=n) return; a->add(row(T,a->s.data.size())); break;
      case 'b': if(!b||(int)b->s.data.size()>=n) return; { vector<double> r=row(T,b->s.data.size()); for(size_t i=1;i<r.size();i++) r[i]=r[i]+c.i("off",3); b->add(r); } break;
      case 'e': if(!a||a->s.data.empty()) return; { R3 x=a->eval(0); same(x,fresh(W,a->s,a->mon(),a->phi,0),"robustness depends only on the logical state","lower bound depends only on the logical state","upper bound depends only on the logical state"); } break;
      case 'E': if(!a||a->s.data.empty()) return; { R3 x=a->eval(t1); same(x,fresh(W,a->s,a->mon(),a->phi,t1),"robustness at another time depends only on the logical state","lower bound at another time depends only on the logical state","upper bound at another time depends only on the logical state"); } break;
      case 'f': if(!b||b->s.data.empty()) return; { R3 x=b->eval(0); same(x,fresh(W,b->s,b->mon(),b->phi,0),"robustness of the copy depends only on its own state","lower bound of the copy depends only on its own state","upper bound of the copy depends only on its own state"); } break;
      case 'w': if(!a||!a->mon()) return; { double x=sym_real(nm("ws",np).c_str(),0,2),y=sym_real(nm("we",np++).c_str(),0,3); assume(tle(x,y)); a->m->set_eval_time(x,y); a->s.ws=x; a->s.we=y; } break;
      case 'v': case 'W': if(!a||!a->mon()||a->s.data.empty()) return; { double x=a->s.ws,y=a->s.we; R3 r; if(op=='W'){ x=sym_real(nm("ws",np).c_str(),0,2); y=sym_real(nm("we",np++).c_str(),0,3); assume(tle(x,y)); r.r=a->m->eval_rob(x,y); } else r.r=a->m->eval_rob(); r.lo=a->m->get_lower_rob(); r.up=a->m->get_upper_rob(); ensure(eq(a->m->get_rob(),r.r),"the last robustness reads back"); STLMonitor fm=freshM(W,a->s,a->phi); R3 q; q.r=fm.eval_rob(x,y); q.lo=fm.get_lower_rob(); q.up=fm.get_upper_rob(); same(r,q,"robustness over the window depends only on the logical state","lower bound over the window depends only on the logical state","upper bound over the window depends only on the logical state");
          if(c.s("signal")=="1"){ Signal u=a->m->get_signal(),v=fm.get_signal(); ensure(u.empty()==v.empty(),"the robustness signal depends only on the logical state"); if(!u.empty()&&!v.empty()){ ensure(teq(u.beginTime,v.beginTime)&teq(u.endTime,v.endTime),"the domain of the robustness signal depends only on the logical state"); double tau=sym_real(nm("tau",np++).c_str(),0,9); assume(tle(u.beginTime,tau)&tle(tau,u.endTime)); ensure(eq(sigAt(u,tau),sigAt(v,tau)),"the robustness signal depends only on the logical state"); } } } break;
      case 'D': if(!a||a->mon()||a->s.data.empty()) return; a->d->dump(); break;
      case 'P': if(!a) return; { std::ostringstream os; if(a->m){ os<<*a->m; a->m->display_formula(); } else { a->d->print(os); a->d->print_trace(os); } } break;
      case 'B': Signal::set_BigM(Signal::BigM>5000?500:10000); break;
      case 'x': if(!a||a->mon()) return; ensure(a->d->parse_string(c.has("ops","s")?"extra"+std::to_string(np)+" := not psi\n":"extra"+std::to_string(np)+" := not phi\n"),"a further formula is accepted"); np++; break;
      case 's': if(!a||a->mon()||psi.empty()||a->s.data.empty()) return; { a->d->get_online_rob("psi",0); } break;
      case 't': if(!a) return; a->sem(a->s.sem=="SPACE"?"RIGHT_TIME":"SPACE"); break;
      case 'r': if(!a) return; a->wipe(); break;
      case 'i': if(!a) return; a->interp(!a->s.prev); break;
      case 'p': if(!a||a->s.par.empty()) return; { double v=sym_real(nm("np",np++).c_str(),0,npHi(c,a->s.par.begin()->first)); a->param(a->s.par.begin()->first,v); } break;
      case 'q': if(!b||b->s.par.empty()) return; { double v=sym_real(nm("np",np++).c_str(),0,npHi(c,b->s.par.begin()->first)); b->param(b->s.par.begin()->first,v); } break;
      case 'g': if(!a||a->mon()) return; { OP y(new Obj); y->phi=a->phi; y->s=a->s; y->m.reset(new STLMonitor(a->d->get_monitor("phi"))); b=std::move(y); } break;
      case 'c': case 'm': case 'A': case 'M': if(!a) return; { OP y; bool asg=op=='A'||op=='M',mv=op=='m'||op=='M'; if(asg){ if(!b||b->mon()!=a->mon()) return; y=std::move(b); } else y.reset(new Obj); y->phi=a->phi; y->s=a->s;
          if(a->m){ if(op=='c') y->m.reset(new STLMonitor(*a->m)); else if(op=='m') y->m.reset(new STLMonitor(std::move(*a->m))); else if(op=='A') *y->m=*a->m; else *y->m=std::move(*a->m); }
          else { if(op=='c') y->d.reset(new STLDriver(*a->d)); else if(op=='m') y->d.reset(new STLDriver(std::move(*a->d))); else if(op=='A') *y->d=*a->d; else *y->d=std::move(*a->d); }
          b=std::move(y); if(mv) a.reset(); } break;
      case 'd': if(!a||!b) return; a.reset(); break;
      default: abort(); } }
  for(int k=0;k<2;k++) if(o[k]&&!o[k]->s.data.empty()){ R3 x=o[k]->eval(0); sym_observe("rob",x.r); sym_observe("lo",x.lo); sym_observe("up",x.up); same(x,fresh(W,o[k]->s,o[k]->mon(),o[k]->phi,0),"in the end robustness depends only on the logical state","in the end the lower bound depends only on the logical state","in the end the upper bound depends only on the logical state"); }
  sym_reach("end"); }
// sample admission: accepted iff right size and strictly later; a rejected sample changes nothing
HARNESS(admit){ Cfg c(A); vector<string> sigs=split(c.s("sigs","x"),','); bool mon=c.s("via")=="monitor"; STLDriver d; d.set_interpol("PREVIOUS"); Env E; E.sigs=sigs; ensure(d.parse_string(decl(sigs,E)+"phi := ev_[0,2] ("+sigs[0]+"[t] > 1)\n"),"accepted"); STLMonitor m; if(mon) m=d.get_monitor("phi"); vector<vector<double>> ok; int n=c.i("n",4); int ns=sigs.size();
  for(int i=0;i<n;i++){ int k=sym_choose("size",ns+3); vector<double> r; if(k) r.push_back(sym_real(nm("t",i).c_str(),0,8)); for(int j=1;j<k;j++) r.push_back(sym_real((sigs[(j-1)%ns]+"_"+std::to_string(i)+"_"+std::to_string(j)).c_str(),-50,50)); bool thrown=false,right=false; try { if(mon) m.add_sample(r); else d.add_sample(r); } catch(std::invalid_argument&){ thrown=right=true; } catch(...){ thrown=true; }
    if(thrown) ensure(right,"a bad sample is reported as invalid_argument"); B good=b_const(k==ns+1); if(k==ns+1&&!ok.empty()) good=good&tlt(ok.back()[0],r[0]); ensure(thrown?!good:good,"a sample is accepted exactly when it has one time and one value per signal and is later than the last one"); if(!thrown) ok.push_back(r);
    const trace_data&td=mon?m.data:d.data; ensure(td.size()==ok.size(),"only accepted samples are stored"); if(td.size()!=ok.size()) return; for(size_t a=0;a<ok.size();a++) for(size_t b=0;b<ok[a].size();b++) ensure(teq(td[a][b],ok[a][b]),"stored samples are the accepted ones"); if(mon) ensure(d.data.empty(),"the driver is not affected by its monitor"); }
  if(ok.empty()) return; STLDriver f; f.set_interpol("PREVIOUS"); f.parse_string(decl(sigs,E)+"phi := ev_[0,2] ("+sigs[0]+"[t] > 1)\n"); for(auto&r:ok) f.add_sample(r); double a=mon?m.eval_rob(0):d.get_online_rob("phi",0)[0]; STLMonitor fm=f.get_monitor("phi"); double b=mon?fm.eval_rob(0):f.get_online_rob("phi",0)[0]; sym_observe("rob",a); ensure(eq(a,b),"rejected samples do not influence the robustness"); sym_reach("end"); }
// parameters: a formula with parameters means the formula with their current values written in
HARNESS(params){ Cfg c(A); Setup S; setup(c,S); string via=c.s("via","driver"),set=c.s("set","none"); for(int i=0;i<S.t.n;i++) S.d.add_sample(row(S.t,i)); STLMonitor m; bool mon=via=="monitor"; if(c.s("first")=="2") S.d.get_online_rob("phi",S.t0); if(mon) m=S.d.get_monitor("phi"); if(c.s("copy")=="1"){ STLMonitor k(m); m=STLMonitor(); m=k; } if(c.s("first")=="1"){ if(mon) m.eval_rob(S.t0); else S.d.get_online_rob("phi",S.t0); }
  if(set!="none") for(auto&p:S.E.par){ double v=sym_real(("new_"+p.first).c_str(),E_lo(c,p.first),E_hi(c,p.first)); if(set=="driver"||set=="both") S.d.set_param(p.first,v); if(set=="monitor"||set=="both") m.set_param(p.first,v); bool mine = mon? set!="driver" : set!="monitor"; if(mine) S.E.par[p.first]=v; }
  std::function<void(const FP&)> fix=[&](const FP&f){ if(f->as!=""&&S.E.par.count(f->as)) f->a=S.E.par[f->as]; if(f->bs!=""&&S.E.par.count(f->bs)) f->b=S.E.par[f->bs]; std::function<void(const EP&)> fe=[&](const EP&e){ if(!e) return; if(e->op=='c'&&S.E.par.count(e->cs)) e->c=S.E.par[e->cs]; fe(e->l); fe(e->r); }; fe(f->el); fe(f->er); if(f->l) fix(f->l); if(f->r) fix(f->r); }; fix(S.f); intervals(S.f); S.hs.clear(); horizons(S.f,S.t0,S.hs); complete(S);
  for(auto&p:S.E.par) ensure(teq(mon?m.get_param(p.first):S.d.get_param(p.first),p.second),"the parameter reads back as set");
  double r,lo,up; if(mon){ r=m.eval_rob(S.t0); lo=m.get_lower_rob(); up=m.get_upper_rob(); } else { vector<double> q=S.d.get_online_rob("phi",S.t0); r=q[0]; lo=q[1]; up=q[2]; } sym_observe("rob",r); sym_observe("lo",lo); sym_observe("up",up); sym_reach("end");
  checkRho(S,S.t0,r,"robustness uses the current parameter values"); checkRho(S,S.t0,lo,"the lower bound uses the current parameter values"); checkRho(S,S.t0,up,"the upper bound uses the current parameter values");
  bool th=false; try{ STLMonitor k=S.d.get_monitor("phi"); k.set_param("nosuch",1); } catch(std::invalid_argument&){ th=true; } ensure(th,"setting an unknown parameter of a monitor is an error"); th=false; try{ STLMonitor k=S.d.get_monitor("phi"); k.get_param("nosuch"); } catch(std::invalid_argument&){ th=true; } ensure(th,"reading an unknown parameter of a monitor is an error"); S.d.set_param("nosuch",1); ensure(S.d.param_map.size()==S.E.par.size(),"setting an unknown parameter of a driver defines nothing"); }
