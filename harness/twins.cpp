// Copies, assignments, moves and monitors: an object A with arbitrary contents is transferred to B (a new object or one that
// already had other contents); B then is what A was, whatever happens to A afterwards.
#include "util.h"
#include <memory>
struct Full { bool prev; int sem; trace_data data; map<string,double> par; vector<string> sigs; };
static const char*SEM[]={"SPACE","LEFT_TIME","RIGHT_TIME"};
static string heading(const Full&s){ string t="signal "; for(size_t i=0;i<s.sigs.size();i++) t+=(i?",":"")+s.sigs[i]; t+="\n"; if(!s.par.empty()){ t+="param "; bool f=true; for(auto&p:s.par){ t+=(f?"":",")+p.first+"="+tok(p.second); f=false; } t+="\n"; } return t; }
static void apply(STLDriver&d,const Full&s){ d.set_interpol(s.prev?"PREVIOUS":"LINEAR"); d.set_semantics(SEM[s.sem]); }
static void three(STLDriver&d,const string&phi,double t0,R3&o){ vector<double> q=d.get_online_rob(phi,t0); ensure(q.size()==3,"the formula is there"); if(q.size()!=3){ o.r=o.lo=o.up=0; return; } o.r=q[0]; o.lo=q[1]; o.up=q[2]; }
static void threeM(STLMonitor&m,double t0,R3&o){ o.r=m.eval_rob(t0); o.lo=m.get_lower_rob(); o.up=m.get_upper_rob(); }
static R3 ref(const Full&s,const string&body,double t0){ STLDriver d; apply(d,s); ensure(d.parse_string(heading(s)+"phi := "+body+"\n"),"accepted"); for(auto&r:s.data) d.add_sample(r); R3 o; three(d,"phi",t0,o); return o; }
static void same(const R3&a,const R3&b,const char*m){ ensure(eq(a.r,b.r)&eq(a.lo,b.lo)&eq(a.up,b.up),m); }
static void sameState(const trace_data&d,const map<string,double>&p,const map<string,int>&sm,const string&sem,const string&in,const Full&s,bool params){ ensure(sem==SEM[s.sem],"it has the semantics of its origin"); ensure(in==(s.prev?"PREVIOUS":"LINEAR"),"it has the interpolation of its origin"); ensure(d.size()==s.data.size(),"it has the samples of its origin"); if(d.size()==s.data.size()) for(size_t i=0;i<d.size();i++){ ensure(d[i].size()==s.data[i].size(),"samples have as many values"); if(d[i].size()!=s.data[i].size()) continue; for(size_t j=0;j<d[i].size();j++) ensure(teq(d[i][j],s.data[i][j]),"it has the sample values of its origin"); }
  if(params){ ensure(p.size()==s.par.size(),"it has the parameters of its origin"); for(auto&x:s.par){ auto i=p.find(x.first); ensure(i!=p.end(),"it knows the parameters of its origin"); if(i!=p.end()) ensure(teq(i->second,x.second),"it has the parameter values of its origin"); } } ensure(sm.size()==s.sigs.size(),"it has the signals of its origin"); for(size_t i=0;i<s.sigs.size();i++){ auto k=sm.find(s.sigs[i]); ensure(k!=sm.end()&&k->second==(int)i+1,"it has the signal columns of its origin"); } }
// f, g: two formula bodies of A (over sigs, parameters);  op: copy assign move massign self monitor (drivers)   via=monitor: the same for monitors
HARNESS(twins){ Cfg c(A); bool mon=c.s("via")=="monitor"; string op=c.s("op","assign"); Setup S; S.E.sigs=split(c.s("sigs","x"),','); S.E.thi=4; parseF(c,S); intervals(S.f); string F=S.ftext,G="(alw_[0,1] ("+S.E.sigs[0]+"[t] < 7))"; { SParse sp(c.s("g","(alw 0 1 (< x 7))"),S.E); FP g=sp.parse(); intervals(g); G=text(g,S.E); } int n=c.i("n",2); Trace T=makeTrace(c,S.E.sigs);
  Full a; a.prev=c.s("prev")!=""?c.i("prev",1):sym_choose("prev",2); a.sem=c.s("sem")!=""?atoi(c.s("sem").c_str()):sym_choose("sem",3); a.par=S.E.par; a.sigs=S.E.sigs; for(int i=0;i<n-1;i++) a.data.push_back(row(T,i)); bool warm=c.s("warm")!=""?c.i("warm",1):sym_choose("warm",2);
  Full b0; b0.prev=!a.prev; b0.sem=(a.sem+1)%3; b0.sigs={"u","v","w"}; b0.par={{"r",sym_real("r",-9,9)},{"p",3}}; b0.data={{0,1,2,3},{1,sym_real("u1",-9,9),2,3},{2,0,0,0}};
  std::unique_ptr<STLDriver> d(new STLDriver); apply(*d,a); bool tests=c.s("tests")=="1"; string spec=heading(a)+"phi := "+F+"\nabc := "+G+"\n"; if(tests) spec+="test T1: \"env1\", 10, true {\n t1 { "+F+", \"pos1\", \"neg1\", true }\n}\n"; ensure(d->parse_string(spec),"accepted"); for(auto&r:a.data) d->add_sample(r); double t0=c.i("t0",0);
  std::unique_ptr<STLDriver> e; std::unique_ptr<STLMonitor> m,w; int nt=tests?1:0;
  auto old=[&](STLDriver&x){ apply(x,b0); ensure(x.parse_string(heading(b0)+"phi := (u[t] > r)\nzeta := ev_[0,1] (w[t] > 0)\ntest T7: \"env7\", 10, true {\n t7 { u[t] > 0, \"pos7\", \"neg7\", true }\n t8 { u[t] > 0, \"pos7\", \"neg7\", true }\n}\n"),"accepted"); for(auto&r:b0.data) x.add_sample(r); R3 o; three(x,"zeta",0,o); };
  if(!mon){ R3 o; if(warm) three(*d,"phi",t0,o); if(op=="copy") e.reset(new STLDriver(*d)); else if(op=="move"){ e.reset(new STLDriver(std::move(*d))); } else if(op=="assign"||op=="massign"||op=="fresh"){ e.reset(new STLDriver); if(op!="fresh") old(*e); if(op=="massign") *e=std::move(*d); else *e=*d; } else if(op=="self"){ STLDriver&q=*d; *d=q; e=std::move(d); } else if(op=="vector"){ vector<STLDriver> v; v.push_back(*d); v.push_back(v[0]); v.push_back(std::move(*d)); v.erase(v.begin()); e.reset(new STLDriver(v[1])); } else abort();
    sameState(e->data,e->param_map,e->signal_map,e->get_semantics(),e->get_interpol(),a,true); ensure(e->formula_map.size()==2&&e->formula_map.count("phi")&&e->formula_map.count("abc"),"it has exactly the formulas of its origin"); ensure(e->nb_test_total==nt&&(int)e->stl_test_map.size()==nt&&(int)e->trace_test_queue.size()==nt,"it has the tests of its origin");
    bool dropped=false; if(d&&op!="move"&&op!="massign"&&op!="vector"){ int k=sym_choose("then",3); if(k==0){ d.reset(); dropped=true; } else if(k==1){ vector<double> r=row(T,n-1); d->add_sample(r); if(!a.par.empty()) d->set_param(a.par.begin()->first,sym_real("np",0,2)); d->set_semantics(SEM[(a.sem+1)%3]); d->set_interpol(a.prev?"LINEAR":"PREVIOUS"); three(*d,"phi",t0,o); } else { d->clear(); ensure(d->formula_map.empty(),"cleared"); } } else if(d){ int k=sym_choose("then",3); if(k==0){ d.reset(); dropped=true; } else if(k==1){ d->clear(); } else { Full z=b0; d->data.clear(); d->signal_map.clear(); d->clear(); old(*d); ensure(d->get_online_rob("zeta",0).size()==3,"a moved-from driver can be used again"); } }
    R3 q; three(*e,"phi",t0,q); sym_observe("rob",q.r); sym_observe("lo",q.lo); sym_observe("up",q.up); same(q,ref(a,F,t0),"its formulas give the results of its origin"); three(*e,"abc",t0,q); same(q,ref(a,G,t0),"all of its formulas give the results of its origin"); sameState(e->data,e->param_map,e->signal_map,e->get_semantics(),e->get_interpol(),a,true);
    vector<double> r=row(T,n-1); e->add_sample(r); Full a2=a; a2.data.push_back(r); three(*e,"phi",t0,q); same(q,ref(a2,F,t0),"it goes on with new samples by itself"); ensure(e->parse_string("later := (not phi) and abc\n"),"new formulas can be defined from the ones it has"); three(*e,"later",t0,q); same(q,ref(a2,"(not "+F+") and "+G,t0),"formulas defined later use the ones it has"); if(tests){ e->run_tests(); R3 f=ref(a2,F,0); (void)f; ensure(e->trace_test_queue_empty(),"its tests run"); }
    if(!dropped&&d&&d->formula_map.count("phi")&&op!="move"&&op!="massign"&&op!="vector") ensure(d->data.size()==a.data.size()+1,"the origin is not affected"); }
  else { w.reset(new STLMonitor(d->get_monitor("phi"))); if(op=="monitor"&&warm){ R3 o; three(*d,"phi",t0,o); w.reset(new STLMonitor(d->get_monitor("phi"))); } sameState(w->data,w->param_map,w->signal_map,w->get_semantics(),w->get_interpol(),a,true); if(op!="monitor"||sym_choose("drop",2)) d.reset(); R3 o; if(warm&&op!="monitor"){ w->set_eval_time(t0,t0+1); w->eval_rob(); o.r=w->get_rob(); o.lo=w->get_lower_rob(); o.up=w->get_upper_rob(); }
    STLDriver od; old(od); if(op=="copy") m.reset(new STLMonitor(*w)); else if(op=="move") m.reset(new STLMonitor(std::move(*w))); else if(op=="assign"||op=="massign"||op=="fresh"){ m.reset(op=="fresh"?new STLMonitor:new STLMonitor(od.get_monitor("zeta"))); if(op!="fresh") m->eval_rob(0,1); if(op=="massign") *m=std::move(*w); else *m=*w; } else if(op=="self"){ STLMonitor&q=*w; *w=q; m=std::move(w); } else if(op=="monitor") m=std::move(w); else if(op=="vector"){ vector<STLMonitor> v; v.push_back(*w); v.push_back(v[0]); v.push_back(std::move(*w)); v.erase(v.begin()); m.reset(new STLMonitor(v[1])); } else abort();
    sameState(m->data,m->param_map,m->signal_map,m->get_semantics(),m->get_interpol(),a,true); if(warm&&op!="monitor"){ ensure(eq(m->get_rob(),o.r)&eq(m->get_lower_rob(),o.lo)&eq(m->get_upper_rob(),o.up),"it has the last results of its origin"); double z=m->eval_rob(); ensure(eq(z,o.r),"it has the evaluation window of its origin"); }
    if(d){ vector<double> r=row(T,n-1); d->add_sample(r); if(!a.par.empty()) d->set_param(a.par.begin()->first,sym_real("np",0,2)); d->set_semantics(SEM[(a.sem+1)%3]); d->set_interpol(a.prev?"LINEAR":"PREVIOUS"); three(*d,"phi",t0,o); }
    if(w&&op!="move"&&op!="massign"&&op!="vector"){ if(sym_choose("then",2)) w.reset(); else { w->add_sample(row(T,n-1)); if(!a.par.empty()) w->set_param(a.par.begin()->first,sym_real("np",0,2)); w->set_semantics(SEM[(a.sem+1)%3]); w->set_interpol(a.prev?"LINEAR":"PREVIOUS"); w->eval_rob(t0); } } else if(w){ if(sym_choose("then",2)) w.reset(); else { w->reset_signal_data(); *w=od.get_monitor("zeta"); w->eval_rob(0); } }
    R3 q; threeM(*m,t0,q); sym_observe("rob",q.r); sym_observe("lo",q.lo); sym_observe("up",q.up); same(q,ref(a,F,t0),"its formula gives the results of its origin"); vector<double> r=row(T,n-1); m->add_sample(r); Full a2=a; a2.data.push_back(r); threeM(*m,t0,q); same(q,ref(a2,F,t0),"it goes on with new samples by itself"); if(!a.par.empty()){ double v=sym_real("mp",0,2); string p=a.par.begin()->first; m->set_param(p,v); a2.par[p]=v; threeM(*m,t0,q); same(q,ref(a2,F,t0),"its parameters are its own"); } }
  sym_reach("end"); }
