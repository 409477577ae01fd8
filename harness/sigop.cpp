// The Signal class on its own: operations on explicit signals, checked at an arbitrary instant.
#include "util.h"
struct Sg { Signal z; vector<double> T,X; };
// build a signal through the public API; pre selects names; sample times symbolic or listed (times<pre>=)
static Sg mk(const Cfg&c,const string&pre,int n){ Sg s; string ts=c.s((string("times")+pre).c_str(),c.s("times","sym").c_str()); double R=50; vector<string> w; if(ts!="sym"){ w=split(ts,','); n=w.size(); }
  for(int i=0;i<n;i++){ double t= ts=="sym"? ((i==0&&c.s("begin","0")!="sym")?0.0:sym_real((pre+"t"+std::to_string(i)).c_str(),0,8)) : atof(w[i].c_str()); if(ts=="sym"&&i) assume(tlt(s.T[i-1],t)); s.T.push_back(t); s.X.push_back(sym_real((pre+"_"+std::to_string(i)).c_str(),-R,R)); }
  if(c.s("build")=="array") s.z=Signal(s.T.data(),s.X.data(),n); else for(int i=0;i<n;i++) s.z.appendSample(s.T[i],s.X[i]);
  if(c.s("tail")=="1"){ double e=sym_real((pre+"end").c_str(),0,9); assume(tle(s.T[n-1],e)); s.z.endTime=e; } return s; }
// the signal's value at tau, from the samples (independent of Sample::valueAt)
static double at(const Sg&s,double tau,bool prev){ size_t k=0; for(size_t i=1;i<s.T.size();i++) if(s.T[i]<=tau) k=i; if(prev||k+1==s.T.size()) return s.X[k]; return s.X[k]+(s.X[k+1]-s.X[k])/(s.T[k+1]-s.T[k])*(tau-s.T[k]); }
static B shape(const Signal&z,double b,double e){ B r=teq(z.beginTime,b)&teq(z.endTime,e)&teq(z.front().time,b)&tle(z.back().time,e); for(size_t i=0;i+1<z.size();i++) r=r&tle(z[i].time,z[i+1].time); return r; }
HARNESS(sigop){ Cfg c(A); bool prev=c.s("mode","P")=="P"; Signal::interpol=prev?Interpol::PREVIOUS:Interpol::LINEAR; string op=c.s("op"); Sg x=mk(c,"x",c.i("n",3)); bool bin=op=="and"||op=="or"||op=="implies"||op=="until"; Sg y; if(bin) y=mk(c,"y",c.i("m",c.i("n",3)));
  double b=x.T[0],e=x.z.endTime; if(bin){ if(y.T[0]>b) b=y.T[0]; if(y.z.endTime<e) e=y.z.endTime; assume(tlt(b,e)); }
  Signal z; if(c.s("reuse")=="1"){ z.appendSample(0.5,sym_real("r0",-50,50)); z.appendSample(2.5,sym_real("r1",-50,50)); } if(op=="not") z.compute_not(x.z); else if(op=="and") z.compute_and(x.z,y.z); else if(op=="or") z.compute_or(x.z,y.z); else if(op=="implies") z.compute_implies(x.z,y.z); else if(op=="ev") z.compute_eventually(x.z); else if(op=="alw") z.compute_globally(x.z); else if(op=="until") z.compute_until(x.z,y.z);
  else if(op=="copy"){ Signal q; q.appendSignal(x.z); z=q; } else if(op=="simplify"){ z=x.z; z.simplify(); } else abort();
  ensure(!z.empty(),"the result is not empty"); if(z.empty()) return; sym_observe("b",z.beginTime); sym_observe("e",z.endTime); ensure(shape(z,b,e),"the result covers the common time domain in order");
  double tau=sym_real("tau",0,9); assume(tle(b,tau)&tle(tau,e)); double v=sigAt(z,tau); sym_observe("v",v); sym_reach("end"); 
  if(op=="not") ensure(eq(v,-at(x,tau,prev)),"not negates pointwise"); else if(op=="copy"||op=="simplify") ensure(eq(v,at(x,tau,prev)),"the signal is unchanged pointwise");
  else if(op=="and"||op=="or"||op=="implies"){ double p=at(x,tau,prev),q=at(y,tau,prev); if(op=="implies") p=-p; if(op=="and") ensure(le(v,p)&le(v,q)&(eq(v,p)|eq(v,q)),"and is the pointwise minimum"); else ensure(ge(v,p)&ge(v,q)&(eq(v,p)|eq(v,q)),"or is the pointwise maximum"); }
  else if(op=="ev"||op=="alw"){ double s=op=="ev"?1:-1; double p=at(x,tau,prev)*s; B up=ge(v*s,p),hit=eq(v*s,p); for(size_t i=0;i<x.T.size();i++){ B in=tle(tau,x.T[i]); double q=x.X[i]*s; up=up&implies(in,ge(v*s,q)); hit=hit|(in&eq(v*s,q)); } if(!prev&&c.s("tail")=="1") abort(); ensure(up&hit,"eventually/globally is the extremum over the rest of the signal"); }
  else if(op=="until"&&!prev){ auto pw=[&](const Sg&s){ Pwl p; for(size_t i=0;i<s.T.size();i++) addv(p,s.T[i],s.X[i]); if(p.t.back()<e) addv(p,e,p.v.back()); return pwlCut(p,tau,e); }; Pwl g=pwlMin(pw(y),pwlRunMin(pw(x))); double best=g.v[0]; for(double q:g.v) if(q>best) best=q; ensure(eq(v,best),"until is the sup-inf over the rest of the signals"); }
  else if(op=="until"){ // sup over q>=tau of min(y(q), inf over [tau,q] of x)
 vector<double> cand; cand.push_back(tau); for(double q:x.T) cand.push_back(q); for(double q:y.T) cand.push_back(q); B up=b_const(true),hit=b_const(false); for(double q:cand){ B in=tle(tau,q)&tle(q,e); if(!(tau<=q&&q<=e)) continue; double yv=at(y,q,true),m=at(x,tau,true); for(double p:x.T) if(tau<p&&p<=q){ double w=at(x,p,true); if(w<m) m=w; } double g=yv<m?yv:m; up=up&ge(v,g); hit=hit|eq(v,g); } ensure(up&hit,"until is the sup-inf over the rest of the signals"); } }
// resize: same values inside the old domain, the fill value after its end, the first value before its start
HARNESS(resize){ Cfg c(A); bool prev=c.s("mode","P")=="P"; Signal::interpol=prev?Interpol::PREVIOUS:Interpol::LINEAR; Sg x=mk(c,"x",c.i("n",3)); double s=sym_real("s",0,9),t=sym_real("t",0,9),v=sym_real("fill",-50,50); double sh=c.s("shift")=="1"?sym_real("shift",-5,5):0; Signal z=x.z; double e0=x.z.endTime; assume(tle(s,t)); bool twice=c.s("twice")=="1"; double cutE=0; if(twice){ cutE=sym_real("cutE",0,9); assume(tlt(x.T[0],cutE)&tle(cutE,e0)&tlt(cutE,t)&tle(x.T[0],s)&tlt(s,cutE)); z.resize(x.T[0],cutE,v); } if(c.s("cut")=="1") assume(tle(x.T[0],s)&tle(t,e0)); z.resize(s,t,v); if(c.s("shift")=="1") z.shift(sh); ensure(!z.empty(),"not empty"); if(z.empty()) return;
  ensure(shape(z,s+sh,t+sh),"the resized signal covers exactly the requested interval"); double tau=sym_real("tau",0,9); assume(tle(s,tau)&tle(tau,t)); double r=sigAt(z,tau+sh); sym_observe("v",r); sym_reach("end"); if(twice){ if(tau<cutE) ensure(eq(r,at(x,tau,prev)),"values inside the kept part are kept"); else if(cutE<tau) ensure(eq(r,v),"after the end of the signal it has the fill value"); return; } if(e0<tau&&s<tau) ensure(eq(r,v),"after the end of the signal it has the fill value");
  if(x.T[0]<=tau&&(tau<e0||(t<=e0&&tau<=e0))) ensure(eq(r,at(x,tau,prev)),"values inside the old domain are kept"); }
// appendSample keeps time strictly increasing and the recorded samples
HARNESS(append){ Cfg c(A); bool prev=c.s("mode","P")=="P"; Signal::interpol=prev?Interpol::PREVIOUS:Interpol::LINEAR; Signal z; vector<double> T,X; int n=c.i("n",4); for(int i=0;i<n;i++){ double t=sym_real(nm("t",i).c_str(),0,8),v=sym_real(nm("x",i).c_str(),-50,50); z.appendSample(t,v); if(T.empty()||t>T.back()){ T.push_back(t); X.push_back(v); } ensure(z.size()==T.size(),"a sample that is not later than the last one is ignored"); if(z.size()!=T.size()) return; }
  for(size_t i=0;i<T.size();i++){ ensure(teq(z[i].time,T[i])&eq(z[i].value,X[i]),"samples are kept in order"); if(i+1<T.size()) ensure(eq(z[i].valueAt(T[i+1]),prev?X[i]:X[i+1]),"between samples the signal follows the interpolation"); } ensure(teq(z.beginTime,T[0])&teq(z.endTime,T.back()),"the domain spans the samples"); sym_observe("n",z.size()); sym_reach("end"); }
// truth value and left / right time robustness of a signal
HARNESS(timerob){ Cfg c(A); bool prev=c.s("mode","P")=="P"; Signal::interpol=prev?Interpol::PREVIOUS:Interpol::LINEAR; Sg x=mk(c,"x",c.i("n",3)); if(c.s("nozero")=="1") for(double v:x.X) assume(lt(v,0)|gt(v,0)); string op=c.s("op"); Signal z; if(op=="bool") z.compute_boolean(x.z); else if(op=="left") z.compute_left_time_rob(x.z); else z.compute_right_time_rob(x.z); ensure(!z.empty(),"the result is not empty"); if(z.empty()) return; double b=x.T[0],e=x.z.endTime; ensure(shape(z,b,e),"the result covers the time domain in order");
  // change points of the truth value, from the samples
  vector<double> ct; vector<bool> cv; size_t n=x.T.size(); auto put=[&](double t,bool v){ if(cv.empty()||cv.back()!=v){ ct.push_back(t); cv.push_back(v); } };
  for(size_t i=0;i<n;i++){ if(i+1==n&&n>1&&!(x.T[i]<e)) break; bool pos=x.X[i]>0; if(!prev&&i+1<n){ double w=x.X[i+1],v=x.X[i]; if(!pos&&!(v<0)&&w>0){ pos=true; put(x.T[i],true); continue; } put(x.T[i],pos); if((v>0&&w<0)||(v<0&&w>0)){ double tc=x.T[i]-v*(x.T[i+1]-x.T[i])/(w-v); put(tc,!pos); } else if(v>0&&!(w>0)&&!(w<0)) {} } else put(x.T[i],pos); }
  double tau=sym_real("tau",0,9); assume(tle(b,tau)&(n==1&&c.s("tail")!="1"?tle(tau,e):tlt(tau,e))); size_t k=0; for(size_t i=1;i<ct.size();i++) if(ct[i]<=tau) k=i; bool v=cv[k]; double r=sigAt(z,tau); sym_observe("v",r); sym_reach("end");
  if(op=="bool") ensure(eq(r,v?1.0:0.0),"the boolean signal is 1 exactly where the value is positive"); else if(op=="left"){ double d=tau-ct[k]; ensure(eq(r,v?d:-d),"left time robustness is the signed time since the truth value last changed"); } else { double d=(k+1<ct.size()?ct[k+1]:e)-tau; ensure(eq(r,v?d:-d),"right time robustness is the signed time until the truth value next changes"); } }
