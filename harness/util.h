// Options are key=value arguments:
//   f=<s-expression>  n=<samples>  mode=P|L  times=sym|<list>  sigs=<comma list>  t0=<num>|sym  thi=<max interval bound>
#pragma once
#include <cstring>
#include <set>
#include "oracle.h"
struct Cfg { map<string,string> kv; Cfg(const Args&A){ for(auto&a:A){ size_t k=a.find('='); kv[a.substr(0,k)]=a.substr(k+1);} } string s(const char*k,const char*d="")const{ auto i=kv.find(k); return i==kv.end()?string(d):i->second; } int i(const char*k,int d)const{ auto i=kv.find(k); return i==kv.end()?d:atoi(i->second.c_str()); } bool has(const char*k,const char*w)const{ return s(k).find(w)!=string::npos; } };
static inline vector<string> split(const string&s,char c){ vector<string> r; string w; for(char x:s){ if(x==c){ r.push_back(w); w.clear(); } else w+=x; } r.push_back(w); return r; }
static inline string nm(const string&p,int i){ return p+std::to_string(i); }
// a trace starting at time 0 with strictly increasing sample times
static inline vector<double> makeTimes(const Cfg&c,const string&pre="t"){ vector<double> T; string ts=c.s("times","sym"); int n=c.i("n",3); double tmax=c.i("tmax",8);
  if(ts=="sym"){ T.push_back(0); for(int i=1;i<n;i++){ double x=sym_real(nm(pre,i).c_str(),0,tmax); assume(tlt(T[i-1],x)); T.push_back(x); } } else if(ts[0]=='*'){ double dt=atof(ts.c_str()+1); for(int i=0;i<n;i++) T.push_back(i*dt); } else for(auto&w:split(ts,',')) T.push_back(atof(w.c_str())); return T; }
// symx=<indices>: only these samples are symbolic, the others follow a fixed pattern (long traces)
static inline bool fixedValue(const Cfg&c,int,int i){ if(c.s("symx")=="") return false; for(auto&w:split(c.s("symx"),',')) if(atoi(w.c_str())==i) return false; return true; }
static inline Trace makeTrace(const Cfg&c,const vector<string>&sigs,const string&suffix="_"){ Trace t; t.ns=sigs.size(); t.T=makeTimes(c); t.n=t.T.size(); double R=c.i("range",1000);
  for(int s=0;s<t.ns;s++){ t.X.push_back({}); for(int i=0;i<t.n;i++) t.X[s].push_back(fixedValue(c,s,i)? (double)((i*37+s*11)%13)-6 : sym_real(nm(sigs[s]+suffix,i).c_str(),-R,R)); } return t; }
static inline string decl(const vector<string>&sigs,const Env&E){ string s="signal "; for(size_t i=0;i<sigs.size();i++) s+=(i?",":"")+sigs[i]; s+="\n"; if(!E.par.empty()){ s+="param "; bool first=true; for(auto&p:E.par){ s+=(first?"":",")+p.first+"="+tok(p.second); first=false; } s+="\n"; } return s; }
static inline vector<double> row(const Trace&t,int i){ vector<double> r; r.push_back(t.T[i]); for(int s=0;s<t.ns;s++) r.push_back(t.X[s][i]); return r; }
static inline void intervals(const FP&f){ if(temporal(f)) assume(tle(f->a,f->b)); if(f->l) intervals(f->l); if(f->r) intervals(f->r); }
static inline double timeArg(const Cfg&c,const char*k,const char*d,double hi=4){ string z=c.s(k,d); return z=="sym"?sym_real((string("at_")+k).c_str(),0,hi):atof(z.c_str()); }
struct Setup { Env E; FP f; Trace t; double t0; vector<double> hs; STLDriver d; bool prev; string ftext; };
static inline void declare(Setup&S,STLDriver&d,const string&name="phi"){ d.set_interpol(S.prev?"PREVIOUS":"LINEAR"); bool ok=d.parse_string(decl(S.E.sigs,S.E)+name+" := "+S.ftext+"\n"); ensure(ok,"formula is accepted by the parser"); }
static inline void parseF(const Cfg&c,Setup&S,const char*key="f"){ string fs=c.s(key); SParse sp(fs,S.E); S.f=sp.parse(); S.ftext=text(S.f,S.E); }
static inline void setup(const Cfg&c,Setup&S){ S.E.sigs=split(c.s("sigs","x"),','); S.E.thi=c.i("thi",4); S.E.lo=-c.i("range",1000); S.E.hi=c.i("range",1000); parseF(c,S); intervals(S.f); S.t=makeTrace(c,S.E.sigs); S.prev=c.s("mode","P")=="P"; S.t0=timeArg(c,"t0","0"); horizons(S.f,S.t0,S.hs); declare(S,S.d); }
static inline void complete(Setup&S){ for(double h:S.hs) assume(tle(h,S.t.T[S.t.n-1])); }
// v is rho(f,at) of the reference semantics
static inline void checkRho(Setup&S,double at,double v,const char*msg){ if(S.prev){ Prev o(S.t,S.E); ensure(o.equals(S.f,at,v),msg); } else { Lin o(S.t,S.E); Pwl p=o.rob(S.f,at,at); ensure(eq(p.v[0],v),msg); } }
// value of a library signal at an instant (samples are right-continuous pieces)
static inline double sigAt(const Signal&z,double tau){ size_t k=0; for(size_t i=1;i<z.size();i++) if(z[i].time<=tau) k=i; return z[k].valueAt(tau); }
// text with $name replaced by tokens of the symbolic constants of the reference formula
static inline string subst(const string&s,const Env&E){ string r; for(size_t i=0;i<s.size();){ if(s[i]=='$'){ size_t j=i+1; while(j<s.size()&&(isalnum(s[j])||s[j]=='_')) j++; r+=tok(E.sym.at(s.substr(i+1,j-i-1))); i=j; } else if(s[i]=='\\'&&i+1<s.size()&&s[i+1]=='n'){ r+='\n'; i+=2; } else r+=s[i++]; } return r; }
struct R3 { double r,lo,up; };
