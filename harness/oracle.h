// Independent reference semantics of STL over a symbolic trace (never calls library code).
#pragma once
#include "common.h"
#include <memory>
struct Trace { int n=0,ns=1; vector<double> T; vector<vector<double>> X; }; // X[s][i]
struct Ex; typedef std::shared_ptr<Ex> EP;
struct Ex { char op='s'; int sig=0; double c=0; string cs; EP l,r; };   // s signal, c constant, + - * a(bs)
struct Fm; typedef std::shared_ptr<Fm> FP;
struct Fm { string op; FP l,r; double a=0,b=0; string as,bs; EP el,er; string id; };
inline bool isAtom(const FP&f){ return f->op==">"||f->op=="<"; }
// --- s-expressions:  (> x 1.5) (< y p) (not F) (and F G) (or F G) (=> F G) (ev a b F) (alw a b F) (until a b F G)
//     numbers are concrete, $name a symbolic constant inside the text, @name a formula parameter
struct Env { map<string,double> sym; map<string,double> par; vector<string> sigs; double lo=-50,hi=50; double tlo=0,thi=6; };
struct SParse { string s; size_t p; Env&E;
  SParse(string x,Env&e):s(x),p(0),E(e){}
  string word(){ while(p<s.size()&&s[p]==' ')p++; size_t q=p; if(s[q]=='('||s[q]==')') { p++; return s.substr(q,1);} while(p<s.size()&&s[p]!=' '&&s[p]!='('&&s[p]!=')')p++; return s.substr(q,p-q); }
  double num(const string&w,string&txt,bool time){ double lo=time?E.tlo:E.lo,hi=time?E.thi:E.hi;
    if(w[0]=='$'){ string nm=w.substr(1); if(!E.sym.count(nm)) E.sym[nm]=sym_real(nm.c_str(),lo,hi); txt=tok(E.sym[nm]); return E.sym[nm]; }
    if(w[0]=='@'){ string nm=w.substr(1); if(!E.par.count(nm)) E.par[nm]=sym_real(nm.c_str(),lo,hi); txt=nm; return E.par[nm]; }
    txt=w; return atof(w.c_str()); }
  EP expr(){ string w=word(); EP e=std::make_shared<Ex>(); if(w=="("){ w=word(); e->op=w=="abs"?'a':w[0]; e->l=expr(); if(w!="abs") e->r=expr(); if(word()!=")") abort(); return e; }
    for(size_t i=0;i<E.sigs.size();i++) if(E.sigs[i]==w){ e->op='s'; e->sig=i; return e; }
    e->op='c'; e->c=num(w,e->cs,false); return e; }
  FP parse(){ string w=word(); if(w!="(") abort(); FP f=std::make_shared<Fm>(); f->op=word();
    if(isAtom(f)){ f->el=expr(); f->er=expr(); }
    else if(f->op=="ev"||f->op=="alw"){ f->a=num(word(),f->as,true); f->b=num(word(),f->bs,true); f->l=parse(); }
    else if(f->op=="until"){ f->a=num(word(),f->as,true); f->b=num(word(),f->bs,true); f->l=parse(); f->r=parse(); }
    else if(f->op=="not") f->l=parse(); else { f->l=parse(); f->r=parse(); }
    if(word()!=")") abort(); return f; } };
inline string etext(const EP&e,const Env&E){ if(e->op=='s') return E.sigs[e->sig]+"[t]"; if(e->op=='c') return e->cs; if(e->op=='a') return "abs("+etext(e->l,E)+")"; return "("+etext(e->l,E)+" "+string(1,e->op)+" "+etext(e->r,E)+")"; }
inline double esum(const Ex*e,const Trace&t,int i){ if(e->op=='s') return t.X[e->sig][i]; if(e->op=='c') return e->c; double x=esum(e->l.get(),t,i); if(e->op=='a') return x<0?-x:x; double y=esum(e->r.get(),t,i); return e->op=='+'?x+y:e->op=='-'?x-y:x*y; }
inline string text(const FP&f,const Env&E){
  if(isAtom(f)) return "("+etext(f->el,E)+" "+f->op+" "+etext(f->er,E)+")";
  if(f->op=="ev"||f->op=="alw") return "("+f->op+"_["+f->as+","+f->bs+"] "+text(f->l,E)+")";
  if(f->op=="until") return "("+text(f->l,E)+" until_["+f->as+","+f->bs+"] "+text(f->r,E)+")";
  if(f->op=="not") return "(not "+text(f->l,E)+")";
  return "("+text(f->l,E)+" "+f->op+" "+text(f->r,E)+")"; }
inline bool temporal(const FP&f){ return f->op=="ev"||f->op=="alw"||f->op=="until"; }
// accumulated horizon along the deepest chain (upper interval ends); symbolic ends: all chains are returned
inline void horizons(const FP&f,double acc,vector<double>&out){ if(isAtom(f)){ out.push_back(acc); return; } double h=temporal(f)?acc+f->b:acc; horizons(f->l,h,out); if(f->r) horizons(f->r,h,out); }
// ---- PREVIOUS semantics: right-continuous piecewise constant
struct Prev { const Trace&t; const Env&E; Prev(const Trace&x,const Env&e):t(x),E(e){}
  map<Fm*,vector<double>> memo;
  const vector<double>& bps(const FP&f){ auto it=memo.find(f.get()); if(it!=memo.end()) return it->second; vector<double> r;
    if(isAtom(f)) r=t.T; else if(f->op=="ev"||f->op=="alw"){ for(double p:bps(f->l)){ r.push_back(p-f->b); if(!(f->as==f->bs)) r.push_back(p-f->a); } }
    else if(f->op=="until"){ vector<double> c=bps(f->l); for(double p:bps(f->r)) c.push_back(p); std::set<double> dummy; for(double p:c){ r.push_back(p); r.push_back(p-f->b); if(f->as!=f->bs) r.push_back(p-f->a); } }
    else { r=bps(f->l); if(f->r) for(double p:bps(f->r)) r.push_back(p); }
    // drop literal duplicates (same bits)
    vector<double> u; for(double x:r){ bool dup=false; for(double y:u) if(!memcmp(&x,&y,8)) dup=true; if(!dup) u.push_back(x); } return memo[f.get()]=u; }
  map<std::pair<const void*,int>,double> am; map<std::pair<uint64_t,uint64_t>,double> sm; map<vector<uint64_t>,B> cm;
  static uint64_t bits(double d){ uint64_t u; memcpy(&u,&d,8); return u; }
  double plus(double a,double b){ auto k=std::make_pair(bits(a),bits(b)); auto i=sm.find(k); if(i!=sm.end()) return i->second; return sm[k]=a+b; }
  double neg(double a){ auto k=std::make_pair(bits(a),~0ull); auto i=sm.find(k); if(i!=sm.end()) return i->second; return sm[k]=-a; }
  double atomv(const FP&f,int i){ auto k=std::make_pair((const void*)f.get(),i); auto it=am.find(k); if(it!=am.end()) return it->second; double x=esum(f->el.get(),t,i),y=esum(f->er.get(),t,i); return am[k]= f->op==">"? x-y : y-x; }
  // cmp(f,at,v,ge): rho(f,at)>=v (ge) or <=v
  B cmp(const FP&f,double at,double v,bool ge){ vector<uint64_t> k={(uint64_t)(size_t)f.get(),bits(at),bits(v),(uint64_t)ge}; auto it=cm.find(k); if(it!=cm.end()) return it->second; B r=cmp_(f,at,v,ge); cm.insert({k,r}); return r; }
  B cmp_(const FP&f,double at,double v,bool ge){
    if(isAtom(f)){ B r=b_const(false); for(int i=0;i<t.n;i++){ B in=b_const(true); if(i) in=in&tle(t.T[i],at); if(i+1<t.n) in=in&tlt(at,t.T[i+1]); double x=atomv(f,i); r=r|(in&(ge?le(v,x):le(x,v))); } return r; }
    if(f->op=="not") return cmp(f->l,at,neg(v),!ge);
    if(f->op=="and"){ B x=cmp(f->l,at,v,ge),y=cmp(f->r,at,v,ge); return ge?(x&y):(x|y); }
    if(f->op=="or"){ B x=cmp(f->l,at,v,ge),y=cmp(f->r,at,v,ge); return ge?(x|y):(x&y); }
    if(f->op=="=>"){ B x=cmp(f->l,at,neg(v),!ge),y=cmp(f->r,at,v,ge); return ge?(x|y):(x&y); }
    if(f->op=="ev"||f->op=="alw"){ bool any=(f->op=="ev")==ge; double s=plus(at,f->a),e=plus(at,f->b); B r=cmp(f->l,s,v,ge); if(f->as==f->bs) return r;
      for(double q:bps(f->l)){ B in=tlt(s,q)&tle(q,e); B k=cmp(f->l,q,v,ge); r= any? (r|(in&k)) : (r&implies(in,k)); } return r; }
    if(f->op=="until"){ double s=plus(at,f->a),e=plus(at,f->b); vector<double> cand=bps(f->l); for(double q:bps(f->r)) cand.push_back(q);
      auto inner=[&](double q)->B{ // min(y(q), inf_[at,q] x) cmp v
        B y=cmp(f->r,q,v,ge); B x=cmp(f->l,at,v,ge); for(double p:bps(f->l)){ B in=tlt(at,p)&tle(p,q); B k=cmp(f->l,p,v,ge); x= ge? (x&implies(in,k)) : (x|(in&k)); } return ge?(y&x):(y|x); };
      B r=inner(s); for(double q:cand){ B in=tlt(s,q)&tle(q,e); B k=inner(q); r= ge? (r|(in&k)) : (r&implies(in,k)); } return r; }
    abort(); }
  B equals(const FP&f,double at,double v){ return cmp(f,at,v,true)&cmp(f,at,v,false); } };
// ---- LINEAR semantics: continuous piecewise linear functions as vertex lists (this reference forks)
struct Pwl { vector<double> t,v; };
inline double pwlAt(const Pwl&f,double at){ size_t i=0; while(i+2<f.t.size()&&f.t[i+1]<=at) i++; if(f.t.size()==1) return f.v[0]; if(at==f.t[i]) return f.v[i]; if(at==f.t[i+1]) return f.v[i+1]; return f.v[i]+(f.v[i+1]-f.v[i])/(f.t[i+1]-f.t[i])*(at-f.t[i]); }
inline void addv(Pwl&f,double t,double v){ if(!f.t.empty()&&f.t.back()==t) return; f.t.push_back(t); f.v.push_back(v); }
inline vector<double> mergeT(const vector<double>&a,const vector<double>&b){ vector<double> r; size_t i=0,j=0; while(i<a.size()||j<b.size()){ double x; if(j>=b.size()) x=a[i++]; else if(i>=a.size()) x=b[j++]; else if(a[i]<b[j]) x=a[i++]; else if(b[j]<a[i]) x=b[j++]; else { x=a[i++]; j++; } if(r.empty()||r.back()<x) r.push_back(x); } return r; }
inline Pwl pwlNeg(Pwl f){ for(auto&x:f.v) x=-x; return f; }
inline Pwl pwlMax(const Pwl&f,const Pwl&g){ // same domain
  vector<double> ts=mergeT(f.t,g.t); Pwl r; double pf=0,pg=0; for(size_t i=0;i<ts.size();i++){ double a=pwlAt(f,ts[i]),b=pwlAt(g,ts[i]); if(i){ if((pf<pg&&a>b)||(pf>pg&&a<b)){ double d0=pf-pg,d1=a-b; double lam=d0/(d0-d1); addv(r,ts[i-1]+lam*(ts[i]-ts[i-1]),pf+lam*(a-pf)); } } addv(r,ts[i],a>b?a:b); pf=a; pg=b; } return r; }
inline Pwl pwlMin(const Pwl&f,const Pwl&g){ return pwlNeg(pwlMax(pwlNeg(f),pwlNeg(g))); }
inline Pwl pwlShift(Pwl f,double d){ for(auto&x:f.t) x=x+d; return f; }
inline Pwl pwlCut(const Pwl&f,double s,double e){ Pwl r; addv(r,s,pwlAt(f,s)); for(size_t i=0;i<f.t.size();i++) if(s<f.t[i]&&f.t[i]<e) addv(r,f.t[i],f.v[i]); if(s<e) addv(r,e,pwlAt(f,e)); return r; }
// (ev_[a,b] f) on [s,e]:  max of f(t+a), f(t+b) and the vertices strictly inside the window
inline Pwl pwlEv(const Pwl&f,double a,double b,double s,double e){
  Pwl fa=pwlCut(pwlShift(f,-a),s,e),fb=pwlCut(pwlShift(f,-b),s,e); Pwl r=pwlMax(fa,fb); if(!(a<b)) return r;
  vector<double> ev; ev=mergeT(fa.t,fb.t); Pwl out;
  for(size_t i=0;i+1<ev.size()||(i==0&&ev.size()==1);i++){ double p=ev[i],q=ev.size()==1?ev[0]:ev[i+1]; double mid=p+(q-p)*0.5; bool any=false; double m=0; for(size_t k=0;k<f.t.size();k++) if(mid+a<=f.t[k]&&f.t[k]<=mid+b){ if(!any||f.v[k]>m) m=f.v[k]; any=true; }
    Pwl c=pwlCut(r,p,q); if(any){ Pwl k; addv(k,p,m); if(p<q) addv(k,q,m); c=pwlMax(c,k); } for(size_t k=0;k<c.t.size();k++) addv(out,c.t[k],c.v[k]); if(ev.size()==1) break; }
  return out; }
// running minimum from the left
inline Pwl pwlRunMin(const Pwl&x){ Pwl m; double cur=x.v[0]; addv(m,x.t[0],cur); for(size_t i=1;i<x.t.size();i++){ if(x.v[i]<cur){ if(x.v[i-1]>cur){ double lam=(x.v[i-1]-cur)/(x.v[i-1]-x.v[i]); addv(m,x.t[i-1]+lam*(x.t[i]-x.t[i-1]),cur);} cur=x.v[i]; } addv(m,x.t[i],cur); } return m; }
struct Lin { const Trace&t; const Env&E; Lin(const Trace&x,const Env&e):t(x),E(e){}
  // rho(f,.) on [s,e]
  Pwl rob(const FP&f,double s,double e){
    if(isAtom(f)){ Pwl p; for(int i=0;i<t.n;i++){ double x=esum(f->el.get(),t,i),y=esum(f->er.get(),t,i); addv(p,t.T[i],f->op==">"?x-y:y-x); } return pwlCut(p,s,e); }
    if(f->op=="not") return pwlNeg(rob(f->l,s,e)); if(f->op=="and") return pwlMin(rob(f->l,s,e),rob(f->r,s,e)); if(f->op=="or") return pwlMax(rob(f->l,s,e),rob(f->r,s,e)); if(f->op=="=>") return pwlMax(pwlNeg(rob(f->l,s,e)),rob(f->r,s,e));
    if(f->op=="ev") return pwlEv(rob(f->l,s+f->a,e+f->b),f->a,f->b,s,e); if(f->op=="alw") return pwlNeg(pwlEv(pwlNeg(rob(f->l,s+f->a,e+f->b)),f->a,f->b,s,e));
    if(f->op=="until"&&!(s<e)){ // at a single instant: running minimum of x, then sup over the window
      Pwl x=rob(f->l,s,s+f->b),y=rob(f->r,s+f->a,s+f->b); // running inf of x on [s,.]
      Pwl m=pwlRunMin(x); Pwl g=pwlMin(y,pwlCut(m,s+f->a,s+f->b)); double best=g.v[0]; for(double q:g.v) if(q>best) best=q; Pwl r; addv(r,s,best); return r; }
    abort(); } };
