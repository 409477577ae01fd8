// Native runtime for the same harnesses: replays a counterexample, or validates recorded path
// models (native outputs against the symbolic prediction), on an ordinary build of the real code.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <unistd.h>
#include <signal.h>
#include <map>
#include <functional>
#include <fstream>
#include <iostream>
#include <sstream>
#include <setjmp.h>
using std::string; using std::vector; using std::map;
static map<string,double> reals; static map<string,vector<int>> choiceQ; static map<string,size_t> choiceP;
static vector<std::pair<string,double>> obs; static vector<string> failures; static bool verbose=false; static bool missing=false;
struct Stop{}; static bool stopped; 
static double ratio(const string&s){ size_t k=s.find('/'); if(k==string::npos) return strtod(s.c_str(),0); return (double)(strtold(s.substr(0,k).c_str(),0)/strtold(s.substr(k+1).c_str(),0)); }
static double tolOf(double a,double b){ double m=fmax(1.0,fmax(fabs(a),fabs(b))); return 1e-9*m; }
extern "C" {
double sym_real(const char*n,double lo,double hi){ auto i=reals.find(n); double v; if(i==reals.end()) v=(lo<=0&&hi>=0)?0:lo; else v=i->second; if(verbose) fprintf(stderr,"  input %s = %.17g\n",n,v); return v; }
int sym_choose(const char*n,int k){ auto&q=choiceQ[n]; size_t&p=choiceP[n]; int v=p<q.size()?q[p]:0; p++; if(verbose) fprintf(stderr,"  choice %s = %d\n",n,v); return v<k?v:0; }
void sym_observe(const char*n,double v){ obs.push_back({n,v}); if(verbose) fprintf(stderr,"  output %s = %.17g\n",n,v); }
int sym_b_const(int v){ return v?1:0; }
int sym_b_cmp(int op,double a,double b){ if(a!=a||b!=b) return 0; double t=tolOf(a,b); return op==0?a<b-t : op==1?a<=b+t : (a==b||fabs(a-b)<=t); }
int sym_b_tcmp(int op,double a,double b){ return op==0?a<b:op==1?a<=b:a==b; }
int sym_b_and(int a,int b){ return a&&b; } int sym_b_or(int a,int b){ return a||b; } int sym_b_not(int a){ return !a; }
void sym_assume(int b){ if(!b){ if(verbose) fprintf(stderr,"  (assumption not satisfied natively)\n"); throw Stop(); } }
void sym_assert(int b,const char*m){ if(!b){ failures.push_back(m); if(verbose) fprintf(stderr,"  ASSERTION FAILED: %s\n",m); } }
void sym_reach(const char*){} void sym_note(const char*){} int sym_is_symbolic(void){ return 0; }
double sym_avg(double a,double b){ return 0.5*(a+b); }
const char*sym_token(double v){ static char bufs[16][80]; static int k; char*b=bufs[k++&15]; snprintf(b,80,"%.25f",v); return b; }
}
typedef std::function<void(const Args&)> HarnessFn;
static map<string,HarnessFn>& registry(){ static map<string,HarnessFn> r; return r; }
HarnessReg::HarnessReg(const char*n,HarnessRaw f){ registry()[n]=[f](const Args&a){ vector<const char*> v; for(auto&s:a) v.push_back(s.c_str()); f((int)v.size(),v.data()); }; }
extern "C" void harness_reset();
static void runOnce(HarnessFn f,const Args&a){ obs.clear(); failures.clear(); choiceP.clear(); harness_reset(); stopped=false; try{ f(a); }catch(Stop&){ stopped=true; } }
static void onAlarm(int){ static const char m[]="REPLAY hang\n"; if(write(1,m,sizeof m-1)){} _exit(1); }
int main(int argc,char**argv){ // concrete replay <harness> <modelfile> [args] | concrete validate <harness> <jobout> [args]
  if(argc<4) return 9; string mode=argv[1],h=argv[2],file=argv[3]; Args args; for(int i=4;i<argc;i++) args.push_back(argv[i]); if(!registry().count(h)){ fprintf(stderr,"no harness %s\n",h.c_str()); return 9; } HarnessFn fn=registry()[h];
  int so=dup(1); FILE*out=fdopen(so,"w"); freopen("/dev/null","w",stdout); dup2(fileno(stdout),1);
  std::ifstream in(file); string line; signal(SIGALRM,onAlarm);
  if(mode=="replay"){ while(std::getline(in,line)){ std::istringstream s(line); string k,n,v; s>>k>>n>>v; if(k=="r") reals[n]=ratio(v); else if(k=="c") choiceQ[n].push_back(atoi(v.c_str())); }
    verbose=true; alarm(10); runOnce(fn,args); alarm(0); if(failures.empty()){ fprintf(out,"REPLAY ok\n"); fflush(out); return 0; } fprintf(out,"REPLAY violated: %s\n",failures[0].c_str()); fflush(out); return 1; }
  // validate
  long n=0,bad=0; bool ins=false; vector<std::pair<string,double>> pred; double worst=0; alarm(240);
  while(std::getline(in,line)){ if(line=="SAMPLE"){ ins=true; reals.clear(); choiceQ.clear(); pred.clear(); continue; } if(!ins) continue;
    if(line=="END"){ ins=false; if(mode=="validate"){ runOnce(fn,args); if(stopped&&failures.empty()) continue; n++; bool ok=failures.empty()&&pred.size()==obs.size(); string why=failures.empty()?"":"assert:"+failures[0]; if(ok) for(size_t i=0;i<pred.size();i++){ double a=pred[i].second,b=obs[i].second; double t=1e-7*fmax(1.0,fmax(fabs(a),fabs(b))); if(pred[i].first!=obs[i].first||!(a==b||fabs(a-b)<=t||(a!=a&&b!=b))){ ok=false; char bb[200]; snprintf(bb,200,"%s predicted %.17g native %.17g",pred[i].first.c_str(),a,b); why=bb; break; } } else if(why.empty()) why="observation count"; if(!ok){ bad++; if(bad<=3) { fprintf(out,"MISMATCH %s\n",why.c_str()); for(auto&r:reals) fprintf(out,"   %s=%.17g\n",r.first.c_str(),r.second); for(auto&c:choiceQ) for(int v:c.second) fprintf(out,"   %s:%d\n",c.first.c_str(),v); } } } continue; }
    std::istringstream s(line); string k,nm,v; s>>k>>nm>>v; if(k=="r") reals[nm]=ratio(v); else if(k=="c") choiceQ[nm].push_back(atoi(v.c_str())); else if(k=="o") pred.push_back({nm,strtod(v.c_str(),0)}); }
  fprintf(out,"VALIDATED %ld bad %ld\n",n,bad); fflush(out); (void)worst; return 0; }
