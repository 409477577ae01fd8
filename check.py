#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by symbolic execution of /repo's code
check.py setup                           build the engine once (smoke test)
check.py replay FILE                     replay a recorded counterexample on the native build
check.py job <harness> k=v ...           (development) run one job and print its report"""
import sys, os, re, json, time, hashlib, subprocess, threading, glob, shutil, concurrent.futures as cf
V=os.path.dirname(os.path.abspath(__file__)); REPO=os.environ.get('STLROM_REPO','/repo'); NCPU=os.cpu_count() or 4
Z3D='/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3'
SAN=['-fsanitize=address','-fno-omit-frame-pointer','-D_GLIBCXX_DEBUG','-D_GLIBCXX_DEBUG_PEDANTIC']
sys.path.insert(0,V)
T0=time.time()
def log(*a): print('[%6.1fs]'%(time.time()-T0),*a,flush=True)
class Broken(Exception): pass
def sh(cmd,**kw): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',**kw)
def need(cmd,what,**kw):
    r=sh(cmd,**kw)
    if r.returncode: raise Broken(what+' failed: '+' '.join(cmd)+'\n'+r.stdout[-3000:])
    return r
# ------------------------------------------------------------------ build (always from /repo's working tree)
def srcs(): return sorted(glob.glob(REPO+'/src/*.cpp'))
def harn(): return sorted(glob.glob(V+'/harness/*.cpp'))
def treehash():
    h=hashlib.sha256()
    for f in sorted(srcs()+glob.glob(REPO+'/include/*')+glob.glob(REPO+'/src/*.h')+glob.glob(V+'/engine/*')+glob.glob(V+'/harness/*')):
        if os.path.isfile(f): h.update(f.encode()); h.update(open(f,'rb').read())
    return h.hexdigest()[:16]
def build(variants):
    """sym, symsan: clang -> LLVM IR -> rewrite -> linked with the Z3 runtime; nat, natsan: g++ as the real build."""
    root=os.environ.get('STLROM_CACHE',V+'/.cache'); d=os.path.join(root,treehash()); os.makedirs(d,exist_ok=True)
    for o in os.listdir(root):      # keep only a few builds
        p=os.path.join(root,o)
        if o!='obj' and p!=d and os.path.isdir(p) and time.time()-os.path.getmtime(p)>6*3600: shutil.rmtree(p,ignore_errors=True)
    todo=[v for v in variants if not os.path.exists(d+'/'+v+'.bin')]
    if not todo: return d
    tmp=d+'/tmp%d'%os.getpid(); os.makedirs(tmp,exist_ok=True); inc=['-I'+REPO+'/include','-I'+V+'/engine','-I'+V+'/harness']
    jobs=[]; info={}
    import importlib; rw=importlib.import_module('engine.rewrite')
    hh=hashlib.sha256()
    for f in sorted(glob.glob(REPO+'/include/*')+glob.glob(REPO+'/src/*.h')+glob.glob(V+'/engine/*.h')+glob.glob(V+'/engine/*.py')+glob.glob(V+'/harness/*.h')): hh.update(open(f,'rb').read())
    hdr=hh.hexdigest(); oc=root+'/obj'; os.makedirs(oc,exist_ok=True)
    def cached(fn):
        def g(f,v,*a):
            k=hashlib.sha256((hdr+v+f+REPO+str(a)).encode()+open(f,'rb').read()).hexdigest()[:24]; o=oc+'/'+k+'.o'
            if not os.path.exists(o): x=fn(f,v,*a); os.replace(x,o); 
            try: info.update(json.load(open(o+'.info')))
            except Exception: pass
            return o
        return g
    @cached
    def sym(f,v):
        fl=SAN if v=='symsan' else []; b=tmp+'/'+v+'_'+os.path.basename(f)[:-4]
        need(['clang++','-std=c++11','-O1','-Xclang','-disable-llvm-passes','-ffp-contract=off','-w',*fl,'-S','-emit-llvm',*inc,f,'-o',b+'.ll'],'compile '+f)
        st={}; t=open(b+'.ll').read(); r=rw.rewrite(t,st); open(b+'.r.ll','w').write(r)
        need(['clang++','-O1',*[x for x in fl if not x.startswith('-D')],'-w','-c',b+'.r.ll','-o',b+'.o'],'compile '+b)
        inf={}
        if v=='sym' and f.startswith(REPO): inf[os.path.basename(f)]=dict(functions=len(re.findall(r'^define ',t,re.M)),fp_operations_encoded=sum(st.values()))
        k=hashlib.sha256((hdr+v+f+REPO+'()').encode()+open(f,'rb').read()).hexdigest()[:24]; json.dump(inf,open(oc+'/'+k+'.o.info','w'))
        return b+'.o'
    @cached
    def nat(f,v):
        fl=['-O3'] if v=='nat' else ['-O1','-g']+SAN; b=tmp+'/'+v+'_'+os.path.basename(f)[:-4]+'.o'
        need(['g++','-std=c++11','-w',*fl,*inc,'-c',f,'-o',b],'compile '+f); return b
    def rt(f,out,fl):
        k=hashlib.sha256((hdr+str(fl)).encode()+open(f,'rb').read()).hexdigest()[:24]; o=oc+'/'+k+'.o'
        if os.path.exists(o): return o
        need(['g++','-O2','-std=c++17','-w',*fl,'-I'+V+'/engine','-c',f,'-o',out],'compile '+f); os.replace(out,o); return o
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs={}
        big=lambda f: -os.path.getsize(f)
        if any(v.startswith('sym') for v in todo): rts=ex.submit(rt,V+'/engine/symrt.cpp',tmp+'/symrt.o',['-I'+Z3D+'/include'])
        for v in todo:
            if v.startswith('nat'): objs.setdefault(v,[]).append(ex.submit(rt,V+'/engine/concrete.cpp',tmp+'/'+v+'_concrete.o',[]))
        for f in sorted(srcs()+harn(),key=big):
            for v in sorted(todo): objs.setdefault(v,[]).append(ex.submit(sym if v.startswith('sym') else nat,f,v))
        try: res={v:[o.result() for o in objs[v]] for v in todo}; srt=rts.result() if any(v.startswith('sym') for v in todo) else None
        except Broken: raise
        for v in todo:
            san=['-fsanitize=address'] if v.endswith('san') else []
            if v.startswith('sym'): cmd=['clang++',*san,srt,*res[v],'-o',tmp+'/'+v+'.bin','-L'+Z3D+'/lib','-lz3','-Wl,-rpath,'+Z3D+'/lib','-lgmpxx','-lgmp']
            else: cmd=['g++',*san,*res[v],'-o',tmp+'/'+v+'.bin']
            need(cmd,'link '+v); os.replace(tmp+'/'+v+'.bin',d+'/'+v+'.bin')
    if info: json.dump(info,open(d+'/info.json','w'))
    shutil.rmtree(tmp,ignore_errors=True)
    return d
ENV=dict(os.environ,ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0',LC_ALL='C')
# ------------------------------------------------------------------ jobs
from jobdef import J
def parse_out(f):
    viol=[]; st={}; reach=[]; notes=[]; eng=[]; cur=None; samp=None
    for l in open(f,errors='replace'):
        l=l.rstrip('\n')
        if l=='VIOLATION': cur={'kind':'','msg':'','model':[]}; continue
        if cur is not None:
            if l=='END': viol.append(cur); cur=None
            elif l.startswith('kind '): cur['kind']=l[5:]
            elif l.startswith('msg '): cur['msg']=l[4:]
            else: cur['model'].append(l)
            continue
        if l.startswith('STATS '):
            w=l.split()[1:]; st={w[i]:float(w[i+1]) for i in range(0,len(w)-1,2)}
        elif l.startswith('REACH '): reach.append(l[6:])
        elif l.startswith('NOTE '): notes.append(l[5:])
        elif l.startswith('ENGINE_ERROR'): eng.append(l)
    return dict(viol=viol,st=st,reach=reach,notes=notes,eng=eng)
def run_one(d,j,part,tmp,fresh=False,tmax=None):
    b=d+('/symsan.bin' if j.san else '/sym.bin'); out=tmp+'/o%d'%(abs(hash((j.key(),part,fresh)))%10**12)
    t=min(j.t,tmax) if tmax else j.t
    cmd=[b,j.h,'--out',out,'--time',str(t),'--samples',str(j.samples),'--qto',str(j.qto)]
    if j.parts>1: cmd+=['--part','%d/%d'%(part,j.parts)]
    if fresh: cmd+=['--freshpaths']
    try: p=subprocess.run(cmd+j.args,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,timeout=t+60,env=ENV,cwd=tmp,text=True,errors='replace')
    except subprocess.TimeoutExpired: r=parse_out(out); r['eng'].append('timeout'); r['out']=out; return r
    if not os.path.exists(out): return dict(viol=[],st={},reach=[],notes=[],eng=['no output: '+p.stderr[-300:]],out=out)
    r=parse_out(out); r['out']=out
    if not r['st'] and not r['eng']: r['eng'].append('no statistics: '+p.stderr[-300:])
    if r['eng']: r['stderr']=p.stderr[-500:]
    return r
def replay_native(d,j,v,tmp):
    mf=tmp+'/m%d'%(abs(hash((j.key(),v['msg'],str(v['model']))))%10**12)
    open(mf,'w').write('\n'.join(v['model'])+'\n')
    for b in ('nat','natsan'):
        try: p=subprocess.run([d+'/'+b+'.bin','replay',j.h,mf]+j.args,stdout=subprocess.PIPE,stderr=subprocess.PIPE,timeout=60,env=ENV,cwd=tmp,text=True,errors='replace')
        except subprocess.TimeoutExpired: return b,'does not terminate',''
        if p.returncode==1: return b,p.stdout.strip()[-300:],p.stderr[-3000:]
        if p.returncode not in(0,9) : # crash or sanitizer report
            m=re.search(r'(ERROR: AddressSanitizer[^\n]*|Error: [^\n]*|terminate called[^\n]*|what\(\)[^\n]*)',p.stderr)
            return b,'crash (exit %d) %s'%(p.returncode,m.group(1) if m else ''),p.stderr[-3000:]
        if p.returncode==9: raise Broken('native runtime lacks harness '+j.h)
    return None,'',p.stderr[-2000:]
def validate(d,j,out,tmp):
    try: p=subprocess.run([d+'/nat.bin','validate',j.h,out]+j.args,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,timeout=300,env=ENV,cwd=tmp,text=True,errors='replace')
    except subprocess.TimeoutExpired: return 0,0,['timeout']
    m=re.search(r'VALIDATED (\d+) bad (\d+)',p.stdout)
    return (int(m.group(1)),int(m.group(2)),re.findall(r'MISMATCH[^\n]*(?:\n   [^\n]*)*',p.stdout)[:2]) if m else (0,0,['validator exit %d'%p.returncode])
def known():
    f=V+'/known_findings.json'
    return json.load(open(f)) if os.path.exists(f) else []
def check(prop,tier):
    import jobs
    spec=jobs.PROPS[prop]; js=list(spec['quick']()); 
    if tier=='thorough' and 'thorough' in spec: js+=list(spec['thorough']())
    budget=float(os.environ.get('STLROM_BUDGET', 660 if tier=='quick' else 7200))
    variants=['nat','natsan']+sorted({'symsan' if j.san else 'sym' for j in js})
    d=build(variants); log('built',d)
    tmp=d+'/run%d'%os.getpid(); os.makedirs(tmp,exist_ok=True); rep=V+'/evidence/replay'; os.makedirs(rep,exist_ok=True)
    kf=[k for k in known() if k.get('property')==prop and k.get('status')=='known']
    tot={}; confirmed=[]; unconf=[]; knownhit={}; engine=[]; incomplete=[]; samples=[]; mism=[]; nval=0; vac=[]; notes=set(); funcs={}
    stop=threading.Event(); lock=threading.Lock()
    def task(j,part):
        if stop.is_set(): return
        left=budget-(time.time()-T0)
        if left<5: 
            with lock: incomplete.append(j.key()); return
        r=run_one(d,j,part,tmp,tmax=left)
        if r['eng']:
            r2=run_one(d,j,part,tmp,fresh=True,tmax=max(5,budget-(time.time()-T0)))
            if not r2['eng']: r=r2
        nv=(0,0,[])
        if not r['viol'] and not r['eng']: nv=validate(d,j,r['out'],tmp)
        for v in r['viol']:
            k=next((k for k in kf if k['job']==j.key() and k['msg']==v['msg'] or (k['job']==j.key() and v['kind']!='assert' and k.get('kind')==v['kind'])),None)
            try: b,what,detail=replay_native(d,j,v,tmp)
            except Broken as e:
                with lock: engine.append(str(e)); continue
            with lock:
                if b is None: unconf.append(dict(job=j.key(),kind=v['kind'],msg=v['msg'],model=v['model'])); continue
                if k: knownhit[k['id']]=k; continue
                f='%s/%s-%d.json'%(rep,prop,len(confirmed)); confirmed.append(f)
                json.dump(dict(property=prop,harness=j.h,args=j.args,kind=v['kind'],message=v['msg'],model=v['model'],reproduced_on=b,native_report=what,native_log=detail.split('\n')[-40:]),open(f,'w'),indent=1)
                log('violated: %s | %s | %s | native: %s'%(j.key(),v['msg'],' '.join(x[2:].replace(' ','=') for x in v['model'][:14]),what))
                stop.set()
        with lock:
            for a,x in r['st'].items(): tot[a]=max(tot.get(a,0),x) if a in('maxdepth','wall','done') else tot.get(a,0)+x
            nonlocal nval; nval+=nv[0]
            if nv[1] or (nv[2] and not nv[0]): mism.append(dict(job=j.key(),bad=nv[1],of=nv[0],first=nv[2][:1]))
            if r['eng']: engine.append(j.key()+': '+'; '.join(r['eng'])+r.get('stderr',''))
            elif not r['st'].get('done') and not r['viol']: incomplete.append(j.key()+(' part %d/%d'%(part,j.parts) if j.parts>1 else ''))
            for x in r['notes']: notes.add(x)
            reached.setdefault(j.key(),set()).update(r['reach'])
            samples.append(dict(job=j.key(),paths=int(r['st'].get('paths',0)),assertions=int(r['st'].get('asserts',0)),queries=int(r['st'].get('queries',0)),wall_s=round(r['st'].get('wall',0),2)))
            if os.environ.get('STLROM_VERBOSE'): log(j.key(),{k:r['st'].get(k) for k in('paths','asserts','discharged','undecided','wall','done')},'val',nv[:2])
        if os.path.exists(r['out']): os.unlink(r['out'])
    reached={}
    todo=[(j,p) for j in js for p in range(j.parts)]
    todo.sort(key=lambda x:-x[0].t)
    with cf.ThreadPoolExecutor(NCPU) as ex: 
        for fu in [ex.submit(task,*x) for x in todo]: fu.result()
    if not confirmed:
        for j in js:
            if j.key() in reached and not any(j.key() in x for x in incomplete+engine) and not any(k['job']==j.key() for k in kf):
                for l in j.reach:
                    if l not in reached[j.key()]: vac.append(j.key()+' never reached '+l)
    shutil.rmtree(tmp,ignore_errors=True)
    try: funcs=json.load(open(d+'/info.json'))
    except Exception: funcs={}
    cov=dict(states=int(tot.get('paths',0)),transitions=int(tot.get('decisions',0)),traces_validated_against_impl=nval,samples=sorted(samples,key=lambda s:-s['wall_s'])[:60],
        meaning='states: feasible symbolic paths explored (each a solver-delimited class of inputs); transitions: branch decisions taken on symbolic values; traces_validated: path models executed on the ordinary build with equal outputs',
        jobs=len(js),assertions_checked=int(tot.get('asserts',0)),assertions_discharged=int(tot.get('discharged',0)),assertions_undecided=int(tot.get('undecided',0)),
        solver_queries=int(tot.get('queries',0)),solver_unsat=int(tot.get('unsat',0)),solver_sat=int(tot.get('sat',0)),solver_unknown=int(tot.get('unknown',0)),solver_s=round(tot.get('solver',0),2),
        paths_with_exact_double_arithmetic=int(tot.get('exactpaths',0)),bounds=spec['bounds'],outside=spec.get('outside',''),bounds_exhausted=not incomplete and not engine,not_exhausted=incomplete[:40],
        functions_encoded=funcs,validation_mismatches=mism[:10],unconfirmed_counterexamples=unconf[:10],engine_notes=sorted(notes)[:20],engine_errors=engine[:10],known_findings=[k['id'] for k in knownhit.values()],reachability={k:sorted(v) for k,v in list(reached.items())[:200]})
    ev=dict(property=prop,tier=tier,seed=int(os.environ.get('VERIF_SEED','1')),level='model_checking',coverage=cov,assumptions=spec.get('assumptions',[])+COMMON_ASSUMPTIONS,wall_s=round(time.time()-T0,2),violations=len(confirmed))
    os.makedirs(V+'/evidence',exist_ok=True); json.dump(ev,open(V+'/evidence/%s.json'%prop,'w'),indent=1)
    for k in kf:
        if k['id'] in knownhit: print('KNOWN-FINDING: property=%s %s'%(prop,k['what']))
        else: log('note: known finding %s did not show up'%k['id'])
    log('%s %s: %d jobs, %d paths, %d/%d assertions discharged, %d queries (%.1fs solver), %d native validations, %d mismatches, incomplete %d, unconfirmed %d'%(prop,tier,len(js),cov['states'],cov['assertions_discharged'],cov['assertions_checked'],cov['solver_queries'],cov['solver_s'],nval,len(mism),len(incomplete),len(unconf)))
    for x in incomplete[:10]: log('  not exhausted:',x)
    for x in mism[:5]: log('  mismatch:',x)
    for x in unconf[:5]: log('  unconfirmed:',x)
    for x in sorted(notes)[:5]: log('  engine note:',x)
    if confirmed:
        for f in confirmed[:5]: print('VIOLATION property=%s replay=%s'%(prop,f))
        return 1
    if engine or vac:
        for x in engine+vac: print('ERROR',x)
        return 2
    return 0
COMMON_ASSUMPTIONS=['C++ doubles are modelled as exact reals (rational functions of the inputs); the effect of rounding is outside the claim, except that sampled path models are executed on the ordinary build and compared',
 'memory, integers, strings, control flow, exceptions and library calls execute natively as compiled by clang; only floating-point values are symbolic',
 'numbers printed to text and read back are exact for symbolic values (token stub for operator<< / operator>> on double)',
 'every reported violation was reproduced on a g++ build of the real sources']
def main():
    a=sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0]=='setup':
        d=build(['sym','nat']); log('built',d); return 0
    if a[0]=='replay':
        r=json.load(open(a[1])); d=build(['nat','natsan']); j=J(r['harness']); j.args=r['args']; tmp=d+'/r%d'%os.getpid(); os.makedirs(tmp)
        b,w,det=replay_native(d,j,dict(msg='',model=r['model']),tmp); shutil.rmtree(tmp); print(det); print('on',b,':',w); return 1 if b else 0
    if a[0]=='job':
        kw=dict(x.split('=',1) for x in a[2:]); j=J(a[1],san=bool(int(kw.pop('san','0'))),t=float(kw.pop('t','60')),parts=int(kw.pop('parts','1')),samples=int(kw.pop('samples','25'))); j.args=['%s=%s'%x for x in kw.items()]
        d=build(['nat','natsan','symsan' if j.san else 'sym']); tmp=d+'/j%d'%os.getpid(); os.makedirs(tmp)
        try:
            for p in range(j.parts):
                r=run_one(d,j,p,tmp); print({k:v for k,v in r['st'].items() if v}); print('reach',r['reach'],'notes',r['notes'],'eng',r['eng'],r.get('stderr',''))
                for v in r['viol'][:3]:
                    b,w,det=replay_native(d,j,v,tmp); print('VIOL',v['kind'],v['msg'],'|',' '.join(x[2:].replace(' ','=') for x in v['model']),'| native',b,w)
                    if os.environ.get('STLROM_VERBOSE'): print(det)
                if not r['viol'] and not r['eng']: print('validate',validate(d,j,r['out'],tmp))
        finally: shutil.rmtree(tmp)
        return 0
    if a[0]=='batch':      # development: one job per line on stdin
        import shlex
        d=build(['nat','natsan','sym']); tmp=d+'/b%d'%os.getpid(); os.makedirs(tmp)
        def one(l):
            w=shlex.split(l); kw=dict(x.split('=',1) for x in w[1:]); j=J(w[0],t=float(kw.pop('T','60'))); san=kw.pop('san',None); j.args=['%s=%s'%x for x in kw.items()]
            try:
                r=run_one(d,j,0,tmp); o='%-9s'%('VIOL' if r['viol'] else 'ENGINE' if r['eng'] else 'ok' if r['st'].get('done') else 'TIMEOUT')+'%6d paths %5.1fs und %d  %s'%(r['st'].get('paths',0),r['st'].get('wall',0),r['st'].get('undecided',0),l)
                if 'end' not in r['reach']: o+='  NOT REACHED'
                if r['notes'] or r['eng']: o+='\n     '+str(r['notes'])+str(r['eng'])+r.get('stderr','')
                for v in r['viol'][:2]:
                    b,w,det=replay_native(d,j,v,tmp); o+='\n     '+v['kind']+' '+v['msg']+' | '+' '.join(x[2:].replace(' ','=') for x in v['model'])[:400]+' | native '+str(b)+' '+w
                if not r['viol'] and not r['eng']:
                    vv=validate(d,j,r['out'],tmp)
                    if vv[1] or not vv[0]: o+='\n     validation '+str(vv)
            except Exception as e: o='EXC '+repr(e)+l
            print(o,flush=True)
        with cf.ThreadPoolExecutor(NCPU) as ex: list(ex.map(one,[l.strip() for l in sys.stdin if l.strip()]))
        shutil.rmtree(tmp); return 0
    tier=a[1] if len(a)>1 else os.environ.get('VERIF_TIER','quick')
    try: return check(a[0],tier)
    except Broken as e: print('ERROR',e); return 2
if __name__=='__main__':
    try: sys.exit(main())
    except Broken as e: print('ERROR',str(e)[:1500]); sys.exit(2)
