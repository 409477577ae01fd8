#!/usr/bin/env python3
"""Rewrite the floating-point operations of a textual LLVM module (clang -O0/-O1
-disable-llvm-passes output) into calls of the symbolic runtime.  Everything else
(memory, integers, control flow, calls, exceptions) stays native: a symbolic double
travels as a NaN-boxed handle in its ordinary 64 bits."""
import re, sys
PRED = {'oeq':1,'ogt':2,'oge':3,'olt':4,'ole':5,'one':6,'ord':7,'uno':8,'ueq':9,'ugt':10,'uge':11,'ult':12,'ule':13,'une':14}
BIN = {'fadd','fsub','fmul','fdiv'}
FLAGS = r'(?:(?:fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )*'
V = r'([^,\s]+)'
re_bin = re.compile(r'^(\s*%\S+ = )(fadd|fsub|fmul|fdiv|frem) '+FLAGS+r'double '+V+r', ([^,\s]+)(.*)$')
re_neg = re.compile(r'^(\s*%\S+ = )fneg '+FLAGS+r'double ([^,\s]+)(.*)$')
re_cmp = re.compile(r'^(\s*%\S+ = )fcmp '+FLAGS+r'(\w+) double '+V+r', ([^,\s]+)(.*)$')
re_toi = re.compile(r'^(\s*%\S+ = )(fptosi|fptoui) double ([^,\s]+) to (i\d+)(.*)$')
re_ext = re.compile(r'^(\s*%\S+ = )fptrunc double ([^,\s]+) to (float)(.*)$')
re_call = re.compile(r'@(llvm\.[a-z0-9._]+)\(')
CALLMAP = {
 'llvm.fabs.f64':'__sym_fabs','llvm.maxnum.f64':'__sym_fmax','llvm.minnum.f64':'__sym_fmin',
 'llvm.maximum.f64':'__sym_fmax','llvm.minimum.f64':'__sym_fmin','llvm.fmuladd.f64':'__sym_fma',
 'llvm.fma.f64':'__sym_fma','llvm.floor.f64':'__sym_floor','llvm.ceil.f64':'__sym_ceil',
 'llvm.is.fpclass.f64':'__sym_fpclass','llvm.sqrt.f64':'__sym_unsup1','llvm.copysign.f64':'__sym_copysign'}
LIBM = {'fmax':'__sym_fmax','fmin':'__sym_fmin','fabs':'__sym_fabs','floor':'__sym_floor','ceil':'__sym_ceil',
 'fma':'__sym_fma','pow':'__sym_unsup2','sqrt':'__sym_unsup1','exp':'__sym_unsup1','log':'__sym_unsup1',
 'sin':'__sym_unsup1','cos':'__sym_unsup1','fmod':'__sym_unsup2','round':'__sym_unsup1','trunc':'__sym_unsup1',
 'nextafter':'__sym_unsup2','copysign':'__sym_copysign','fdim':'__sym_unsup2','hypot':'__sym_unsup2',
 'strtod':'__sym_strtod','atof':'__sym_atof','lround':'__sym_unsupi','lrint':'__sym_unsupi',
 '_ZNSolsEd':'__sym_os_double','_ZNSo9_M_insertIdEERSoT_':'__sym_os_double','_ZNSirsERd':'__sym_is_double',
 '_ZNSi10_M_extractIdEERSiRT_':'__sym_is_double'}
DECLS = '''
declare double @__sym_fadd(double, double)
declare double @__sym_fsub(double, double)
declare double @__sym_fmul(double, double)
declare double @__sym_fdiv(double, double)
declare double @__sym_frem(double, double)
declare double @__sym_fneg(double)
declare zeroext i1 @__sym_fcmp(i32, double, double)
declare i64 @__sym_fptosi(double)
declare double @__sym_guard(double)
declare double @__sym_atof(ptr)
declare double @__sym_strtod(ptr, ptr)
'''
def rewrite(text, stats=None):
    out=[]; n=0; used=set()
    stats = stats if stats is not None else {}
    def cnt(k): stats[k]=stats.get(k,0)+1
    for line in text.split('\n'):
        m=re_bin.match(line)
        if m:
            cnt(m.group(2)); out.append(f'{m.group(1)}call double @__sym_{m.group(2)}(double {m.group(3)}, double {m.group(4)})'); continue
        m=re_neg.match(line)
        if m:
            cnt('fneg'); out.append(f'{m.group(1)}call double @__sym_fneg(double {m.group(2)})'); continue
        m=re_cmp.match(line)
        if m:
            cnt('fcmp')
            if m.group(2) in('true','false'): out.append(line); continue
            out.append(f'{m.group(1)}call zeroext i1 @__sym_fcmp(i32 {PRED[m.group(2)]}, double {m.group(3)}, double {m.group(4)})'); continue
        m=re_toi.match(line)
        if m:
            cnt('fptosi'); n+=1
            tmp=f'%__symtoi{n}'
            out.append(f'  {tmp} = call i64 @__sym_fptosi(double {m.group(3)})')
            ty=m.group(4)
            if ty=='i64': out.append(f'{m.group(1)}add i64 {tmp}, 0')
            else: out.append(f'{m.group(1)}trunc i64 {tmp} to {ty}')
            continue
        m=re_ext.match(line)
        if m:
            n+=1; cnt('fptrunc'); tmp=f'%__symg{n}'
            out.append(f'  {tmp} = call double @__sym_guard(double {m.group(2)})')
            out.append(f'{m.group(1)}fptrunc double {tmp} to float{m.group(4)}'); continue
        if re.search(r'= (fadd|fsub|fmul|fdiv|frem|fneg|fcmp|fptosi|fptoui|fptrunc) [^=]*<\d+ x double>', line):
            raise SystemExit('vector double operation not supported: '+line)
        if 'call' in line or 'invoke' in line or line.startswith('declare'):
            def rep(mm):
                nm=mm.group(1)
                tgt=CALLMAP.get(nm) or LIBM.get(nm)
                if tgt:
                    cnt('call '+nm); used.add(tgt); return '@'+tgt+'('
                return mm.group(0)
            line=re.sub(r'@([A-Za-z0-9_.]+)\(', rep, line)
        if '@strtod' in line: line=re.sub(r'@strtod\b','@__sym_strtod',line)
        out.append(line)
    t='\n'.join(out)
    # a rewritten declare may now be a duplicate / carry intrinsic-only attributes
    seen=set(); res=[]
    for line in t.split('\n'):
        if line.startswith('declare'):
            mm=re.search(r'@([A-Za-z0-9_.$]+)\(', line)
            if mm and mm.group(1).startswith('__sym_'):
                if mm.group(1) in seen: continue
                seen.add(mm.group(1))
                line=re.sub(r' #\d+\s*$','',line).replace(' immarg','')
        res.append(line)
    defined=set(re.findall(r'@(__sym_\w+)\(', '\n'.join(l for l in res if l.startswith('declare'))))
    extra='\n'.join(d for d in DECLS.strip().split('\n') if re.search(r'@(\w+)\(',d).group(1) not in defined)
    return '\n'.join(res)+'\n'+extra+'\n'
if __name__=='__main__':
    import json
    st={}
    src=open(sys.argv[1]).read()
    open(sys.argv[2],'w').write(rewrite(src,st))
    if len(sys.argv)>3: json.dump(st,open(sys.argv[3],'w'))
