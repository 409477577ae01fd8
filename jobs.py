"""What each property's check decides: the list of symbolic-execution jobs (harness + configuration) for the quick and thorough tiers.
Trace inputs (values, times where times are not listed, interval bounds $a/$b, constants $c, parameters @p) are solver variables."""
from jobdef import J
from shapes import shapes2,top,subs,untils,LV
X='x'; XY='x,y'
def rho(f,sigs=X,**k): k.setdefault('what','rho,side'); k.setdefault('n',3); k.setdefault('t0','sym'); return J('rho',f=f,sigs=sigs,**k)
def sig(f,sigs=X,**k): k.setdefault('n',3); k.setdefault('t0','sym'); return J('getsig',f=f,sigs=sigs,**k)
def onl(f,sigs=X,**k): k.setdefault('n',3); k.setdefault('t0','0'); return J('online',f=f,sigs=sigs,**k)
def noi(f,sigs=X,**k): k.setdefault('n',2); return J('noinfo',f=f,sigs=sigs,**k)
def met(rel,f,sigs=X,**k): k.setdefault('n',3); return J('meta',rel=rel,f=f,sigs=sigs,**k)
def ses(f,ops,**k): k.setdefault('n',3); k.setdefault('t',150); return J('session',f=f,ops=ops,**k)
def par(f,**k): k.setdefault('n',3); return J('params',f=f,**k)
def twi(op,f,**k): k.setdefault('t',100); return J('twins',op=op,f=f,**k)
def gram(text,f,**k): return J('gram',text=text,f=f,**k)
L=dict(mode='L'); LT=dict(mode='L',times='0,1,3')
A='(> x 1)'; Bq='(> y 0)'
# every shape of operator depth two (shapes.py): two choices of intervals, the second with windows that leave gaps
S1=shapes2('0.5 1','0 1.5'); S2=shapes2('0 2','1 1.5'); S3=shapes2('0 1','0.5 1'); SP=shapes2('0.5 1','0 1.5',['(> x @p)']+LV[1:]); SC=shapes2('0 1','0.5 1',['(> x @p)']+LV[1:])
T3=dict(times='0,1,2.5')
def SMALL(f): return not untils(f) or untils(f)==1 and (top(f)=='not' or top(f)=='until' and subs(f)[0] in('not','ev','alw') or top(f) in('ev','alw'))
# ---------------------------------------------------------------- C01 predicates
ATOMS=[('(> x 1)',X),('(< x $c)',X),('(> x y)',XY),('(< y x)',XY),('(> (+ x y) 1)',XY),('(> (- x y) $c)',XY),('(> (* 2 x) 1)',X),('(> (* x -3) (* 2 y))',XY),('(< (+ x 3) (- y 1))',XY),('(> (- 2 x) (* $c 1))',X),('(> (- (- x y) z) (- x (- y z)))','x,y,z'),('(> (+ z (* 2 y)) (- x 1))','x,y,z'),('(> @p x)',X)]
NONLIN=[('(> (* x y) 1)',XY),('(> (abs x) 1)',X),('(< (abs (- x y)) (+ y 2))',XY),('(> (* x (+ y 2)) (* y y))',XY),('(> (* (abs x) 2) (- y 1))',XY),('(> (* @p x) (* y @q))',XY)]
def c01():
    r=[]
    for f,s in ATOMS:
        r+=[rho(f,s,n=4),sig(f,s,n=3),rho(f,s,n=3,**L),sig(f,s,n=3,**L)]
    for f,s in NONLIN: r+=[rho(f,s,n=3,range=50),sig(f,s,n=3,range=50),rho(f,s,n=3,range=50,t0='1',times='0,1,3',mode='L')]
    r+=[rho('(ev 0.5 1 (> (+ x y) 1))',XY,t0='0'),rho('(alw 0.5 1 (> (abs x) y))',XY,t0='0'),rho('(ev 0.5 1 (> (* 2 x) y))',XY,t0='0',**LT),sig('(ev 0.5 1 (> (- x (* 3 y)) 1))',XY,t0='0',times='0,1,2.5',mode='L'),
        rho('(> (+ x y) 1)',XY,n=12,times='*0.5',symx='3,8',thi=6),rho('(> (- x y) 1)',XY,n=12,times='*0.5',symx='3,8',**L)]
    return r
def c01t(): return [x for f,s in ATOMS for x in (rho(f,s,n=6,t=300),sig(f,s,n=4,t=600),rho(f,s,n=5,t=600,**L))]+[rho(f,s,n=4,range=50,t=600) for f,s in NONLIN]
# ---------------------------------------------------------------- C02 boolean connectives
BOOL=[('(not (> x 1))',X),('(and (> x 1) (> y 0))',XY),('(or (> x 1) (> y 0))',XY),('(=> (> x 1) (> y 0))',XY),('(not (and (> x 1) (not (< y x))))',XY),('(or (and (> x 1) (> y 0)) (not (> x y)))',XY),('(=> (or (> x 1) (> y 0)) (and (< x 3) (< y 3)))',XY)]
def c02():
    r=[]
    for f,s in BOOL: r+=[rho(f,s),sig(f,s,t=200) if f.count('(')<6 else sig(f,s,n=2),rho(f,s,t=200,**LT)]
    r+=[sig(f,s,t=200,**LT) for f,s in BOOL[:4]]
    r+=[J('sigop',op=o,n=3) for o in('not','and','or','implies')]+[J('sigop',op='and',n=2,begin='sym',tail=1,t=100),J('sigop',op='not',n=3,mode='L')]
    r+=[J('sigop',op=o,mode='L',times='0,1,3',timesy=ty) for o in('and','or','implies') for ty in('0,2,3','0,2,4')]
    r+=[rho('(and (> x 1) (> y 0))',XY,n=10,times='*0.5',symx='3,6'),rho('(or (> x 1) (> y 0))',XY,n=10,times='*0.5',symx='3',t0='1.75',**L)]
    r+=[rho('(and (> x 1) (and (> y 0) (> z 2)))','x,y,z'),rho('(or (and (> x 1) (> y 0)) (and (> z 2) (> y x)))','x,y,z',n=2)]
    r+=[j for f in shapes2(ops=['not','and','or','=>']) for j in(sig(f,XY,t=100),rho(f,XY,t=100,**LT))]
    return r
def c02t(): return [sig(f,s,n=4,t=1500) for f,s in BOOL[:4]]+[rho(f,s,n=4,times='0,1,2,4',mode='L',t=1500) for f,s in BOOL]+[J('sigop',op=o,n=4,t=900) for o in('and','or','implies')]
# ---------------------------------------------------------------- C03 eventually / always
def c03():
    r=[]
    for o in('ev','alw'):
        r+=[rho('(%s 0.5 1 (> x 1))'%o,n=5),rho('(%s $a $b (< x $c))'%o,n=4),rho('(%s 1 1 (> x 1))'%o,n=4),rho('(%s 0 0 (> x 1))'%o,n=4),rho('(%s 0 2 (> x y))'%o,XY),
            rho('(%s 0 2.5 (> x 1))'%o,n=6,t=120),rho('(%s 1.5 2 (> x 1))'%o,n=5,t=120),rho('(%s 0.5 1 (> x 1))'%o,n=3,**L),rho('(%s $a $b (> x 1))'%o,**LT),rho('(%s 0.5 2 (> x 1))'%o,times='0,1,3,4',mode='L'),
            rho('(%s 0.5 2 (> x 1))'%o,n=10,times='*0.5',symx='2,5,8'),rho('(%s 1 3 (> x 1))'%o,n=12,times='*0.5',symx='3,5,9',t0='0.25'),rho('(%s 1 3 (> x 1))'%o,n=12,times='*0.5',symx='3,5,9',t0='0.25',mode='L'),
            rho('(%s 10 50 (> x 1))'%o,times='0,20,40,60',n=4,tmax=80),rho('(%s 0.5 1 (not (> x 1)))'%o,n=4),sig('(%s 0.5 1 (> x 1))'%o,n=4,t=120),sig('(%s 0 2 (> x 1))'%o,n=4,t=120),sig('(%s 0.5 1 (> x 1))'%o,t0='0',**LT),
            rho('(%s @a @b (> x 1))'%o,n=3),J('sigop',op=o,n=4),J('sigop',op=o,mode='L',times='0,1,3'),rho('(%s 0.5 2 (> x 1))'%o,n=20,times='*0.25',symx='4,7,9',t0='0')]
    r+=[sig('(%s 2 3 (> x 1))'%o,**k) for o in('ev','alw') for k in({},dict(mode='L',times='0,2,4'))]
    r+=[rho('(ev 0.5 1 (and (> x 1) (> y 0)))',XY),rho('(alw 0.5 1 (or (> x 1) (> y 0)))',XY),rho('(ev 0.5 1 (and (> x 1) (> y 0)))',XY,t=200,**LT),rho('(alw 0.5 1 (or (> x 1) (> y 0)))',XY,t=200,**LT),
        rho('(and (ev 0.5 1 (> x 1)) (alw 0 1 (> y 0)))',XY),rho('(not (ev 0.5 1 (> x 1)))',n=4),rho('(ev 0.5 1 (> x 1))',n=4,via='monitor')]
    return r
def c03t(): return [x for o in('ev','alw') for x in (rho('(%s $a $b (> x 1))'%o,n=6,t=900),rho('(%s 0.5 2 (> x 1))'%o,n=7,t=900),rho('(%s $a $b (> x 1))'%o,n=4,times='0,1,2,4',mode='L',t=900),rho('(%s $a $b (> x 1))'%o,n=3,mode='L',t=900),sig('(%s $a $b (> x 1))'%o,n=4,t=900),rho('(%s 0.5 3 (> x 1))'%o,n=24,times='*0.25',symx='4,9,11,12,15',t0='0',t=900))]
# ---------------------------------------------------------------- C04 until
U='(until %s (> x 1) (> y 0))'
def c04():
    return [rho(U%'0.5 1',XY,t=150),rho(U%'$a $b',XY,t0='0',t=150),rho(U%'0 0',XY),rho(U%'1 1',XY),rho(U%'0 1',XY,t0='0'),rho(U%'0 2',XY,times='0,0.5,1.5,2.5',t0='0'),rho(U%'0.5 2',XY,times='0,0.5,1.5,3'),
        rho(U%'0.5 2',XY,t0='0',t=200,**LT),rho(U%'0 1',XY,t=200,**LT),rho('(until 0.5 2 (not (> x 1)) (and (> y 0) (> x 0)))',XY,t0='0',times='0,1,3'),rho(U%'1 3',XY,n=10,times='*0.5',symx='3,6',t0='0'),
        rho(U%'0.5 2',XY,n=8,times='*0.5',symx='3',t0='0.75',mode='L',t=120),rho(U%'2 3',XY,times='0,1,2,4',t0='0'),rho('(until 0.5 1 (> x 1) (> x 3))',n=4,t0='0',t=120),rho('(not %s)'%(U%'0.5 1'),XY,t0='0'),
        rho(U%'@a @b',XY,times='0,1,4',t0='0',t=200),rho(U%'10 50',XY,times='0,20,40,60',t0='0',tmax=80),sig(U%'0 1',XY,t0='0',t=150),sig(U%'0.5 1',XY,times='0,0.5,1.5,3',t0='0',t=200),sig(U%'0.5 1',XY,times='0,0.5,2',t=100),
        J('sigop',op='until',n=3),J('sigop',op='until',n=3,m=2,tail=1,t=200),rho(U%'0.5 1',XY,t0='0',via='monitor'),rho('(and %s (> x 0))'%(U%'0.5 1'),XY,t0='0'),rho(U%'0 1.5',XY,times='0,0.25,0.5,1,2',n=5,t0='0',t=150)]+[J('compose',f=f,sigs=XY,n=3,t0='0',mode='L',t=300,**T3) for f in S1 if top(f)=='until' and untils(f)==1]+[rho(f,XY,t0='0',times='0,1,4') for f in S2 if top(f)=='until']
def c04t(): return [rho(U%'0.5 1',XY,n=4,t0='0',t=3000,parts=8),rho(U%'$a $b',XY,times='0,0.5,1.5,4',t=1500),rho(U%'0.5 2',XY,n=10,times='*0.5',symx='3,6',t0='0.75',mode='L',t=900),sig(U%'0.5 1',XY,t=1500),rho(U%'0 2',XY,times='0,0.5,1,1.5,2.5',t=1500)]
# two repaired defects that only rounding triggers: replays of the failing inputs (not solver-decided; the encoding has no rounding)
ROUND=[J('regress',f='(alw 1 2.5 (until 1 2.5 (not (< x -2)) (< x -2)))',t0=1.5,times='0,0.5,1.5,2.5,3,5,6,8',vals='-4,1,-5,-2,2,-5,1,4',expect=-3),J('regress',f='(alw 0.5 2 (until 0.5 2 (> x 3) (< x 4)))',times='0,1,3,4,5',vals='4,5,-5,0,2',expect=-5.5)]
# ---------------------------------------------------------------- C05 nesting
def c05():
    r=[rho('(ev 0 1 (alw 0.5 1 (> x 1)))',n=4),rho('(alw 0 1 (ev 0.5 1 (> x 1)))',n=4),rho('(ev 0 1 (ev 0.5 1 (> x 1)))',n=4),rho('(alw 0.5 1 (alw 0 1 (> x 1)))',n=4),rho('(ev 0 1 (not (alw 0 1 (> x 1))))',n=4),
       rho('(ev $a 1 (alw 0 $b (> x 1)))',t=120),rho('(alw 0 1 (=> (> x 1) (ev 0.5 1 (> y 1))))',XY,t0='0'),rho('(alw 0 1 (=> (> x 1) (ev 0.5 1 (> y 1))))',XY,times='0,1,2.5'),
       rho('(ev 0 1 (and (> x 1) (alw 0 1 (> y 0))))',XY,t0='0'),rho('(alw 0 1 (or (ev 0 1 (> x 1)) (alw 0.5 1 (> y 0))))',XY,times='0,1,2.5',t0='0'),
       rho('(alw 0 1 (until 0.5 1 (> x 1) (> y 0)))',XY,times='0,0.5,1.5,2.5',t0='0',t=200),rho('(until 0 1 (ev 0 0.5 (> x 1)) (> y 0))',XY,times='0,0.5,1.5,2.5',t0='0',t=200),rho('(until 0 1 (> x 1) (alw 0 1 (> y 0)))',XY,times='0,0.5,1.5,2.5',t0='0',t=200),
       rho('(ev 0 1 (until 0 1 (> x 1) (> y 0)))',XY,t0='0',t=200),rho('(ev 0 1 (alw 0 1 (ev 0 1 (> x 1))))',times='0,0.5,1.5,3.5',t0='0'),rho('(ev 0 1 (alw 0 1 (ev 0 1 (> x 1))))',n=4,t0='0',t=200),
       rho('(ev 0 1 (alw 0 1 (> x 1)))',t=100,**LT),rho('(alw 0 1 (ev 0 1 (> x 1)))',t=100,**LT),rho('(alw 0 1 (=> (> x 1) (ev 0 1 (> y 0))))',XY,t0='0',t=200,**LT),rho('(alw 0.5 2 (ev 0 1 (> x 1)))',n=10,times='*0.5',symx='2,4,6',t0='0'),rho('(ev 0.5 2 (alw 0 1 (> x 1)))',n=10,times='*0.5',symx='2,4,6',t0='0',**L),
       sig('(ev 0 1 (alw 0.5 1 (> x 1)))',n=4,t=200),sig('(alw 0 1 (ev 0.5 1 (> x 1)))',times='0,1,3',t0='0',mode='L',t=100),rho('(and (ev 0 1 (alw 0 1 (> x 1))) (ev 1 2 (> y 0)))',XY,t0='0',t=200),rho('(ev 5 10 (alw 0 20 (> x 1)))',times='0,8,16,40',t0='0',tmax=50)]
    r+=[rho('(%s 0 1 (%s $a $b (> x 1)))'%(o,q),times='0,0.5,1.5,5',t0='0') for o in('ev','alw') for q in('ev','alw')]+[rho('(ev $a $b (alw 2 3 (> x 1)))',times='0,2.5,4,7',t0='0'),rho('(alw $a $b (ev $c $d (> x 1)))',times='0,2.5,8',t0='0'),rho('(ev 0 0.5 (alw 2 3 (> x 1)))',mode='L',times='0,1.5,2.5,4',t0='0'),rho('(alw 0 0.5 (ev 2 3 (> x 1)))',n=4,t0='0'),rho('(ev 0 1 (until $a $b (> x 1) (> y 1)))',XY,times='0,1,5',t0='0',t=150),rho('(alw 0 2 (ev 0 1 (> x 1)))',n=4),rho('(until 0 1 (alw 2 3 (> x 1)) (ev 1.5 2 (> y 1)))',XY,times='0,1.5,4',t0='0')]
    r+=[rho(f,XY,t0='0',**T3) for f in S1]+[rho(f,XY,t=100) for f in S2 if not untils(f) or top(f) in('not','and','or','=>')]
    r+=[rho(f,XY,t0='0',mode='L',t=100,**T3) for f in S1 if not untils(f)]+[J('compose',f=f,sigs=XY,n=3,t0='0',mode='L',t=300,**T3) for f in S1 if 'until' in subs(f) and top(f)!='until']
    return r+ROUND
def c05t(): return [rho(f,XY,t=600) for f in S1+S2]+[rho('(ev 0 1 (alw 0.5 1 (> x 1)))',n=5,t=900),rho('(ev $a $b (alw 0.5 1 (> x 1)))',n=4,t=1500),rho('(alw 0 1 (until 0.5 1 (> x 1) (> y 0)))',XY,t0='0',t=3000,parts=8),rho('(ev 0 1 (alw 0 1 (ev 0 1 (> x 1))))',n=5,t0='0',t=1500),rho('(until 0 1 (ev 0 0.5 (> x 1)) (> y 0))',XY,t0='0',t=3000,parts=8),rho('(alw 0 1 (=> (> x 1) (ev 0.5 1 (> y 1))))',XY,n=4,t0='0',t=3000,parts=8)]
# ---------------------------------------------------------------- C06 online bounds are sound / C08 they only tighten
def online(what):
    w=dict(what=what)
    r=[]
    for o in('ev','alw'): r+=[onl('(%s 0.5 1 (> x 1))'%o,n=5,t0='sym',**w),onl('(%s $a $b (> x 1))'%o,n=4,**w),onl('(%s 0 2 (< x y))'%o,XY,t0='sym',**w),onl('(%s 0.5 2 (> x 1))'%o,times='0,1,2.5,4',mode='L',t0='sym',**w),onl('(%s 1 1 (> x 1))'%o,n=4,t0='sym',**w),onl('(%s 0.5 2.5 (> x 1))'%o,n=12,times='*0.25',symx='3,6,8',**w)]
    r+=[onl('(> x 1)',n=4,t0='sym',**w),onl('(> x y)',XY,t0='sym',**L,**w),onl('(> (+ x (* 2 y)) 1)',XY,t0='sym',**w),onl('(not (ev 0.5 1 (> x 1)))',n=4,t0='sym',**w),
        onl('(ev 0 1 (alw 0.5 1 (> x 1)))',n=4,**w),onl('(alw 0 1 (ev 0.5 1 (> x 1)))',n=4,**w),onl('(ev 0 1 (alw 0 1 (> x 1)))',times='0,1,3',**L,**w),onl('(ev 0.5 2 (alw 0 1 (> x 1)))',n=8,times='*0.5',symx='2,5,6',**w),
        onl('(and (> x 1) (> y 0))',XY,t0='sym',**w),onl('(or (> x 1) (not (> y 0)))',XY,t0='sym',**w),onl('(and (ev 0 1 (> x 1)) (alw 0.5 1 (> y 1)))',XY,n=3,**w),onl('(or (ev 0 1 (> x 1)) (not (alw 0.5 1 (> y 1))))',XY,n=3,**w),onl('(=> (ev 0 1 (> x 1)) (alw 0.5 1 (> y 1)))',XY,n=3,**w),
        onl('(ev 0.5 1 (and (> x 1) (> y 0)))',XY,times='0,1,2.5,4',t0='sym',**w),onl('(alw 0.5 1 (or (> x 1) (> y 0)))',XY,t0='sym',n=3,**w),onl('(alw 0 1 (=> (> x 1) (ev 0.5 1 (> y 1))))',XY,times='0,0.5,1.5,3',t=150,**w),
        onl(U%'0.5 1',XY,t=100,**w),onl(U%'0 1',XY,t=60,**w),onl(U%'$a $b',XY,times='0,1,4',t=150,**w),onl(U%'0.5 2',XY,times='0,1,3',mode='L',t=150,**w),onl(U%'0.5 2',XY,n=8,times='*0.5',symx='2,5',**w),onl('(until 0.5 1 (ev 0 0.5 (> x 1)) (> y 0))',XY,times='0,0.5,1.25,2.5',t=150,**w),onl('(alw 0 1 (until 0.5 1 (> x 1) (> y 0)))',XY,times='0,0.5,1.25,2.5',t=150,**w),
        onl('(ev 0.5 1 (> x 1))',n=4,via='monitor',t0='sym',**w),onl('(until 0.5 1 (> x 1) (> y 0))',XY,times='0,0.5,1.25,2.5',via='monitor',**w)]
    r+=[onl(f,XY,n=4,times='0,1,2,3',t=100,**w) for f in shapes2('0.5 1','0.5 1.5') if untils(f)<2]
    return r
def onlinet(what):
    w=dict(what=what); return [onl('(and (ev 0 1 (> x 1)) (alw 0.5 1 (> y 1)))',XY,n=4,t=600,**w),onl('(or (ev 0 1 (> x 1)) (not (alw 0.5 1 (> y 1))))',XY,n=4,t=600,**w),onl('(=> (ev 0 1 (> x 1)) (alw 0.5 1 (> y 1)))',XY,n=4,t=600,**w),onl(U%'$a $b',XY,t=600,**w),onl('(ev $a $b (> x 1))',n=6,t0='sym',t=1500,**w),onl(U%'0.5 1',XY,n=4,t=3000,parts=8,**w),onl('(alw 0 1 (until 0.5 1 (> x 1) (> y 0)))',XY,t=900,**w),onl('(until 0.5 1 (ev 0 0.5 (> x 1)) (> y 0))',XY,t=900,**w),onl('(ev 0 1 (alw 0.5 1 (> x 1)))',n=5,t=1500,**w)]
# ---------------------------------------------------------------- C07 complete data: the bounds are the robustness
def c07():
    w=dict(what='bounds'); r=[]
    for f,s in ATOMS[:8]+BOOL[:4]: r.append(rho(f,s,**w))
    for o in('ev','alw'): r+=[rho('(%s 0.5 1 (> x 1))'%o,n=5,**w),rho('(%s $a $b (> x 1))'%o,n=4,**w),rho('(%s $a $b (> x 1))'%o,**LT,**w),rho('(%s 1 3 (> x 1))'%o,n=12,times='*0.5',symx='3,5,9',t0='0.25',**w),rho('(%s 0 2 (> (+ x y) 1))'%o,XY,t0='0',**w),rho('(%s 1 1 (> x 1))'%o,n=4,**w)]
    r+=[rho(U%'0.5 1',XY,t=150,**w),rho(U%'$a $b',XY,t0='0',t=150,**w),rho(U%'0 1',XY,t=150,**LT,**w),rho(U%'0.5 2',XY,times='0,0.5,1.5,3',**w),rho(U%'0 0',XY,**w),rho(U%'1 1',XY,**w),
        rho('(ev 0 1 (alw 0.5 1 (> x 1)))',n=4,**w),rho('(alw 0 1 (ev 0.5 1 (> x 1)))',n=4,**w),rho('(ev 0 1 (alw 0 1 (> x 1)))',**LT,**w),rho('(alw 0 1 (=> (> x 1) (ev 0.5 1 (> y 1))))',XY,t0='0',**w),rho('(and (ev 0 1 (> x 1)) (alw 0.5 1 (> y 1)))',XY,**w),rho('(or (ev 0 1 (> x 1)) (not (alw 0.5 1 (> y 1))))',XY,**w),rho('(=> (alw 0 1 (> x 1)) (ev 0.5 1 (> y 1)))',XY,**w),
        rho('(alw 0 1 (until 0.5 1 (> x 1) (> y 0)))',XY,times='0,0.5,1.5,2.5',t0='0',t=200,**w),rho('(until 0 1 (ev 0 0.5 (> x 1)) (> y 0))',XY,times='0,0.5,1.5,2.5',t0='0',t=200,**w),rho('(ev 0 1 (until 0 1 (> x 1) (> y 0)))',XY,times='0,0.5,1.5,2.5',t0='0',t=200,**w),rho('(ev 0.5 1 (and (> x 1) (> y 0)))',XY,t=150,**LT,**w),rho('(alw 0 2 (ev 0 1 (> x 1)))',n=4,**w),rho('(ev 0 2 (alw 0 0.5 (> x 1)))',n=4,**w),rho('(alw $a $b (ev $c $d (> x 1)))',times='0,2.5,8',t0='0',**w),rho('(ev $a $b (alw $c $d (> x 1)))',times='0,2.5,8',t0='0',**w),rho('(ev 0.5 1 (> x 1))',n=4,via='monitor',**w),rho(U%'0.5 1',XY,t0='0',via='monitor',t=150,**w),rho('(not %s)'%(U%'0.5 1'),XY,t0='0',**w)]
    r+=[rho(f,XY,t0='0',**T3,**w) for f in S1]
    return r
def c07t(): return [rho('(ev $a $b (> x 1))',n=6,what='bounds',t=900),rho(U%'0.5 1',XY,n=4,t0='0',what='bounds',t=3000,parts=8),rho('(ev 0 1 (alw 0.5 1 (> x 1)))',n=5,what='bounds',t=900),rho('(alw 0 1 (until 0.5 1 (> x 1) (> y 0)))',XY,t0='0',what='bounds',t=3000,parts=8),rho('(and (ev 0 1 (> x 1)) (alw 0.5 1 (> y 1)))',XY,n=4,what='bounds',t=900)]
# ---------------------------------------------------------------- C09 history independence / C10 isolation
def c09(): return [ses('(ev 0 1 (> x 1))','aeE',len=5),ses('(alw 0.5 1 (> x 1))','aeE',len=4,via='monitor'),ses('(until 0 1 (> x 1) (> y 0))','aeE',sigs=XY,len=4,times='0,0.5,1.5',t=200),ses('(ev 0 1 (> x 1))','aeis',len=4,psi='ev_[0,2] phi'),ses('(ev 0 1 (alw 0.5 1 (> x 1)))','aeE',len=4,times='0,0.5,1.5,3',n=4),
    ses('(and (ev 0 1 (> x 1)) (not (> x 2)))','aeEi',len=4,times='0,0.5,1.5'),ses('(ev 0 1 (> (+ x (* 2 y)) 1))','aeEi',sigs=XY,len=4,times='0,0.5,1.5'),ses('(ev 0 1 (> x @p))','aepi',len=4,times='0,0.5,1.5'),ses('(alw 0 1 (> x @p))','aepEi',len=4,times='0,0.5,1.5',via='monitor'),
    ses('(ev 0 1 (> x 1))','aet',len=5,times='0,0.5,1.5'),ses('(alw 0 1 (or (> x 1) (> (abs x) 3)))','aetE',len=4,times='0,0.5,1.5',via='monitor'),ses('(ev 0 1 (> x 1))','aer',len=5,times='0,0.5,1.5',via='monitor'),ses('(until 0 1 (> x 1) (> y 0))','aei',sigs=XY,len=4,n=2,times='0,0.75',via='monitor'),ses('(=> (> x 1) (alw 0 1 (> x 2)))','aeEs',len=4,times='0,0.5,1.5',psi='not phi'),ses('(or (> x 1) (ev 0.5 1 (> x 2)))','aer',pre=3,len=4)]+[ses('(ev 0 1 (> x 1))','awvW',len=3,n=2,pre=2,times='0,0.75',via='monitor',signal=1,t=100),ses('(alw 0.5 1 (> x 1))','aewvW',len=3,pre=2,times='0,0.5,1.5',via='monitor',signal=1,mode='L'),ses('(until 0 1 (> x 1) (> y 0))','vW',sigs=XY,len=2,n=2,pre=2,times='0,0.5',via='monitor',signal=1),ses('(ev 0 1 (> x 1))','aeDPx',len=4,n=2,times='0,0.5',t=300),ses('(ev 0 1 (> x 1))','aeB',len=4,times='0,0.5,1.5'),ses('(alw 0 1 (ev 1 2 (> x 1)))','aeDBs',psi='ev_[0,2] phi',len=3,n=2,times='0,0.5'),ses('(ev 0 1 (> x 1))','aePBvE',len=4,times='0,0.5,1.5',via='monitor')]+[ses(f,'aerE',pre=3,len=3,t0p=3,times='0,0.5,1.5',**k) for f,k in (('(or (> x 1) (ev 0.5 1 (> x 2)))',dict(via='monitor')),('(and (> x 1) (alw 0.5 1 (> x 2)))',{}),('(=> (> x 1) (until 0 1 (> x 2) (> x 3)))',{}),('(ev 0 1 (not (> (+ x (* 2 x)) 2)))',{}),('(until 0 1 (> x 2) (alw 0 1 (> x 3)))',dict(via='monitor')),('(alw 0 1 (=> (> x 1) (ev 0 1 (> x 2))))',{}))]+[ses(f,'aep',sigs=XY,len=4,n=2,times='0,1',t=100) for f in S9]
S9=[f for f in SC if SMALL(f)]
def c10(): return [ses('(ev 0 1 (> x @p))','abefcp',len=4,times='0,0.5,1.5'),ses('(ev 0 1 (> x @p))','abefcpq',len=5,times='0,0.5,1.5',via='monitor'),ses('(ev 0 1 (> x @p))','abefcmAMgdiq',n=2,len=4,times='0,0.5',t=200),ses('(ev 0 1 (> x @p))','abefcmAMd',n=2,len=4,times='0,0.5',via='monitor'),
    ses('(until 0 1 (> x @p) (> y 0))','abefcg',sigs=XY,len=4,times='0,0.5,1.5'),ses('(alw 0 1 (and (> x @p) (not (< x 3))))','abefgdpq',len=4,times='0,0.5,1.5'),ses('(=> (> (abs x) @p) (ev 0 1 (> (* 2 x) 1)))','abefcAd',n=2,len=4,times='0,0.5',via='monitor'),ses('(or (> (- x @p) 1) (alw 0 1 (> x 1)))','abefcgMAq',n=2,len=4,times='0,0.5',t=200),
    ses('(ev @p 2 (> x 1))','abefgp',n=3,len=4,times='0,0.5,1.5',tpar='p',thi=2),J('admit',n=2,via='monitor')]+[twi(o,'(ev 0 1 (> x @p))') for o in('copy','assign','move','massign','fresh','self','vector')]+[twi(o,'(ev 0 1 (> x @p))',via='monitor') for o in('copy','assign','move','massign','self','monitor','vector')]+[twi(o,'(> x @p)',g='(> x 7)',tests=1,sem=i%3) for i,o in enumerate(('copy','assign','move','massign','fresh','self','vector'))]+[twi('copy','(or (=> (> (abs x) @p) (> (* 2 x) 1)) (not (> (- x 1) (+ x @p))))',g='(> x 7)',sem=0),twi('assign','(and (> (abs x) @p) (alw 0 1 (> x @p)))',via='monitor',sem=0),twi('copy','(ev @p 2 (> x 1))',sem=0)]+[twi('copy','(ev 0 @p (> x 1))',sem=0,prev=1),twi('copy','(alw @p 3 (> x 1))',sem=0,prev=1,via='monitor'),twi('assign','(ev @p 3 (> x 1))',sem=0,prev=1),twi('monitor','(alw 0 @p (> x 1))',sem=0,prev=1,via='monitor')]+[twi(('copy','assign','monitor','vector','move','fresh')[i%6],f,sigs=XY,sem=0,prev=1,n=2,times='0,1',**(dict(via='monitor') if i%6 in(2,4) else {})) for i,f in enumerate(f for f in SP if not untils(f))]
# ---------------------------------------------------------------- C11 admission / C12 parameters
def c11(): return [J('admit',n=3,t=120),J('admit',n=3,sigs=XY,t=120),J('admit',n=3,via='monitor',t=120),J('admit',n=4,t=200),J('admit',n=2,sigs='x,y,z'),J('admit',n=3,sigs=XY,via='monitor',t=120)]
def c12(): return [par('(ev 0 1 (> x @p))',set='driver'),par('(ev 0 1 (> x @p))'),par('(ev @a @b (> x @p))',tpar='a,b',set='driver'),par('(ev @a @b (> x @p))',tpar='a,b',set='driver',first=1),par('(alw @a @b (> x (* @p y)))',sigs=XY,tpar='a,b',set='monitor',via='monitor',range=50),par('(alw @a @b (> x @p))',tpar='a,b',set='driver',via='monitor',first=1),par('(alw @a @b (> x @p))',tpar='a,b',set='monitor',via='monitor',first=1),
    par('(until @a @b (> x @p) (> y 0))',sigs=XY,tpar='a,b',set='driver',t=200),par('(ev @a @b (> x @p))',tpar='a,b',set='monitor',via='monitor',first=2),par('(alw @a @b (> x @p))',tpar='a,b',set='both',via='monitor',first=2,copy=1),par('(and (> x @p) (not (< (+ x @q) @p)))',set='monitor',via='monitor',first=2,copy=1),par('(=> (> (abs (- x @p)) @q) (alw 0 @b (> x @p)))',tpar='b',set='monitor',via='monitor',first=2,times='0,3',t=120),par('(until @a 2 (> x 1) (> y @p))',sigs=XY,tpar='a',thi=2,set='monitor',via='monitor',first=2,copy=1,times='0,1,4',t=200),par('(or (> (* x @p) 1) (> (* @q y) x))',sigs=XY,set='monitor',via='monitor',first=2,n=1,range=50),par('(until @a @b (> x 1) (> y @p))',sigs=XY,tpar='a,b',set='monitor',via='monitor',first=1,times='0,4',t=200),par('(until @a 2 (> x @p) (> y 0))',sigs=XY,tpar='a',thi=2,set='monitor',via='monitor',first=1,times='0,1,4',t=200),par('(and (> x @p) (not (< (+ x @q) @p)))',set='both',via='monitor',first=1),par('(=> (> (abs (- x @p)) @q) (alw 0 @b (> x @p)))',tpar='b',set='driver',first=1,times='0,1,3'),par('(ev @a @b (alw 0 1 (> x @p)))',tpar='a,b',set='driver',first=1,times='0,1,2.5,5',t=150),par('(alw 0 1 (ev @a @b (> x @p)))',tpar='a,b',set='monitor',via='monitor',first=1,times='0,1,5',t=150),
    par('(ev 0 @b (> x 1))',tpar='b',set='both',via='monitor',first=2,copy=1,times='0,1,4'),par('(alw @a 3 (> x 1))',tpar='a',thi=3,set='monitor',via='monitor',first=2,copy=1,times='0,1,6'),
    ses('(ev 0 1 (> x @p))','aep',len=4,times='0,0.5,1.5'),ses('(ev @p 3 (> x 1))','aep',len=4,times='0,0.5,1.5',tpar='p',thi=3),ses('(alw 0 @p (> x 1))','aepg',len=4,times='0,0.5,1.5',tpar='p',thi=3),par('(ev 0 @b (> x @p))',tpar='b',set='driver',first=1,times='0,1,3',mode='L')]+[par(f,sigs=XY,set='both',via='monitor',first=1,copy=1,t=100,**T3) for f in SP if not untils(f) or untils(f)==1 and 'not' in subs(f)+[top(f)]]
def c12t(): return [par(f,sigs=XY,set='both',via='monitor',first=1,copy=1,t=600,**T3) for f in SP if untils(f)]+ [par('(ev @a @b (> x @p))',tpar='a,b',set='driver',first=1,n=4,t=900),par('(until @a @b (> x @p) (> y 0))',sigs=XY,tpar='a,b',set='monitor',via='monitor',first=1,t=1500),par('(ev @a @b (alw @a 1 (> x @p)))',tpar='a,b',set='driver',first=1,t=1500)]
# ---------------------------------------------------------------- C13 time robustness
def c13():
    r=[]
    for o in('bool','left','right'): r+=[J('timerob',op=o,n=4),J('timerob',op=o,n=4,tail=1),J('timerob',op=o,n=3,mode='L',times='0,1,3'),J('timerob',op=o,n=4,mode='L',times='0,1,2,4'),J('timerob',op=o,n=1),J('timerob',op=o,n=1,tail=1),J('timerob',op=o,n=5,begin='sym',tail=1,t=120)]
    for s in('LEFT_TIME','RIGHT_TIME'): r+=[J('timesem',f='(> x 1)',sem=s,n=4),J('timesem',f='(ev 0 1 (> x 1))',sem=s,n=4),J('timesem',f='(alw 0 1 (not (> x 1)))',sem=s,n=3,via='monitor'),J('timesem',f='(ev 0 1 (and (> x 1) (< y 0)))',sigs=XY,sem=s,n=3,times='0,1,3'),J('timesem',f='(alw 0 1 (or (> x 1) (< y 0)))',sigs=XY,sem=s,n=3,times='0,1,3',mode='L'),J('timesem',f='(until 0 1 (> x 1) (> y 1))',sigs=XY,sem=s,n=3,times='0,0.5,3'),J('timesem',f='(=> (> x 1) (ev 0.5 1 (> x 2)))',sem=s,n=3)]
    r+=[J('timesem',f=f,sigs=XY,sem=s,n=3,t=60,**T3) for f in S3 for s in('LEFT_TIME','RIGHT_TIME')]
    r+=[J('timeatom',sem=s,n=n,via=v,mode=m,times=ti) for s in('LEFT_TIME','RIGHT_TIME') for v in('driver','monitor') for n,m,ti in((4,'P','sym'),(3,'L','0,1,3'))]
    return r
# ---------------------------------------------------------------- C14 grammar
EX=r'signal x, y    # signal names\nmux := x[t]>0  # simple predicate\n\nparam a=1, b=2, p = -3\nmuy := a*y[t] + b > p\nphi1 := alw_[0, 5] mux\nphi2 := ev_[3, 4] (mux) or phi1\nphi_until := phi1 until_[0, 1] phi2\n'
def c14():
    r=[]; x2=dict(sigs=XY,n=2); s='signal x,y\\n'; s1='signal x\\n'
    for t,f in ((s+r'phi := x[t] + 2*y[t] > $c\n','(> (+ x (* 2 y)) $c)'),(s+'phi := 2*x[t] - 3*y[t] > $c','(> (- (* 2 x) (* 3 y)) $c)'),(s+'phi := x[t] - y[t] - $c > y[t]*x[t]*2','(> (- (- x y) $c) (* (* x y) 2))'),(s+'phi := abs(x[t] - y[t]) < $c','(< (abs (- x y)) $c)'),(s+'phi := x[t] + abs(y[t]) * 2 < $c','(< (+ x (* (abs y) 2)) $c)'),
        (s+'phi := x[t] - (y[t] - $c) > 0','(> (- x (- y $c)) 0)'),(s+'phi := (x[t] + y[t]) * 2 > $c','(> (* (+ x y) 2) $c)'),(s+'phi := x[t]*2 + y[t]*3 - 1 <= $c','(< (- (+ (* x 2) (* y 3)) 1) $c)'),(s+'phi := $c >= x[t] - 2*y[t] + 1','(> $c (+ (- x (* 2 y)) 1))'),
        (s+'phi := (x[t] > $c) -> (y[t] > 0)','(=> (> x $c) (> y 0))'),(s+'phi := (x[t] > $c) => (y[t] > 0)','(=> (> x $c) (> y 0))'),(s+'phi := (x[t] > $c) & (y[t] > 0)','(and (> x $c) (> y 0))'),(s+'phi := (x[t] > $c) and (y[t] > 0)','(and (> x $c) (> y 0))'),(s+'phi := (x[t] > $c) | (y[t] > 0)','(or (> x $c) (> y 0))'),(s+'phi := (x[t] > $c) or (y[t] > 0)','(or (> x $c) (> y 0))'),(s+'phi := !(x[t] > $c)','(not (> x $c))'),(s+'phi := not (x[t] > $c)','(not (> x $c))'),
        (s+'phi := x[t] > $c and y[t] > 0','(and (> x $c) (> y 0))'),(s+'phi := not (x[t] > $c) and (y[t] > 0)','(and (not (> x $c)) (> y 0))')):
        r.append(gram(t,f,range=50,**x2))
    for k in('F_','<>_','<>','ev_','ev ','F '): r.append(gram(s1+'phi := %s[0.5,1] (x[t] >= $c)'%k,'(ev 0.5 1 (> x $c))',n=3))
    for k in('G_','[]_','[]','alw_','alw ','G '): r.append(gram(s1+'phi := %s[0.5,1] (x[t] <= $c)'%k,'(alw 0.5 1 (< x $c))',n=3))
    for k in('U_','until_','until ','U '): r.append(gram(s+'phi := (x[t] > $c) %s[0.5,1] (y[t] > 0)'%k,'(until 0.5 1 (> x $c) (> y 0))',sigs=XY,times='0,0.5,2'))
    r+=[gram(s1+'phi := ev_[0.5 1] (x[t] >= $c)','(ev 0.5 1 (> x $c))',n=3),gram(EX,'(until 0 1 (alw 0 5 (> x 0)) (or (ev 3 4 (> x 0)) (alw 0 5 (> x 0))))',phi='phi_until',sigs=XY,times='0,3,8'),gram(EX,'(or (ev 3 4 (> x 0)) (alw 0 5 (> x 0)))',phi='phi2',sigs=XY,n=3,tmax=10),gram(EX,'(> (+ (* 1 y) 2) -3)',phi='muy',sigs=XY,n=3,tmax=10,t0='sym',range=50),gram(EX,'(alw 0 5 (> x 0))',phi='phi1',sigs=XY,n=3,tmax=10),
        gram('signal y,x\\nphi := ev_[0,1] alw_[0.5,1] x[t] > $c','(ev 0 1 (alw 0.5 1 (> x $c)))',sigs='y,x',n=3),gram('signal y, x\\nphi:=y[t]>x[t]','(> y x)',sigs='y,x',n=2),gram(s1+'param p=$c\\nmu := x[t] > p\\nphi := ev_[0,1] mu\\nphi2 := alw_[0.5,1] phi\\n','(alw 0.5 1 (ev 0 1 (> x $c)))',phi='phi2',n=3),
        gram(s1+'param p=$c,lo=0.5,hi=1\\nphi := ev_[lo,hi] (x[t] > p)\\n','(ev 0.5 1 (> x $c))',n=3),gram('# comment\\n'+s1+'# another\\n\\nphi := x[t] > $c # trailing\\n','(> x $c)',n=2,t0='sym'),gram('signal sig_1, Sig2\\nphi_a := sig_1[t] > Sig2[t]\\n','(> sig_1 Sig2)',phi='phi_a',sigs='sig_1,Sig2',n=2,t0='sym'),gram(s1+'phi := ((x[t]) > ($c))','(> x $c)',n=2,t0='sym'),gram('signal x\\nparam a=0.5,b=2.5\\nphi := ev_[0 b] (x[t] > 1)\\n','(ev 0 $b (> x 1))',n=3,set='b'),gram('signal x\\nparam a=0.5,b=2.5\\nphi := ev_[a b] (x[t] > 1)\\n','(ev $a $b (> x 1))',n=3,set='a,b'),gram('signal x\\nparam a=0.5,b=2.5\\nphi := alw_[a 4] (x[t] > 1)\\n','(alw $a 4 (> x 1))',n=3,set='a',first=1),gram('signal x\\nparam a=0.5,b=2.5\\nphi := alw_[a,b] (x[t] > a)\\n','(alw $a $b (> x $a))',n=3,set='a,b',first=1),gram('signal x\\nparam a=0.5,b=2.5\\nphi := (x[t]>b) until_[a,b] (x[t] > a)\\n','(until $a $b (> x $b) (> x $a))',times='0,4',set='a,b'),gram('signal x\\nparam a=0.5\\nmu := x[t] - 2*a > a - 1\\nphi := ev_[0,a] mu\\n','(ev 0 $a (> (- x (* 2 $a)) (- $a 1)))',n=2,set='a'),gram(s1+'phi := ev_[0.25,1.75] (x[t] > 1.5)','(ev 0.25 1.75 (> x 1.5))',n=3),gram(s1+'phi := x[t] > -2.5','(> x -2.5)',n=2)]
    for t in (r'phi := x[t] > \n',r'phi := z[t] > 0\n',r'phi := ev_[0,1 (x[t] > 0)\n',r'phi := x[t] > 0 and\n',r'phi := nophi and (x[t]>0)\n',r'phi x[t] > 0\n',r'ok2 := x[t] > 1e5\n',r'ok2 := x[t]-5 > 0\n',r'phi := (x[t] > 0\n',r'phi := x[t] > 0)\n',r'phi := ev_[,1] (x[t]>0)\n',r'phi := until_[0,1] (x[t]>0)\n',r'phi := x > 0\n',r'param p=\n',r'phi := x[t] > q\n',r':= x[t] > 0\n',r'phi := x[t] >> 0\n',r'phi := abs(x[t] > 0\n',r'phi := not\n',r'phi = x[t]>0\n'):
        r.append(J('reject',text=t,n=2))
    return r
# ---------------------------------------------------------------- C16 memory safety and termination (address sanitizer + checked containers under the same symbolic exploration)
def san(js,**k):
    for j in js:
        if j.h in('rho','online'): j.args=[x for x in j.args if not x.startswith('what=')]+['what=order']
    for j in js: j.san=True; j.t=max(j.t,k.get('t',j.t)); j.samples=0 if 'samples' in k else j.samples
    return js
def c16(): return san([rho(U%'0.5 1',XY,times='0,0.5,1.5,2.5',t=120),rho(U%'$a $b',XY,times='0,3',t0='0',t=200),rho('(ev $a $b (> x 1))',n=4),rho('(alw $a $b (> x 1))',n=3,**LT),rho('(alw 0 1 (=> (> x 1) (ev 0.5 1 (> y 1))))',XY,times='0,1,2.5'),onl('(ev $a $b (> x 1))',n=4),onl('(alw $a $b (> x 1))',n=4,t0='sym'),onl(U%'$a $b',XY,times='0,3',t=200),onl('(and (ev 0 1 (> x 1)) (alw 0.5 1 (> y 1)))',XY,t=120),onl('(or (> (abs x) 1) (ev 0 1 (> (- x y) 1)))',XY,n=2),onl('(not (=> (> x 1) (alw 0 1 (> y 0))))',XY,n=2),
    J('anytime',f='(ev $a $b (> x 1))',n=2,t=150),J('anytime',f=U%'0.5 1',sigs=XY,n=2,t=150),J('anytime',f='(alw 0 1 (and (> x 1) (not (> x 2))))',n=2,t=150),J('anytime',f='(ev 0.5 1 (alw 0 1 (> x 1)))',n=2,t=150),J('anytime',f='(or (> x 1) (=> (> x 2) (ev 0 1 (> (abs x) 3))))',times='0,1',mode='L',t=150),J('anytime',f='(ev $a $b (> x 1))',n=2,sem='RIGHT_TIME',t=150),J('anytime',f='(alw 0 1 (> x 1))',sem='LEFT_TIME',mode='L',times='0,2',t=150),J('anytime',f=U%'0 2',sigs=XY,n=2,mode='L',times='0,1',t=100),
    ses('(ev 0 1 (> x @p))','abefcmAMgdiq',n=2,len=4,times='0,0.5',t=300),ses('(ev 0 1 (> x @p))','abefcmAMd',n=2,len=4,times='0,0.5',via='monitor',t=200),J('admit',n=2),J('trace',f='(ev 0 1 (> x y))',sigs=XY,n=2),J('tests',n=2,how='copy',times='0,0.5'),J('tests',n=2,how='assign',times='0,0.5'),J('tests',n=2,how='clear',times='0,0.5'),J('tests',n=2,how='move',times='0,0.5'),J('tests',n=2,two=1,over=1,times='0,0.5'),
    J('sigop',op='and',n=2,begin='sym',tail=1,t=100),J('sigop',op='or',n=2,mode='L',t=60),J('sigop',op='ev',n=3),J('sigop',op='until',n=2,m=1,begin='sym',tail=1,t=150),J('sigop',op='simplify',n=3,tail=1),J('resize',n=3),J('resize',n=3,mode='L',times='0,1,3'),J('resize',n=2,mode='L',twice=1)]+[twi(o,'(> x @p)',g='(> x 7)',tests=1,sem=0) for o in('copy','assign','move','massign','fresh','self','vector')]+[twi(o,'(ev 0 1 (> x @p))',via='monitor',sem=1,prev=1) for o in('copy','assign','move','massign','self','monitor','vector')]+[J('sigop',op='or',mode='L',times='0,4',timesy='0,1,2,4'),J('append',n=3),J('timerob',op='right',n=3,tail=1),J('timerob',op='left',n=1),J('timerob',op='right',n=1),J('empty')]+[J('reject',text=t,n=1) for t in (r'phi := x[t] > \n',r'phi := ev_[0,1 (x[t] > 0)\n',r'phi := nophi and (x[t]>0)\n',r'phi := (x[t] > 0\n')]+[J('anytime',f=f,sigs=XY,n=2,times='0,1',t=100) for f in S1 if SMALL(f)]+[gram(EX,'(until 0 1 (alw 0 5 (> x 0)) (or (ev 3 4 (> x 0)) (alw 0 5 (> x 0))))',phi='phi_until',sigs=XY,times='0,3,8')])
def c16t(): return san([J('anytime',f=f,sigs=XY,n=2,times='0,1',t=600) for f in S1 if not SMALL(f)]+[J('anytime',f=f,sigs=XY,n=2,times='0,1',mode='L',t=600) for f in S1])
# ---------------------------------------------------------------- C17 signal algebra
def c17():
    r=[J('append',n=4),J('append',n=3,mode='L'),J('resize',n=3),J('resize',n=3,cut=1),J('resize',n=3,cut=1,shift=1,mode='L',times='0,1,3'),J('resize',n=3,mode='L',times='0,1,3'),J('resize',n=3,begin='sym',tail=1,t=60),J('resize',n=4,times='0,1,2,4',shift=1),J('sigop',op='copy',n=4),J('sigop',op='copy',n=3,mode='L'),J('sigop',op='simplify',n=4,tail=1),J('sigop',op='simplify',n=3,mode='L'),J('sigop',op='simplify',n=4,mode='L',times='0,1,2,4')]
    for o in('not','ev','alw'): r+=[J('sigop',op=o,n=4),J('sigop',op=o,n=4,tail=1,begin='sym') ,J('sigop',op=o,mode='L',times='0,1,3'),J('sigop',op=o,mode='L',times='0,1,2,4')]
    for o in('and','or','implies'): r+=[J('sigop',op=o,n=3),J('sigop',op=o,n=2,begin='sym',tail=1,t=100),J('sigop',op=o,mode='L',times='0,1,3',timesy='0,2,3'),J('sigop',op=o,mode='L',times='0,1,3',timesy='0,2,4'),J('sigop',op=o,mode='L',times='0.5,1,3',timesy='0,2',t=60)]
    r+=[J('sigop',op=o,mode='L',**k) for o in('and','or','implies') for k in(dict(times='0,4',timesy='0,1,2,4'),dict(timesy='0,4',timesx='0,1,2,4'),dict(times='0,1,2,3'))]+[J('sigop',op='until',mode='L',times='0,2',timesy='0.5,3'),J('sigop',op='until',mode='L',times='0,3',timesy='0,1,3'),J('sigop',op='until',mode='L',times='0,1,3',timesy='0,3',t=100)]+[J('resize',mode='L',times='0,1,3',twice=1),J('resize',n=2,mode='L',twice=1),J('resize',n=3,twice=1)]
    r+=[J('sigop',op='until',n=3),J('sigop',op='until',n=2,begin='sym',tail=1,t=100),J('sigop',op='until',times='0,1,2,4',timesy='0,1.5,3',t=100),J('sigop',op='until',mode='L',times='1,4',timesy='0,2,3,4',t=200),J('sigop',op='until',mode='L',times='1,3',timesy='0,1.5,2,3',t=200)]
    r+=[J('sigop',op=o,n=2,reuse=1) for o in('not','and','or','implies','ev','alw','until','simplify')]+[J('sigop',op=o,mode='L',times='0,1,3',reuse=1,t=100) for o in('not','ev','alw','and')]+[J('sigop',op='until',mode='L',times='0,2',reuse=1,t=100)]
    r+=[J('sigop',op=o,n=2,build='array') for o in('not','and','or','implies','ev','alw','until','simplify')]+[J('sigop',op=o,mode='L',times='0,1,3',build='array',t=100) for o in('not','ev','alw','and','or')]+[J('sigop',op='until',mode='L',times='0,2',timesy='0.5,3',build='array',t=100)]
    return r+ROUND
def c17t(): return [J('sigop',op='until',mode='L',times='0,1,4',timesy='0,2,3,4',t=1500),J('sigop',op='until',mode='L',times='0,1,3',timesy='0,2,3',t=900)]+[J('sigop',op=o,n=4,t=900) for o in('and','or','implies')]+[J('sigop',op=o,n=3,begin='sym',tail=1,t=900) for o in('and','or','implies','until')]+[J('sigop',op=o,n=5,tail=1,t=600) for o in('ev','alw','simplify')]+[J('append',n=6,t=600)]
# ---------------------------------------------------------------- C18 trace files / C19 stl_tests
def c18(): return [J('trace',f='(ev 0 1 (> x y))',sigs=XY,n=2,how='dump',over=o) for o in(1,2)]+[J('trace',f='(ev 0 1 (> x y))',sigs=XY,n=n,how=h) for n in(1,3) for h in('dump','print','nolf','tab')]+[J('trace',f='(ev 0 1 (> x y))',sigs=XY,n=2,how=h,old=1) for h in('blank','indent','dump')]+[J('trace',f='(ev 0 1 (> x y))',sigs=XY,n=2,how='dump',old=2),J('trace',f='(ev 0 1 (> x y))',sigs=XY,n=2,how='indent',old=2,seen=1),J('trace',f='(alw 0 1 (> x 1))',n=4,how='dump'),J('trace',f='(> (+ x (+ y z)) 1)',sigs='x,y,z',n=2,how='dump',t0='0'),J('trace',f='(ev 0 1 (> x 1))',n=12,times='*0.5',symx='3,8',how='dump'),J('trace',f='(ev 0 1 (> x 1))',n=3,how='dump',range=100000)]
def c19(): return [J('tests',n=2,times='0,0.5',errs=1,t=100),J('tests',n=2,t=120),J('tests',n=3,times='0,0.5,1.5',t=120),J('tests',n=2,mode='L',warm=1,times='0,0.5',t=120),J('tests',n=2,two=1,times='0,0.5',t=200),J('tests',n=2,two=1,over=1,how='copy',times='0,0.5',errs=1,t=200)]+[J('tests',n=2,how=h,times='0,0.5',t=120) for h in('copy','assign','move','clear')]+[J('tests',n=2,over=1,local=0,t=100),J('tests',n=2,warm=1,times='0,0.5'),J('tests',n=2,two=2,times='0,0.5'),J('tests',n=2,two=2,over=1,how='copy',errs=1,times='0,0.5',t=150)]
# ---------------------------------------------------------------- C20 no information / C21 robustness signals / C22 relations
def c20():
    r=[]
    for M in('','500','sym'):
        k=dict(bigm=M) if M else {}
        r+=[noi('(ev 1 2 (> x 1))',t0='sym',**k),noi('(alw $a $b (> x 1))',t0='sym',**k),noi('(ev 1 2 (> x 1))',t0='sym',mode='L',**k),noi('(alw 0.5 1 (and (> x 1) (> y 0)))',XY,t0='sym',**k),noi('(ev 0.5 1 (alw 1 2 (> x 1)))',t0='sym',**k),noi('(until 0 1 (> x 1) (> y 0))',XY,t0='sym',**k),noi('(ev 1 2 (or (> x 1) (not (> y 0))))',XY,t0='sym',**k),noi('(> x 1)',t0='sym',**k),noi('(not (> x 1))',t0='sym',**k),noi('(alw 0 1 (=> (> x 1) (> y 0)))',XY,t0='sym',**k),noi('(ev 1 2 (> (+ x y) 1))',XY,t0='sym',**k)]
    r+=[noi(f,XY,t0='sym') for f in S1]
    r+=[J('bigm',f='(ev 1 2 (> x 1))',n=2),J('bigm',f='(alw 1 2 (> x 1))',n=2,mode='L'),J('bigm',f=U%'1 2',sigs=XY,n=2),J('bigm',f='(and (ev 0 1 (> x 1)) (alw 1 2 (> y 0)))',sigs=XY,n=2),J('bigm',f='(ev 0 1 (alw 0 1 (> x 1)))',n=2),J('bigm',f='(not (ev 1 2 (> x 1)))',n=2),J('bigm',f='(or (> x 1) (ev 1 2 (< x 5)))',n=2),J('bigm',f='(=> (alw 0 1 (> x 1)) (ev 1 2 (> y 0)))',sigs=XY,n=2),J('bigm',f='(alw 0 1 (or (> x 1) (ev 1 2 (> x 5))))',n=2),J('bigm',f='(until 0 2 (> x 1) (ev 1 2 (> x 5)))',n=2),J('bigm',f='(or (alw 2 3 (> x 1)) (not (until 1 2 (> x 3) (> y 5))))',sigs=XY,n=2)]
    return r
def c21():
    r=[sig('(> x 1)',n=4),sig('(> x y)',XY,**L),sig('(not (> x 1))',**LT),sig('(and (> x 1) (> y 0))',XY,t=200,**LT),sig('(and (> x 1) (> y 0))',XY,t=200),sig('(or (> x 1) (> y 0))',XY,t=200),sig('(=> (> x 1) (> y 0))',XY,t=200),sig('(> (- x y) 1)',XY),sig('(> (abs x) 1)'),sig('(> (+ x (* 2 y)) 1)',XY,**L)]
    for o in('ev','alw'): r+=[sig('(%s 0.5 1 (> x 1))'%o,n=4,t=120),sig('(%s 1 1 (> x 1))'%o,n=3),sig('(%s $a $b (> x 1))'%o,n=3,t=120),sig('(%s 0.5 1 (> x 1))'%o,t0='0',**LT),sig('(%s 0.5 1 (> x 1))'%o,n=3,t0='0.5',via='set'),sig('(%s 0.5 2 (> x 1))'%o,n=10,times='*0.5',symx='2,4',t0='0.5')]
    r+=[sig(U%'0 1',XY,t0='0',t=150),sig(U%'0.5 1',XY,times='0,0.5,1.5,3',t0='0',t=200),sig(U%'0.5 1',XY,times='0,0.5,2',t=100),sig('(ev 0 1 (alw 0.5 1 (> x 1)))',n=3,t=150),sig('(alw 0 1 (=> (> x 1) (ev 0 1 (> y 0))))',XY,times='0,1,2.5',t0='0',t=150),sig('(ev 0 1 (and (> x 1) (> y 0)))',XY,times='0,1,2.5',t0='0',t=150),sig('(ev 0 1 (> x 1))',n=3,via='set')]
    r+=[sig(f,XY,t0='0',t=300,**T3) for f in S3]+[sig(U%'0.5 1',XY,mode='L',times='0,2',t0='0',t=200)]
    return r
def c21t(): return [sig(U%'0.5 1',XY,mode='L',times='0,1,3',t0='0',t=1500)]+[sig(U%'0.5 1',XY,t=1500,parts=8),sig('(ev 0 1 (alw 0.5 1 (> x 1)))',n=4,t=900),sig('(ev $a $b (> x 1))',n=4,t=900),sig('(alw 0 1 (or (> x 1) (> y 0)))',XY,t=900)]
def c22():
    r=[]
    for f,s in (('(ev 0 1 (> x 1))',X),('(alw 0.5 2 (< x $c))',X),('(not (ev 0 1 (> x 1)))',X),('(ev 0 1 (alw 0 1 (> x 1)))',X)): r+=[met('radius',f,s),met('radius',f,s,partial=1),met('radius',f,s,mode='L',times='0,2' if f.count('ev')+f.count('alw')>1 else '0,1,3',t=100)]
    r+=[met('radius','(and (> x 1) (> y 0))',XY),met('radius','(=> (> x 1) (ev 0 1 (> y 0)))',XY,n=2),met('radius',U%'0 1',XY,times='0,0.5,2',t=100),met('radius','(> (+ x y) 1)',XY,lip=2),met('radius','(> (- x (* 3 y)) 1)',XY,lip=4,mode='L',times='0,1,3'),met('radius','(ev 0 1 (> (abs x) 1))'),
        met('mono',U%'0 1',XY,times='0,0.5,2',partial=1,t=100),met('mono','(ev 0 1 (and (> x 1) (> y 1)))',XY,n=2,partial=1),met('mono','(alw 0 1 (or (> x 1) (ev 0 1 (> x 2))))',n=3,times='0,1,2.5',partial=1,t=100),met('mono','(alw 0.5 1 (> x 1))',n=3,partial=1),
        met('dual','(not (ev 0.5 1 (> x $c)))',g='alw_[0.5,1] (x[t] < $c)',partial=1),met('dual','(not (alw 0.5 1 (> x $c)))',g='ev_[0.5,1] (x[t] < $c)',partial=1,mode='L',times='0,1,3'),met('dual','(not (and (> x $c) (> y 0)))',XY,g='(x[t] < $c) or (y[t] < 0)',partial=1),met('dual','(=> (> x $c) (> y 0))',XY,g='(x[t] < $c) or (y[t] > 0)',partial=1),met('dual','(ev 0 1 (ev 0.5 1 (> x $c)))',g='ev_[0.5,2] (x[t] > $c)'),met('dual','(alw 0 1 (alw 0.5 1 (> x $c)))',g='alw_[0.5,2] (x[t] > $c)'),met('dual','(ev 0 2 (> x $c))',g='(x[t] > $c) or (ev_[0,2] (x[t] > $c))'),met('dual','(ev 0.5 1 (or (> x $c) (> y 0)))',XY,g='(ev_[0.5,1] (x[t] > $c)) or (ev_[0.5,1] (y[t] > 0))',t=100),met('dual','(alw 0.5 1 (and (> x $c) (> y 0)))',XY,g='(alw_[0.5,1] (x[t] > $c)) and (alw_[0.5,1] (y[t] > 0))',t=100),met('dual','(not (not (ev 0 1 (> x $c))))',g='ev_[0,1] (x[t] > $c)',partial=1),
        met('split','(ev 0 1 (> x $c))'),met('split','(alw 0.5 1 (> x $c))',mode='L',times='0,1,3'),met('split',U%'0 1',XY,times='0,0.5,2',t=100),met('split','(ev 0 1 (alw 0 1 (> x 1)))',at=1),met('split','(and (> x 1) (> y 0))',XY,mode='L',times='0,1,3',at=1,t=100),
        met('shift','(ev 0.5 1 (> x $c))',by='sym',partial=1),met('shift',U%'0.5 1',XY,n=2,by=1,partial=1),met('shift','(alw 0.5 1 (> x $c))',mode='L',times='0,1,3'),met('shift','(ev 0 1 (alw 0 1 (> x 1)))',times='0,1,3',by='sym',partial=1),met('shift','(ev 0 2 (alw 0 1 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(ev 0 1 (alw 0.5 2 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(alw 0 2 (ev 0 1 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(alw 0 1 (ev 0.5 2 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(alw 0 2 (alw 0 1 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(alw 0 1 (alw 0.5 2 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(ev 0 2 (ev 0 1 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(ev 0 1 (ev 0.5 2 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(ev 0 2 (alw 0.5 1 (> x 1)))',by='sym',times='0,1,3',partial=1),met('shift','(alw 0 2 (until 0 1 (> x 1) (> y 1)))',XY,n=2,by='sym',partial=1),met('shift','(or (not (alw 0 2 (> x 1))) (ev 1 2 (> x 3)))',n=2,by='sym',partial=1),met('shift','(and (> x 1) (not (> y 0)))',XY,by='sym',n=2),met('shift','(ev 0.5 1 (> (+ x (* 2 y)) $c))',XY,by='sym',n=2,partial=1)]
    r+=[met('shift',f,XY,n=2,by='sym',partial=1,times='0,1') for f in S1]
    return r
def c22t(): return [met('radius',U%'0 1',XY,t=900),met('radius','(ev 0 1 (> x 1))',n=4,t=900),met('mono','(alw 0 1 (or (> x 1) (ev 0 1 (> x 2))))',n=3,partial=1,t=900),met('shift',U%'0.5 1',XY,n=3,by='sym',partial=1,t=1500),met('split',U%'0 1',XY,t=900)]
GEN='traces with at most 4-6 symbolic samples (long traces: up to 24 samples of which 2-5 symbolic), 1-3 signals, formulas of the listed shapes, interval ends in [0,4] (some concrete up to 50), sample values in [-1000,1000] (products: [-50,50]), first sample at time 0, LINEAR interpolation with listed sample times where formulas cross signals'
OUT='longer traces, deeper formulas, other formula shapes, values beyond the stated ranges, NaN/infinite samples, rounding of double arithmetic (values are exact rationals; constants below 1e-9 that the code adds to a value are treated as 0)'
def P(q,t=None,bounds='',outside='',assumptions=()): return dict(quick=q,thorough=t or (lambda:[]),bounds=(bounds+'; ' if bounds else '')+GEN,outside=(outside+'; ' if outside else '')+OUT,assumptions=list(assumptions))
PROPS={
 'C01':P(c01,c01t,'arithmetic expressions over +,-,*,abs, constants and parameters of depth at most 3',outside='products and abs between samples under LINEAR interpolation'),
 'C02':P(c02,c02t),'C03':P(c03,c03t),'C04':P(c04,c04t),'C05':P(c05,c05t,'nesting depth at most 3'),
 'C06':P(lambda:online('sound'),lambda:onlinet('sound')),'C07':P(c07,c07t),'C08':P(lambda:online('mono,order'),lambda:onlinet('mono,order')),
 'C09':P(c09,bounds='histories of at most 5 operations (adding a sample, evaluating at two times, evaluating another formula that shares a subformula, switching interpolation or semantics, setting a parameter, discarding data)'),
 'C10':P(c10,bounds='histories of at most 5 operations over an object and its copy / moved-to object / monitor'),
 'C11':P(c11,bounds='sequences of at most 4 samples of any size from 0 to signals+2 and any times in [0,8]'),
 'C12':P(c12,c12t),'C13':P(c13,bounds='signals of at most 5 samples'),'C14':P(c14,bounds='the listed specification texts; constants in them symbolic',outside='texts other than those listed'),
 'C16':P(c16,c16t,bounds='the listed API histories under AddressSanitizer, checked libstdc++ containers and a 20 s watchdog per path',outside='leaks, uninitialised reads that do not influence a branch or a result'),
 'C17':P(c17,c17t,'signals of at most 4 samples'),'C18':P(c18),'C19':P(c19,bounds='one or two trace tests with two tests each'),'C20':P(c20,bounds='BigM default, 500, or any value in [200,20000]'),'C21':P(c21,c21t),'C22':P(c22,c22t,'perturbations up to 20'),
}
