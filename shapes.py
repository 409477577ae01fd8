"""All formula shapes of operator depth two over fixed leaves: each of not/ev/alw/and/or/=>/until on top of each of them."""
LV=['(> x 1)','(< y 0.5)','(> (+ x y) 1)']
U1=['not','ev','alw']; B2=['and','or','=>','until']
def mk(op,iv,*ch):
    if op in('ev','alw','until'): return '(%s %s %s)'%(op,iv,' '.join(ch))
    return '(%s %s)'%(op,' '.join(ch))
def shapes2(ivo='0.5 1',ivi='0 1.5',lv=LV,ops=U1+B2):
    r=[]
    u=[o for o in U1 if o in ops]; b=[o for o in B2 if o in ops]
    for o in u:
        for i in u: r.append(mk(o,ivo,mk(i,ivi,lv[0])))
        for i in b: r.append(mk(o,ivo,mk(i,ivi,lv[0],lv[1])))
    for o in b:
        for i in u: r+= [mk(o,ivo,mk(i,ivi,lv[0]),lv[1]),mk(o,ivo,lv[1],mk(i,ivi,lv[0]))]
        for i in b: r+= [mk(o,ivo,mk(i,ivi,lv[0],lv[1]),lv[2]),mk(o,ivo,lv[2],mk(i,ivi,lv[0],lv[1]))]
    return r
def top(f): return f[1:].split()[0]
def subs(f):
    """operators below the top one"""
    return [w.strip('(') for w in f[1:].replace('(',' (').split()[1:] if w.startswith('(') and w.strip('(') in U1+B2]
def untils(f): return ([top(f)]+subs(f)).count('until')
