class J:
    """one symbolic-execution job: harness, key=value arguments, time limit (s), number of partitions, labels that must be reached"""
    def __init__(s,h,san=False,t=60,parts=1,reach=('end',),samples=25,qto=3000,**kw):
        s.h=h; s.san=san; s.t=t; s.parts=parts; s.reach=reach; s.samples=samples; s.qto=qto; s.args=['%s=%s'%(k.rstrip('_'),v) for k,v in kw.items()]
    def key(s): return s.h+' '+' '.join(s.args)
