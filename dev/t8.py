import sys,os; sys.path[:0]=['/verif','/verif/dev']
from sa.loader import Program
from rules.base import Ctx
from rules.p_hier import *
from dump import *
ctx=Ctx(Program(os.environ.get('VERIF_REPO','/repo')),'P09')
p=ctx.prog
def go(cls,m='execute'):
    I=Interp(p)
    st=State(); c=p.cls(cls); st.types[SELF]=c; st.vers['exact']=(SELF,); st.vers['nonnull']=(SELF,('sym','start'))
    st.types[('sym','start')]=p.cls('HypergraphNode')
    fi=p.find(c,'__init__')
    names=[a.arg for a in fi.node.args.args][1:]
    r0=I.entry(fi,[],st,recv=SELF,kwargs={n:('sym',n) for n in names})
    for s0,sig0 in r0:
        s0.events=[]
        print('INIT',sig0[0],{k[1]:sh(v) for k,v in s0.fields.items()})
        r=I.entry(p.find(c,m),[('sym','start')],s0,recv=SELF)
        print('----',cls,len(r))
        for x in r:
            result([x],fields=False)
            for k,v in x[0].ops.items(): print('   ops',sh(k),[ (o[0],)+tuple(sh(q) for q in o[1:]) for o in v])
    for lp in I.loops.values():
        for q in lp.paths:
            for cont in q.st.ops:
                d=I.path_ops(lp,q,cont)
                if d: print('  loop',lp.lid,'path',lp.paths.index(q),sh(cont),[(o[0],)+tuple(sh(x) for x in o[1:]) for o in d])
for a in sys.argv[1:]: go(a)
