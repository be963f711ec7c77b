FAKE='''import sys, types, random
import numpy as np
# an in-process stand-in for ray: tasks run when waited for, in any order, and can be made to fail
ray=types.ModuleType('ray'); rng=random.Random(5)
class Ref:
    def __init__(s,f): s.f=f; s.done=False; s.exc=None; s.val=None
    def run(s):
        if s.done: return
        s.done=True
        try: s.val=s.f()
        except Exception as e: s.exc=e
class Meth:
    def __init__(s,a,n): s.a,s.n=a,n
    def remote(s,*a,**k): return Ref(lambda: before(s.n,a) or getattr(s.a,s.n)(*a,**k))
class Actor:
    def __init__(s,o): s.__dict__['o']=o
    def __getattr__(s,n): return Meth(s.o,n)
class Cls:
    def __init__(s,c): s.c=c
    def options(s,**k): return s
    def remote(s,*a,**k): return Actor(s.c(*a,**k))
def before(n,a): pass
ray.remote=lambda **k: Cls
ray.init=lambda **k: None
ray.shutdown=lambda: None
ray.put=lambda x: x
ray.kill=lambda a: None
steps=[0]
def wait(ts,num_returns=1,timeout=None):
    steps[0]+=1
    assert steps[0]<4000,'never finishes'
    d=[t for t in ts if t.done or rng.random()<0.6]
    rng.shuffle(d)
    for t in d: t.run()
    return d,[t for t in ts if t not in d]
def get(t):
    t.run()
    if t.exc: raise t.exc
    return t.val
ray.wait,ray.get=wait,get
sys.modules['ray']=ray
import pyebsdindex._ebsd_index_parallel as ip
ip.time=types.SimpleNamespace(sleep=lambda s: None)
class FID: nPatterns=23
class Plan: useCPU=True; nBands=2; dataType=np.dtype([('id','i8')])
class Idx:
    fID=FID(); phaseLib=[0]; dataTemplate=np.dtype([('q','i8')]); bandDetectPlan=Plan(); PC=None
    def update_file(s,*a,**k): pass
    def _getpats(s,patsin=None,patstart=0,npats=-1,xyloc=None):
        if patsin is None: patsin=np.arange(patstart,patstart+npats)[:,None,None]*np.ones((1,2,2),int)
        return patsin,xyloc
    def _detectbands(s,pats,PC,**k):
        b=np.zeros((len(pats),2),Plan.dataType); b['id']=pats[:,0,0][:,None]
        return b,np.ones((len(pats),2,3))*pats[:,0,0][:,None,None]
    def _indexbandsphase(s,b,n,verbose=0):
        assert (b['id'][:,0]==n[:,0,0]).all()
        o=np.zeros((2,len(b)),Idx.dataTemplate); o['q']=b['id'][:,0]
        b=b.copy(); b['id']+=1000
        return o,b
ip.index_pats=lambda *a,**k: (None,None,k['ebsd_indexer_obj'])
def go(start,n,chunk,arr=False):
    steps[0]=0
    ps=np.arange(23)[:,None,None]*np.ones((1,2,2),int)
    d,b=ip.index_pats_distributed(patsin=ps if arr else None,filename=None if arr else 'x',ebsd_indexer_obj=Idx(),patstart=start,npats=n,chunksize=chunk,ncpu=3)
    want=list(range(start,23 if n<0 else start+n))
    assert d['q'][-1].tolist()==want,(d['q'][-1].tolist(),want)
    assert b['id'][:,0].tolist()==[w+1000 for w in want],b['id'][:,0].tolist()

'''
