
import os,sys; sys.path.insert(0,os.path.dirname(os.path.realpath(__file__)))
import fakecl; fakecl.install()
import numpy as np

class File:
    filetype='UP'; filepath='x'; filedatatype=np.uint8
    def __init__(s,d,nr,nc,h,w): s.d=d; s.nRows=nr; s.nCols=nc; s.patternH=h; s.patternW=w; s.nPatterns=nr*nc
    def read_header(s,*a): pass
    def g(s): return s.d.reshape(s.nRows,s.nCols,s.patternH,s.patternW)
    def read_data(s,patStartCount=None,convertToFloat=False,returnArrayOnly=True,**k):
        (c,r),(n,m)=[[int(x) for x in y] for y in patStartCount]
        assert c>=0 and r>=0 and c+n<=s.nCols and r+m<=s.nRows,'a tile leaves the scan'
        x=s.g()[r:r+m,c:c+n].reshape(-1,s.patternH,s.patternW).copy()
        return (x.astype(np.float32) if convertToFloat else x), None
    def write_data(s,newpatterns=None,patStartCount=None,**k):
        (c,r),(n,m)=[[int(x) for x in y] for y in patStartCount]
        s.g()[r:r+m,c:c+n]=np.asarray(newpatterns).reshape(m,n,s.patternH,s.patternW)
def run(cls,meth,d,nr,nc,h,w,sig,sr,tb=None,out=None,**kw):
    o=cls(None); fi=File(d,nr,nc,h,w); fo=out or File(np.zeros(d.shape,np.float32),nr,nc,h,w)
    o.nrows,o.ncols=nr,nc; o.getinfileobj=lambda *a,**k:fi; o.getoutfileobj=lambda *a,**k: fo; o.setoutfile=lambda *a,**k:None
    o.patternfileout=fo
    o.sigma=None if sig is None else sig.copy(); o.searchradius=sr; o.lam=.7; o.dthresh=0.; o.diff_offset=0.
    if tb:
        cc=o._calcchunks; o._calcchunks=lambda *a,**k: cc(*a,**{**k,'target_bytes':tb})
    getattr(o,meth)(verbose=0,**kw); return fo.d
rng=np.random.RandomState(1)
def scan(nr,nc,h=6,w=7):
    return (rng.rand(nr*nc,h,w)*30+80).astype(np.uint8),(rng.rand(nr,nc)*3+6).astype(np.float32)

from pyebsdindex.opencl import nlpar_cl
from pyebsdindex.nlpar_cpu import NLPAR
d,s=scan(9,9); s=(np.random.RandomState(2).rand(9,9)*12+2).astype(np.float32)
a=run(nlpar_cl.NLPAR,'calcnlpar_cl',d,9,9,6,7,s,1); c=run(NLPAR,'calcnlpar',d,9,9,6,7,s,1,chunksize=9)
f=lambda x:x.reshape(9,9,6,7)[1:-1,1:-1]
assert np.allclose(f(a),f(c),rtol=2e-3), 'CPU and GPU differ'
