SEEDS={}
N='pyebsdindex/nlpar_cpu.py'
PRE='''
import numpy as np, numba
from pyebsdindex.nlpar_cpu import NLPAR
rng=np.random.RandomState(3)
nr,nc,npx=24,40,60
data=(rng.rand(nr*nc,npx)*50+20+10*np.sin(np.arange(npx))).astype(np.float32)
idx=np.arange(npx,dtype=np.uint64)
def sig():
    return NLPAR.sigma_numba(data,np.uint64(1),np.int64(nr),np.int64(nc),np.asarray([0,nr]),np.asarray([0,nc]),idx,True)[0]
'''
SEEDS['k01-shared-weights']=dict(property='K01', jit=1, needs='more than one thread working on columns of the same block', breaks='the neighbour weights of a pattern are kept in a buffer all threads share',
 edits=[(N,"    mxval = np.max(data)\n    if saturation_protect == False:\n      mxval += np.float32(1.0)","    weights = np.zeros(winsz,dtype=np.float32)\n    mxval = np.max(data)\n    if saturation_protect == False:\n      mxval += np.float32(1.0)"),(N,"        weights = np.zeros(winsz,dtype=np.float32)\n","        weights[:] = 0.0\n")],
 demo=PRE+'''
s=sig()
def run(n):
    numba.set_num_threads(n)
    return NLPAR.nlpar_nb(data,np.float32(0.7),np.int64(3),np.float32(0.0),s,np.int64(nr),np.int64(nc),idx,True,np.float32(0.0))
ref=run(1)
for k in range(15):
    assert np.allclose(run(min(8,numba.config.NUMBA_NUM_THREADS)),ref,rtol=1e-4), 'the result depends on the number of threads'
''')
