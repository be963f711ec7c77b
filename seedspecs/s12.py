SEEDS={}
N='pyebsdindex/nlpar_cpu.py'; G='pyebsdindex/opencl/nlpar_cl.py'; R='pyebsdindex/opencl/nlpar_clray.py'; K='pyebsdindex/opencl/clnlpar.cl'
B='pyebsdindex/opencl/band_detect_cl.py'; P='pyebsdindex/pcopt.py'
FCL='''
import os,sys; sys.path.insert(0,os.path.dirname(os.path.realpath(__file__)))
import fakecl; fakecl.install()
import numpy as np
'''
SCAN='''
class File:
    filetype='UP'; filepath='x'; filedatatype=np.uint8
    def __init__(s,d,nr,nc,h,w): s.d=d; s.nRows=nr; s.nCols=nc; s.patternH=h; s.patternW=w; s.nPatterns=nr*nc
    def read_header(s,*a): pass
    def g(s): return s.d.reshape(s.nRows,s.nCols,s.patternH,s.patternW)
    def read_data(s,patStartCount=None,convertToFloat=False,returnArrayOnly=True,**k):
        (c,r),(n,m)=[[int(x) for x in y] for y in patStartCount]
        assert c>=0 and r>=0 and c+n<=s.nCols and r+m<=s.nRows,'a tile leaves the scan'
        x=s.g()[r:r+m,c:c+n].reshape(-1,s.patternH,s.patternW).copy()
        return (x.astype(np.float32) if convertToFloat else x), None
    def write_data(s,newpatterns=None,patStartCount=None,**k):
        (c,r),(n,m)=[[int(x) for x in y] for y in patStartCount]
        s.g()[r:r+m,c:c+n]=np.asarray(newpatterns).reshape(m,n,s.patternH,s.patternW)
def run(cls,meth,d,nr,nc,h,w,sig,sr,tb=None,out=None,**kw):
    o=cls(None); fi=File(d,nr,nc,h,w); fo=out or File(np.zeros(d.shape,np.float32),nr,nc,h,w)
    o.nrows,o.ncols=nr,nc; o.getinfileobj=lambda *a,**k:fi; o.getoutfileobj=lambda *a,**k: fo; o.setoutfile=lambda *a,**k:None
    o.patternfileout=fo
    o.sigma=None if sig is None else sig.copy(); o.searchradius=sr; o.lam=.7; o.dthresh=0.; o.diff_offset=0.
    if tb:
        cc=o._calcchunks; o._calcchunks=lambda *a,**k: cc(*a,**{**k,'target_bytes':tb})
    getattr(o,meth)(verbose=0,**kw); return fo.d
rng=np.random.RandomState(1)
def scan(nr,nc,h=6,w=7):
    return (rng.rand(nr*nc,h,w)*30+80).astype(np.uint8),(rng.rand(nr,nc)*3+6).astype(np.float32)
'''
# ---- N01
FILES='''
import os,tempfile,numpy as np
from pathlib import Path
from pyebsdindex import ebsd_pattern
from pyebsdindex.nlpar_cpu import NLPAR
d=tempfile.mkdtemp(); os.chdir(d)
def make(name,seed):
    p=(np.random.RandomState(seed).rand(12,8,8)*200+20).astype(np.uint8)
    f=ebsd_pattern.UPFile(); f.filepath=name; f.patternH=f.patternW=8; f.nRows=3; f.nCols=4; f.nPatterns=12; f.filedatatype=np.uint8; f.bitdepth=8; f.version=3
    f.xStep=f.yStep=1.0; f.hexFlag=0; f.extraPatterns=0
    f.write_header(); f.write_data(newpatterns=p); return f
def read(name):
    return open(name,'rb').read()
'''
SEEDS['n01-compare-names']=dict(property='N01',needs='an output name that reaches the input file through a different path (here a hard link)',breaks='the output file is compared with the input by its name only, so a link to the input is overwritten',
 edits=[(N,"          pathok = not self.filepathout.samefile(patternfile.filepath)","          pathok = self.filepathout != Path(patternfile.filepath).expanduser().resolve()")],
 demo=FILES+'''
make('in.up1',1); os.link('in.up1','again.up1'); was=read('in.up1')
try:
    NLPAR('in.up1',lam=0.7,searchradius=1).calcnlpar(fileout='again.up1',verbose=0)
except ValueError: pass
assert read('in.up1')==was, 'the input patterns were overwritten'
''')
SEEDS['n01-keep-output']=dict(property='N01',needs='an object used twice: first file A is filtered to B, then B is taken as the input and no output is named',breaks='an output file set by an earlier run is used again although the input has changed since',
 edits=[(N,"    self.setoutfile(patternfile, filepath=fileout)\n","    if (fileout is not None) or (getattr(self, 'filepathout', None) is None):\n      self.setoutfile(patternfile, filepath=fileout)\n")],
 demo=FILES+'''
make('a.up1',1)
n=NLPAR('a.up1',lam=0.7,searchradius=1)
n.calcnlpar(fileout='b.up1',verbose=0)
was=read('b.up1')
n.setfile('b.up1'); n.calcnlpar(verbose=0)
assert read('b.up1')==was, 'the input patterns were overwritten'
''')
# ---- N02
SEEDS['n02-sigma-rows']=dict(property='N02',needs='a last block of rows shorter than the search window, so that the rows read begin earlier',breaks='the noise of the wrong rows is used in the last block',
 edits=[(N,"        sigchunk = sigma[rowstartread:rowend,:]","        sigchunk = sigma[max(0, j-sr):rowend,:]")],
 demo='''
import numpy as np
from pyebsdindex.nlpar_cpu import NLPAR
'''+SCAN+'''
d,s=scan(11,5)
a=run(NLPAR,'calcnlpar',d,11,5,6,7,s,3,chunksize=11)
b=run(NLPAR,'calcnlpar',d,11,5,6,7,s,3,chunksize=10)
assert np.allclose(a[15:-15],b[15:-15],rtol=1e-4) and np.allclose(a[-15:],b[-15:],rtol=1e-4), 'the result depends on the block size'
''')
SEEDS['n02-retry-position']=dict(property='N02',needs='a tile whose first attempt fails and which is not at the edge of the scan',breaks='when a tile is processed again its margin is counted twice, so its patterns are stored at the wrong place',
 edits=[(R,"        gpujob._starttime()\n        #time.sleep(random.uniform(0, 1.0))\n\n        #if self.openCLParams is not None:\n        #    self.openCLParams.get_queue()\n        data, xyloc = nlparobj.patternfile.read_data(patStartCount=[[gpujob.cstart, gpujob.rstart],\n                                                                    [gpujob.ncolchunk, gpujob.nrowchunk]],\n                                                                    convertToFloat=False, returnArrayOnly=True)\n\n        newdata = nlparobj._nlparchunkcalc_cl(data, gpujob, clparams=self.openCLParams)\n",
"        gpujob._starttime()\n        #time.sleep(random.uniform(0, 1.0))\n\n        #if self.openCLParams is not None:\n        #    self.openCLParams.get_queue()\n        data, xyloc = nlparobj.patternfile.read_data(patStartCount=[[gpujob.cstart, gpujob.rstart],\n                                                                    [gpujob.ncolchunk, gpujob.nrowchunk]],\n                                                                    convertToFloat=False, returnArrayOnly=True)\n        gpujob.cstart += gpujob.cstartcalc # first position to be stored\n        gpujob.rstart += gpujob.rstartcalc\n        newdata = nlparobj._nlparchunkcalc_cl(data, gpujob, clparams=self.openCLParams)\n"),
 (R,"                                       patStartCount=[[gpujob.cstart + gpujob.cstartcalc,\n                                                       gpujob.rstart + gpujob.rstartcalc],","                                       patStartCount=[[gpujob.cstart,\n                                                       gpujob.rstart],"),
 (R,"    sigmachunk = np.ascontiguousarray(self.sigma[rstart:rend, cstart:cend].astype(np.float32))\n","    sigmachunk = np.ascontiguousarray(self.sigma[rend - nrowchunk:rend, cend - ncolchunk:cend].astype(np.float32))\n")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_clray
import ray
class Out(File):
    n=0
    def write_data(s,**k):
        s.n+=1
        if s.n==fail: raise IOError('no')
        File.write_data(s,**k)
d,s=scan(9,12); r=[]
for fail in (0,1,2,3,4):
    r.append(run(nlpar_clray.NLPAR,'calcnlpar_clray',d,9,12,6,7,s,1,tb=9000,out=Out(np.zeros(d.shape,np.float32),9,12,6,7)))
for x in r[1:]: assert np.allclose(x,r[0],rtol=1e-4), 'a tile processed again was stored at the wrong place'
''')
SEEDS['n02-tile-rows']=dict(property='N02',needs='a tile wider than high on the GPU',breaks='the device is told that the tile is square, so below its last row neighbours are read outside of the tile instead of mirrored',
 edits=[(G,"        calclim = np.array([cstartcalc, rstartcalc, ncolchunk, nrowchunk], dtype=np.int64)","        calclim = np.array([cstartcalc, rstartcalc, ncolchunk, max(nrowchunk, ncolchunk)], dtype=np.int64)")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_cl
from pyebsdindex.nlpar_cpu import NLPAR
d,s=scan(8,20); sr=2
a=run(nlpar_cl.NLPAR,'calcnlpar_cl',d,8,20,6,7,s,sr)
b=run(nlpar_cl.NLPAR,'calcnlpar_cl',np.ascontiguousarray(d.reshape(8,20,6,7).swapaxes(0,1)).reshape(d.shape),20,8,6,7,np.ascontiguousarray(s.T),sr)
assert np.allclose(a.reshape(8,20,6,7),b.reshape(20,8,6,7).swapaxes(0,1),rtol=1e-4), 'a scan and its transpose give different results'
''')
# ---- N03
SEEDS['n03-kernel-noise']=dict(property='N03',needs='neighbours whose noise differs from the pattern',breaks='the device normalises the pattern distance by the geometric mean of the two noise estimates',
 edits=[(K,"                norm = (sigma0 + sigma_ij)*sqrt(2.0*nn);","                norm = 2.0*sqrt(sigma0 * sigma_ij)*sqrt(2.0*nn);")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_cl
from pyebsdindex.nlpar_cpu import NLPAR
d,s=scan(9,9); s=(np.random.RandomState(2).rand(9,9)*12+2).astype(np.float32)
a=run(nlpar_cl.NLPAR,'calcnlpar_cl',d,9,9,6,7,s,1); c=run(NLPAR,'calcnlpar',d,9,9,6,7,s,1,chunksize=9)
f=lambda x:x.reshape(9,9,6,7)[1:-1,1:-1]
assert np.allclose(f(a),f(c),rtol=2e-3), 'CPU and GPU differ'
''')
SEEDS['n03-cpu-saturated']=dict(property='N03',needs='a pattern with saturated pixels',breaks='on the CPU a pixel saturated in the neighbour only is counted in the pixel number but not in the distance',
 edits=[(N,"                  if (d1 < mxval) and (d0 < mxval):\n                    n2 += np.float32(1.0)\n                    d2 +=","                  if d0 < mxval:\n                    n2 += np.float32(1.0)\n                  if (d1 < mxval) and (d0 < mxval):\n                    d2 +=")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_cl
from pyebsdindex.nlpar_cpu import NLPAR
d,s=scan(9,9); d.reshape(81,-1)[::5,:20]=255
a=run(nlpar_cl.NLPAR,'calcnlpar_cl',d,9,9,6,7,s,1); c=run(NLPAR,'calcnlpar',d,9,9,6,7,s,1,chunksize=9)
f=lambda x:x.reshape(9,9,6,7)[1:-1,1:-1]
assert np.allclose(f(a),f(c),rtol=2e-3), 'CPU and GPU differ'
''')
# ---- G02
BD=FCL+'''
from pyebsdindex.opencl import band_detect_cl
from pyebsdindex import band_detect
rng=np.random.RandomState(4)
def cmp(pats,first=0,step=1,**kw):
    o=dict(patDim=pats.shape[-2:],nTheta=30,nRho=20,nBands=4); o.update(kw)
    c=band_detect.BandDetect(**o); ref=c.find_bands(pats.copy())
    g=band_detect_cl.BandDetect(**o)
    n=first
    while True:
        fakecl.COUNT[0]=0; fakecl.DEVICE.fail=n
        p=pats.copy(); r=g.find_bands(p,chunksize=16)
        if fakecl.COUNT[0]<=n: break
        for k in ref.dtype.names: assert np.array_equal(r[k],ref[k],equal_nan=True) if r[k].dtype.kind=='f' else np.array_equal(r[k],ref[k]), (n,k)
        assert np.array_equal(p,pats), 'patterns changed'
        n+=step
'''
SEEDS['g02-scaled-fallback']=dict(property='G02',needs='floating-point patterns and a device that fails after the patterns were prepared for it',breaks='the fallback gets the patterns already rescaled to 16 bit for the device',
 edits=[(B,"      bandData = band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)\n\n    return bandData","      if 'patterns' not in locals():\n        patterns = patternsIn\n      bandData = band_detect.BandDetect.find_bands(self, patterns, verbose=verbose, chunksize=-1, **kwargs)\n\n    return bandData")],
 files=['fakecl.py'], demo=BD+'''
cmp((rng.rand(3,24,24)*3+1).astype(np.float32))
''')
SEEDS['g02-keep-chunks']=dict(property='G02',needs='more patterns than one chunk and a device that fails in a later chunk',breaks='results of the chunks the device had finished are kept and only the remaining patterns go to the CPU, with the band data of the device in between',
 edits=[(B,"      bandData = band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)\n\n    return bandData","      bandCPU = band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)\n      done = 0\n      try:\n        done = int(np.count_nonzero(bandData['max'].max(axis=1) > 0))\n      except NameError:\n        pass\n      if done > 0: # no need to change what the device had finished\n        bandCPU[0:done] = bandData[0:done]\n      bandData = bandCPU\n\n    return bandData")],
 files=['fakecl.py'], demo=BD+'''
cmp((rng.rand(20,24,24)*200+1).astype(np.uint8),first=1,step=7)
''')
# ---- P01
SW='''
import numpy as np
from pyebsdindex import pcopt
'''
SEEDS['p01-personal-view']=dict(property='P01',needs='a swarm whose best particle moves on after it was found',breaks='the personal best positions share memory with the positions of the swarm, the location reported is not where the best cost was found',
 edits=[(P,"        self.pbest_loc = np.copy(self.pos)","        self.pbest_loc = self.pos")],
 demo=SW+'''
f=lambda x: float(np.sum((x-0.3)**2))
np.random.seed(1)
for m in ('auto','static'):
    v,x=pcopt.PSOOpt(dimensions=3,n_particles=8,hyperparammethod=m).optimize(f,start=np.zeros(3),bounds=(-np.ones(3),np.ones(3)),niter=9,verbose=0)
    assert abs(f(x)-v)<1e-9, 'the location reported does not have the cost reported'
''')
SEEDS['p01-bounce-first']=dict(property='P01',needs='a particle that leaves the bounds in one move',breaks='the bounds are enforced before the particles move, not after',
 edits=[(P,"        self.vel = nvel\n        self.pos += nvel\n\n        self.boundarycheck()\n","        self.vel = nvel\n        self.boundarycheck()\n        self.pos += self.vel\n")],
 demo=SW+'''
seen=[]
def f(x):
    seen.append(np.array(x)); return float(np.sum((x-0.95)**2))
np.random.seed(1)
pcopt.PSOOpt(dimensions=3,n_particles=12,hyperparammethod='auto',c1=3.5,c2=3.5).optimize(f,start=np.zeros(3),bounds=(-np.ones(3),np.ones(3)),niter=15,verbose=0)
assert np.abs(np.array(seen)).max()<=1.0, 'a candidate outside the bounds was evaluated'
''')
SEEDS['p01-warm-start']=dict(property='P01',needs='batch mode with more than one pattern',breaks='in batch mode each pattern starts from the centre found for the one before, and the search bounds wander with it',
 edits=[(P,"            PCoutRet[i, :] = newPC\n            costout[i] = cost\n","            PCoutRet[i, :] = newPC\n            costout[i] = cost\n            PC0 = newPC # neighbours are alike: a better start\n")],
 demo=SW+'''
class Plan:
    nBands=2; patDim=(10,10)
    def find_bands(s,p): return np.zeros((4,2),dtype=[('a','f4')])
class Ix: vendor='EDAX'; PC=np.array([.5,.5,.5]); bandDetectPlan=Plan()
seen=[]
def f(x,indexer=None,banddat=None):
    seen.append(np.array(x)); return float(np.sum((x-5)**2))
pcopt._optfunction=f; np.random.seed(1)
pcopt.optimize_pso(None,Ix(),batch=True,search_limit=0.1,niter=6,nswarmparticles=6,verbose=0)
assert np.abs(np.array(seen)-0.5).max()<0.1+1e-9, 'a candidate outside the search limit was evaluated'
''')
