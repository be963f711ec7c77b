import runpy, os
S12=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'s12.py'))
FCL,SCAN=S12['FCL'],S12['SCAN']
SEEDS={}
G='pyebsdindex/opencl/nlpar_cl.py'; R='pyebsdindex/opencl/nlpar_clray.py'; K='pyebsdindex/opencl/clnlpar.cl'; B='pyebsdindex/opencl/band_detect_cl.py'
WATCH='''
was=fakecl.Kernel.__call__
def watch(self,queue,g,l,*a,**k):
    seen(self.name,[int(x) for x in g],a)
    return was(self,queue,g,l,*a,**k)
fakecl.Kernel.__call__=watch
'''
SEEDS['g01-clip-given-radius']=dict(property='G01',needs='a search radius above 10 that was set on the object, not given in the call',breaks='the search radius is clipped only when it is an argument of the call, the private arrays of the kernel are too small for the others',
 edits=[(G,"""    if self.searchradius > 10:
      print("NLPAR on GPU is limited to a search radius <= 10")
      print("The search radius has been clipped to 10")
      searchradius = 10
""","""    if (searchradius is not None) and (searchradius > 10):
      print("NLPAR on GPU is limited to a search radius <= 10")
      print("The search radius has been clipped to 10")
      searchradius = 10
""")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_cl
class Stop(Exception): pass
def seen(name,g,a):
    if name=='calcnlpar':
        assert (2*int(a[5])+1)**2<=512, 'the private arrays of the kernel hold 512 neighbours'
        raise Stop
'''+WATCH+'''
d,s=scan(5,5)
try: run(nlpar_cl.NLPAR,'calcnlpar_cl',d,5,5,6,7,s,12)
except Stop: pass
''')
SEEDS['g01-unpadded-stack']=dict(property='G01',needs='patterns whose pixel number is not a multiple of 16',breaks='the last vector read of the last pattern of a tile leaves the device buffer',
 edits=[(G,"""    mxchunk = chunksize.max()

    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen) + 1)

    datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))

    nnn = int((2 * nn + 1) ** 2)
""","""    mxchunk = chunksize.max()

    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen))

    datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))

    nnn = int((2 * nn + 1) ** 2)
""")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_cl
def seen(name,g,a):
    if name=='calcsigma':
        steps,npix=int(a[6]),int(a[7])
        assert ((g[0]*g[1]-1)*npix+16*steps)*4<=a[0].size, 'the last pattern is read past the end of the buffer'
'''+WATCH+'''
for nr,nc,h,w in ((3,3,6,7),(4,4,4,8),(4,4,5,5),(2,3,8,8)):
    d,s=scan(nr,nc,h,w)
    run(nlpar_cl.NLPAR,'calcsigma_cl',d,nr,nc,h,w,None,1,nn=1)
''')
SEEDS['g01-first-tile']=dict(property='G01',needs='a scan read in several tiles, the first one smaller than a tile inside the scan',breaks='the device buffers are sized for the first tile',
 edits=[(G,"    mxchunk = chunksize.max()\n\n    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen) + 1)\n\n    datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))\n\n    nnn = int((2 * nn + 1) ** 2)\n","    mxchunk = chunksize[0, 0] # the last tiles are never larger than the first\n\n    npadmx = clvectlen * int(np.ceil(mxchunk*npat_point/ clvectlen) + 1)\n\n    datapad_gpu = cl.Buffer(ctx, mf.READ_WRITE, size=int(npadmx) * int(4))\n\n    nnn = int((2 * nn + 1) ** 2)\n")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_cl
def seen(name,g,a):
    if name.startswith('nlload'): assert g[0]*4<=a[1].size, 'the patterns do not fit into the buffer'
'''+WATCH+'''
for tb in (None,1500,2000,3000):
    d,s=scan(12,12)
    run(nlpar_cl.NLPAR,'calcsigma_cl',d,12,12,6,7,None,1,tb=tb,nn=1)
    assert fakecl.guards()==0
''')
SEEDS['g01-small-private']=dict(property='G01',needs='a search radius of 8 to 10',breaks='the private arrays of the NLPAR kernel hold fewer neighbours than the host permits',
 edits=[(K,"  float d[512]; // taking a risk here that noone will want a SR > 10\n  float n[512]; \n  float diff_step[512];","  float d[256]; // taking a risk here that noone will want a SR > 7\n  float n[256]; \n  float diff_step[256];")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_cl
from pyebsdindex.nlpar_cpu import NLPAR
n=23
d,s=scan(n,n,4,4)
a=run(nlpar_cl.NLPAR,'calcnlpar_cl',d,n,n,4,4,s,9); c=run(NLPAR,'calcnlpar',d,n,n,4,4,s,9,chunksize=n)
f=lambda x:x.reshape(n,n,4,4)[10:13,10:13]
assert np.allclose(f(a),f(c),rtol=2e-3), 'CPU and GPU differ'
''')
SEEDS['g01-limits-width']=dict(property='G01',needs='NLPAR over Ray workers',breaks='the tile limits are handed over as 32-bit integers to a kernel that reads 64-bit ones',
 edits=[(R,"    calclim = np.array([cstartcalc, rstartcalc, ncolchunk, nrowchunk], dtype=np.int64)","    calclim = np.array([cstartcalc, rstartcalc, ncolchunk, nrowchunk], dtype=np.int32)")],
 files=['fakecl.py'], demo=FCL+SCAN+'''
from pyebsdindex.opencl import nlpar_clray
def seen(name,g,a):
    if name=='calcnlpar':
        lim=a[3].data.tobytes()
        assert len(lim)>=32, 'the kernel reads four 64-bit integers'
        c,r,nc,nr=np.frombuffer(lim,np.int64)[:4]
        assert 0<=c and c+g[0]<=nc<=9 and 0<=r and r+g[1]<=nr<=9, 'limits'
'''+WATCH+'''
d,s=scan(9,9)
run(nlpar_clray.NLPAR,'calcnlpar_clray',d,9,9,6,7,s,1)
''')
BD=FCL+'''
from pyebsdindex.opencl import band_detect_cl
rng=np.random.RandomState(4)
def plan(**kw):
    o=dict(patDim=(24,24),nTheta=30,nRho=20,nBands=4); o.update(kw)
    return band_detect_cl.BandDetect(**o)
'''
SEEDS['g01-stack-of-images']=dict(property='G01',needs='a number of patterns that is not a multiple of 16',breaks='the buffer of the patterns converted to float is sized for the patterns, the kernel fills it in steps of 16',
 edits=[(B,"size=int(int(shapeIm[1])*int(shapeIm[2])*int(nImCL) * int(4)))  # 32-bit float","size=int(int(shapeIm[1])*int(shapeIm[2])*int(nIm) * int(4)))  # 32-bit float")],
 files=['fakecl.py'], demo=BD+'''
p=(rng.rand(15,24,24)*200+1).astype(np.uint8)
plan().find_bands(p)
assert fakecl.guards()==0, 'written past the end of a buffer'
''')
SEEDS['g01-double-background']=dict(property='G01',needs='a background in another type than 32-bit floats',breaks='the background goes to the device in the type it has on the host',
 edits=[(B,"hostbuf=background.astype(np.float32))","hostbuf=np.ascontiguousarray(background))")],
 files=['fakecl.py'], demo=BD+'''
p=(rng.rand(16,24,24)*200+1).astype(np.uint8)
g=plan(); q=[]
for t in (np.float32,np.float64):
    g.backgroundsub=(p.mean(axis=0).reshape(1,24,24)).astype(t) if False else p.mean(axis=0).astype(t)
    q.append(g.find_bands(p.copy())['max'].copy())
assert np.allclose(q[0],q[1],rtol=1e-4), 'the result depends on the type of the background'
''')
SEEDS['g01-release-before-display']=dict(property='G01',needs='verbose output of the convolved Radon transform',breaks='the buffer of the convolved Radon transform is released before it is copied for the display',
 edits=[(B,"        lMaxRdn.release()\n        bandData['max']","        lMaxRdn.release()\n        rdnConv.release()\n        bandData['max']"),(B,"        rdnConv.release()\n        rdnConv = None\n\n        blabeltime","        rdnConv = None\n\n        blabeltime")],
 files=['fakecl.py'], demo=BD+'''
fakecl.Buffer.release=lambda s: setattr(s,'gone',True)
c=fakecl.enqueue_copy
def copy(q,dest,src,**k):
    for b in (dest,src):
        assert not getattr(b,'gone',False), 'a released buffer is copied'
    return c(q,dest,src,**k)
sys.modules['pyopencl'].enqueue_copy=copy; band_detect_cl.cl.enqueue_copy=copy
failed=[]; from pyebsdindex import band_detect
was=band_detect.BandDetect.find_bands
def cpu(self,*a,**k): failed.append(1); k['verbose']=0; return was(self,*a,**k)
band_detect.BandDetect.find_bands=cpu
g=plan(); g._display_radon_pattern=lambda *a:None
g.find_bands((rng.rand(16,24,24)*200+1).astype(np.uint8),verbose=2)
assert not failed, 'the device path failed'
''')
