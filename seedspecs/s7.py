SEEDS={}
RF='pyebsdindex/radon_fast.py'; BD='pyebsdindex/band_detect.py'
SEEDS['m01-pc-cast']=dict(property='M01', needs='one pattern centre per pattern, in single precision', breaks='per-pattern centres given in single precision are converted to pixels in the array of the caller',
 edits=[(RF,'pctemp =  np.asarray(PC, dtype=np.float32).copy()','pctemp =  np.asarray(PC, dtype=np.float32)')],
 demo='''import numpy as np
from pyebsdindex.radon_fast import Radon
r=Radon(imageDim=np.array([60,80]),nTheta=36,nRho=18)
bd=np.zeros((2,3),[('aveloc','f4',2),('theta','f4'),('rho','f4')]); bd['aveloc']=5
for dt in (np.float64,np.float32):
    pc=np.array([[.5,.6,.7],[.4,.5,.6]],dtype=dt); pc0=pc.copy()
    a=r.radon2pole(bd,PC=pc,vendor='OXFORD')
    assert np.array_equal(pc,pc0), dt
''')
SEEDS['m01-background-of-one']=dict(property='M01', needs='collect_background of a single pattern of floats whose Gaussian fit does not converge', breaks='the background of one pattern is that pattern itself, from which the mean is then taken in place',
 edits=[(BD,'''        back = np.mean(patsIn, axis = 0)
''','''        back = np.mean(patsIn, axis = 0) if npats > 1 else patsIn[0]
''')],
 demo='''import numpy as np
from pyebsdindex import band_detect
import scipy.optimize as so
def fail(*a,**k): raise RuntimeError('no fit')
for m in (so,): m.curve_fit=fail
if hasattr(band_detect,'curve_fit'): band_detect.curve_fit=fail
if hasattr(band_detect,'opt'): band_detect.opt.curve_fit=fail
b=band_detect.BandDetect(patDim=[60,60])
for n in (1,2):
    p=np.random.RandomState(0).uniform(1,9,(n,60,60)); q=p.copy()
    b.collect_background(patsIn=p)
    assert np.array_equal(p,q), n
''')
