SEEDS={}
BD='pyebsdindex/band_detect.py'; PC='pyebsdindex/pcopt.py'; EP='pyebsdindex/ebsd_pattern.py'
SEEDS['a01-even-stride-keyword']=dict(property='A01', needs='collect_background of an array with even sampling of fewer patterns than it has', breaks='numpy.arange is given a keyword it does not have on the even-sampling path',
 edits=[(BD,'stride = np.arange(0, npats, int(npats/nsample)) # not great','stride = np.arange(start=0, stop=npats, stride=int(npats/nsample)) # not great')],
 demo='''import numpy as np
from pyebsdindex import band_detect
b=band_detect.BandDetect(patDim=[60,60])
p=np.random.RandomState(0).uniform(1,9,(6,60,60))
b.collect_background(patsIn=p,nsample=3,method='evenStride')
assert b.backgroundsub.shape==(60,60)
''')
SEEDS['a01-emsoft-batch-name']=dict(property='A01', needs='Nelder-Mead optimisation of an EMsoft centre, one pattern at a time (batch)', breaks='the batch branch of the EMsoft back conversion uses a name that is not defined in that function',
 edits=[(PC,'            PCoutRet[:, :3] *= np.atleast_2d(patdimnorm)\n            PCoutRet[:, 0] *= -1.0','            PCoutRet[:, :3] *= np.atleast_2d(patDimNorm)\n            PCoutRet[:, 0] *= -1.0')],
 demo='''import numpy as np, types
from pyebsdindex import pcopt
class Plan:
    patDim=np.array([60,80])
    def find_bands(self,p): return np.zeros((3,4))
pcopt._optfunction=lambda pc,*a: float(np.sum((np.asarray(pc).ravel()-.4)**2))
for batch in (False,True):
    ix=types.SimpleNamespace(vendor='EMSOFT',PC=np.array([1.,2.,15000.,50.]),bandDetectPlan=Plan())
    r=pcopt.optimize(None,ix,batch=batch)
    assert np.shape(r)[-1]==4
''')
