SEEDS={}
B='pyebsdindex/band_detect.py'
PRE='''
import numpy as np
from pyebsdindex.band_detect import BandDetect
rng=np.random.RandomState(4)
def det(n=3):
    return BandDetect(patDim=[40,44],nTheta=60,nRho=40,tSigma=1.5,rSigma=2.0,rhoMaskFrac=0.1,nBands=9)
'''
SEEDS['b01-common-minimum']=dict(property='B01', needs='patterns of clearly different contrast detected in one call', breaks='the floor taken off the convolved Radon transform is the lowest of all patterns of the block instead of each pattern\'s own',
 edits=[(B,'rdnConv -= mns.reshape((1,1, shp[2]))','rdnConv -= mns.min()')],
 demo=PRE+'''
p=(rng.rand(5,40,44)*100).astype(np.float32); p[3]*=9
d=det()
every=d.find_bands(p.copy())
for i in range(5):
    one=d.find_bands(p[i:i+1].copy())
    for f in ('max','avemax','maxloc','valid'):
        a,b=np.squeeze(np.asarray(every[i][f],float)),np.squeeze(np.asarray(one[0][f],float))
        assert np.allclose(a,b,rtol=1e-3,atol=1e-3),(i,f,a,b)
''')
SEEDS['b01-whole-row-valid']=dict(property='B01', needs='a pattern with fewer Radon peaks than bands asked for', breaks='finding one band marks the whole row of the pattern as valid',
 edits=[(B,'bandData_valid[q,i] = 1','bandData_valid[q,:] = 1')],
 demo=PRE+'''
d=BandDetect(patDim=[40,44],nTheta=60,nRho=40,tSigma=1.5,rSigma=2.0,rhoMaskFrac=0.1,nBands=60)
p=np.zeros((2,40,44),np.float32)
y,x=np.mgrid[0:40,0:44]
p[:]=np.exp(-((x*0.6+y*0.8-28)/3.)**2)*100
r=d.find_bands(p)
v=r['valid'].astype(bool)
assert not v.all()
assert (r['max'][v]>-1.e6).all(), 'a band that was not found is marked valid'
''')
