F='pyebsdindex/ebsdfile.py'
IS='pyebsdindex/_ebsd_index_single.py'
SI='pyebsdindex/EBSDImage/scalarimage.py'
PRE='''import numpy as np, types
from pyebsdindex import _ebsd_index_single as m
class Lib:
    def __init__(self, nm, fit): self.nm, self.fit = np.array(nm), np.array(fit, float)
    def bandindex(self, bn, band_intensity=None, band_widths=None, verbose=0):
        w = bn[:,0,0].astype(int); n = w.size; q = np.zeros((n,4)); q[:,0]=1
        return q, self.fit[w], np.full(n,.5), np.zeros((n,bn.shape[1]),int), self.nm[w], np.ones((n,2),int), np.ones(n,int)
def run(libs, n=6, nb=8):
    ix = m.EBSDIndexer.__new__(m.EBSDIndexer)
    ix.phaseLib = libs; ix.phaselist=[]; ix.nband_earlyexit=99; ix.vendor='EDAX'; ix.sampleTilt=70.; ix.camElev=5.
    ix.bandDetectPlan = types.SimpleNamespace(rhoMax=50., rhoMaskFrac=.1)
    T = ix.dataTemplate = np.dtype([('quat','f8',4),('iq','f4'),('pq','f4'),('cm','f4'),('phase','i4'),('fit','f4'),('nmatch','i4'),('matchattempts','i4',2),('totvotes','i4')])
    bd = np.zeros((n,nb),[('max','f4'),('normmax','f4'),('valid','i4'),('rho','f4'),('theta','f4'),('width','f4'),('band_match_index','i4',(len(libs),))])
    bd['max']=1; bd['valid']=1; bd['theta']=1
    bn = np.zeros((n,nb,3)); bn[:,:,0]=np.arange(n)[:,None]
    return ix._indexbandsphase(bd, bn)[0]
'''
SEEDS={}
SEEDS['s01-bands-of-unsolved']=dict(property='S01', needs='a pattern that a phase matches with fewer than three bands', breaks='the matched-band count is stored for patterns without a solution',
 edits=[(IS,'''                indxData["nmatch"][j, whgood2] = nMatch[whgood]''','''                indxData["nmatch"][j, p2do] = nMatch''')],
 demo=PRE+'''
d = run([Lib([8,2,6,0,1,5],[.5,90,.7,180,90,.6])])
for k in (0,1):
    un = d[k]['phase']<0
    assert list(un)==[False,True,False,True,True,False], d[k]['phase']
    assert (d[k]['nmatch'][un]==0).all() and (d[k]['fit'][un]==180).all(), d[k]
''')
SEEDS['s01-stale-best']=dict(property='S01', needs='three phases, of which the second and the third both beat the first', breaks='the second phase is compared with the first layer and not with the best so far',
 edits=[(IS,'''> ((3.0 - indxData[-1, :]["fit"]) * indxData[-1, :]["nmatch"])''','''> ((3.0 - indxData[0, :]["fit"]) * indxData[0, :]["nmatch"])''')],
 demo=PRE+'''
d = run([Lib([4]*6,[1.5]*6), Lib([8]*6,[.3]*6), Lib([6]*6,[1.]*6)])
assert (d[-1]['phase']==1).all(), d[-1]['phase']
''')
SEEDS['s01-fit-statistics']=dict(property='S01', needs='a map of the fit with a pattern that was not indexed', breaks='the range of the fit map counts the patterns without solution',
 edits=[(SI,'''    mn = imagedata[imagedata < 179].mean()
    std = imagedata[imagedata < 179].std()
    norm = plt.Normalize(vmin=max''','''    mn = imagedata[imagedata < 179].mean()
    std = imagedata[imagedata < 181].std()
    norm = plt.Normalize(vmin=max''')],
 demo='''import numpy as np, types
from pyebsdindex.EBSDImage.scalarimage import scalarimage
ix = types.SimpleNamespace(fID=types.SimpleNamespace(nCols=4))
def im(last):
    d = np.zeros((2,8),[('fit','f4'),('phase','i4')]); d['fit'][-1]=[.5,.6,.7,.8,.9,1.,1.1,last]
    return scalarimage(d,ix,datafield='fit',xsize=4).reshape(8,3)
a = im(180.)
assert len({tuple(x) for x in a[:7]})==7, a
''')
IP='pyebsdindex/EBSDImage/IPFcolor.py'
SEEDS['i01-hex-mirror']=dict(property='I01', needs='a hexagonal direction between 30 and 60 degrees of the fundamental sector', breaks='hexagonal directions are folded at 30 degrees with the mirror of another sector, so equivalent directions get different colours',
 edits=[(IP,'''    const = 2. * (nx * xstalv[wh,0] + ny * xstalv[wh, 1])
    xstalv[wh, 0] -= const * nx''','''    const = 2. * (nx * xstalv[wh,0] + ny * xstalv[wh, 1])
    xstalv[wh, 0] -= const * ny''')],
 demo='''import numpy as np
from pyebsdindex.EBSDImage import IPFcolor as c
rng=np.random.RandomState(1)
d=rng.normal(size=(60,3)); d/=np.linalg.norm(d,axis=1)[:,None]
m=d*[1,-1,1]
assert np.allclose(c.ipf_color_hex(d),c.ipf_color_hex(m),atol=1e-5)
''')
SEEDS['i01-first-layer']=dict(property='I01', needs='two phases, of which the second was solved in a point', breaks='all phases are drawn with the orientation of the best solution of the first phase',
 edits=[(IP,"quat = ebsddata[phcount]['quat']","quat = ebsddata[phcount*0]['quat']")],
 demo='''import numpy as np, types
from pyebsdindex.EBSDImage import IPFcolor as c
from pyebsdindex import rotlib
rng=np.random.RandomState(2)
q=rng.normal(size=(3,8,4)); q/=np.linalg.norm(q,axis=-1)[...,None]
d=np.zeros((3,8),[('quat','f8',4),('phase','i4'),('fit','f4')]); d['quat']=q
d['phase'][0]=0; d['phase'][1]=1; d['phase'][2]=[0,1]*4; d['quat'][2]=np.where((d['phase'][2]==1)[:,None],q[1],q[0])
ix=types.SimpleNamespace(phaseLib=[types.SimpleNamespace(lauecode=43),types.SimpleNamespace(lauecode=62)],fID=types.SimpleNamespace(nCols=4))
im=c.makeipf(d,ix,xsize=4).reshape(8,3)
a,b=c.qu2ipf_cubic(d['quat'][2]),c.qu2ipf_hex(d['quat'][2])
assert np.allclose(im,np.where((d['phase'][2]==1)[:,None],b,a),atol=1e-5)
''')
