IS='pyebsdindex/_ebsd_index_single.py'
IP='pyebsdindex/_ebsd_index_parallel.py'
import runpy,os
FAKE=runpy.run_path(os.path.join(os.path.dirname(__file__),'s3.py'))['FAKE'] if '__file__' in globals() else ''
SEEDS={}
SEEDS['d03-parallel-rho-mask']=dict(property='D03', needs='parallel indexing without an indexer and a Radon mask other than the default', breaks='the rho mask of parallel indexing is left at the default of the indexer class',
 edits=[(IP,"            rhoMaskFrac=rhoMaskFrac,\n            nBands=nBands,\n            patDim=pdim,","            nBands=nBands,\n            patDim=pdim,")],
 demo='''import sys, types
ray=types.ModuleType('ray')
ray.remote=lambda **k: (lambda c: c)
sys.modules['ray']=ray
import numpy as np
import pyebsdindex._ebsd_index_parallel as ip
from pyebsdindex import ebsd_index
made=[]
real=ip.EBSDIndexer
class Stop(Exception): pass
def rec(*a,**k):
    made.append(real(*a,**k)); raise Stop
ip.EBSDIndexer=rec
for m in (0.05,0.1,0.2,0.3):
    try: ip.index_pats_distributed(patsin=np.random.default_rng(0).random((3,60,60)),rhoMaskFrac=m,ncpu=2)
    except Stop: pass
    assert made[-1].bandDetectPlan.rhoMaskFrac==m,(m,made[-1].bandDetectPlan.rhoMaskFrac)
''')
SEEDS['d03-call-centre-ignored']=dict(property='D03', needs='a pattern centre passed to the indexing call of an indexer that is indexing patterns of a scan file with locations', breaks='the pattern centre of the call is only used when no location of the patterns is known',
 edits=[(IS,"        if PC is None:\n            PC_0 = self.PC\n        else:\n            PC_0 = PC","        if PC is None or xyloc is not None:\n            PC_0 = self.PC\n        else:\n            PC_0 = PC")],
 demo='''import numpy as np
from pyebsdindex import _ebsd_index_single as s
ix=s.EBSDIndexer(phaselist=['FCC'],patDim=(60,60))
p=np.random.default_rng(0).random((2,60,60)).astype('f4')
other=np.array([.4,.6,.55])
for xy in (None,np.array([[0,0],[1,0]])):
    b1,n1=ix._detectbands(p,other,xyloc=xy)
    n2=ix.bandDetectPlan.radonPlan.radon2pole(b1,PC=other,vendor=ix.vendor)
    assert np.allclose(n1,n2)
''')
