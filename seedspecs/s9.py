import re
SEEDS={}
exec(open('/verif/seedspecs/_fakeray.py').read())
X='pyebsdindex/_ebsd_index_parallel.py'
ENVDEMO=FAKE+'''
import os
for v in (None,'','1,0','0'):
    os.environ.pop('CUDA_VISIBLE_DEVICES',None)
    if v is not None: os.environ['CUDA_VISIBLE_DEVICES']=v
    go(0,-1,4)
    assert os.environ.get('CUDA_VISIBLE_DEVICES')==v,(v,os.environ.get('CUDA_VISIBLE_DEVICES'))
'''
SEEDS['e01-empty-device-list']=dict(property='E01', needs='CUDA_VISIBLE_DEVICES set to the empty string before parallel indexing', breaks='an empty value counts as absent, so the variable is removed instead of restored',
 edits=[(X,'if cudagpuvis0 is not None:','if cudagpuvis0:')],demo=ENVDEMO)
SEEDS['e01-unset-stays-set']=dict(property='E01', needs='CUDA_VISIBLE_DEVICES absent before parallel indexing', breaks='the saved value defaults to the new one, so the variable stays set afterwards',
 edits=[(X,'cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES")','cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES", cudagpuvis)')],demo=ENVDEMO)
