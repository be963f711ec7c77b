F='pyebsdindex/ebsdfile.py'
IS='pyebsdindex/_ebsd_index_single.py'
PRE='''import numpy as np, tempfile, os, types
from pyebsdindex import ebsdfile
tmp=tempfile.mkdtemp(dir=os.environ['HOME'])
def scan(nph,n,phase,fid=None):
    d=np.zeros((nph+1,n),[('quat','f8',4),('iq','f4'),('pq','f4'),('cm','f4'),('phase','i4'),('fit','f4'),('nmatch','i4')])
    d['quat'][...,0]=1; d['cm']=.5; d['fit']=.7; d['phase'][-1]=phase
    lib=[types.SimpleNamespace(phasename='ph%d'%k,lauecode=43,latticeparameter=np.array([.3+.1*k]*3+[90.]*3),npolefamilies=1,polefamilies=np.array([[1,1,1]]),spacegroup=225) for k in range(nph)]
    return types.SimpleNamespace(PC=[.5,.6,.7],sampleTilt=70.,camElev=5.,phaseLib=lib,fID=fid),d
def ang(ix,d,**k):
    f=tmp+'/a.ang'
    ebsdfile.writeang(f,ix,d,**k)
    L=open(f).read().splitlines()
    names,cur={},None
    for l in L:
        if l.startswith('# Phase '): cur=int(l.split()[2])
        if l.startswith('# MaterialName'): names[cur]=l.split()[2]
    return names,np.array([[float(x) for x in l.split()] for l in L if l and l[0]!='#'])
'''
SEEDS={}
SEEDS['t01-header-order']=dict(property='T01', needs='two or more phases', breaks='the header entries of a .ang file are numbered in the reverse order of the phases they describe',
 edits=[(F,"    for phase in reversed(indexer.phaseLib):","    for phase in indexer.phaseLib:")],
 demo=PRE+'''
for nph in (1,2,3):
    ix,d=scan(nph,6,[i%nph for i in range(6)])
    names,rows=ang(ix,d,ncols=3)
    for r,p in zip(rows,d['phase'][-1]):
        assert names[max(int(r[7]),1)]=='ph%d'%p,(nph,names,r,p)
''')
SEEDS['t01-rounded-row']=dict(property='T01', needs='a scan with more than two columns', breaks='the row of a point is rounded to the nearest instead of down',
 edits=[(F,"(int(i / ncols)) * float(ystep)","round(i / ncols) * float(ystep)")],
 demo=PRE+'''
for nc in (1,2,3,5):
    ix,d=scan(1,11,0)
    names,rows=ang(ix,d,ncols=nc,xstep=.5,ystep=.25)
    assert np.allclose(rows[:,3],[i%nc*.5 for i in range(11)]) and np.allclose(rows[:,4],[i//nc*.25 for i in range(11)])
''')
