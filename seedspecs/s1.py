CSF='pyebsdindex/crystal_sym.py'; C='pyebsdindex/crystallometry.py'; R='pyebsdindex/radon_fast.py'; RL='pyebsdindex/rotlib.py'; P='pyebsdindex/pcopt.py'
SEEDS={}
SEEDS['y02-trigonal-first']=dict(property='Y02', needs='space group 143 (P3), the first trigonal group', breaks='space group 143 is given the tetragonal Laue class',
 edits=[(CSF,'111, 123, 143, 147','111, 123, 144, 147')],
 demo='''from pyebsdindex import crystal_sym as s
t=[(1,2,1),(3,15,2),(16,74,22),(75,88,4),(89,142,42),(143,148,3),(149,167,32),(168,176,6),(177,194,62),(195,206,23),(207,230,43)]
for a,b,l in t:
    for k in range(a,b+1):
        assert s.spacegroup2lauenumber(k)==l,(k,s.spacegroup2lauenumber(k))
''')
SEEDS['y01-trigonal-low']=dict(property='Y01', needs='a phase of Laue class -3', breaks='the operators of Laue class -3 are the identity, one three-fold and a two-fold: not a group',
 edits=[(CSF,"""  if low:
    symops = symops[0:3, :]
""","""  if low:
    symops = symops[0::2, :]
""")],
 demo='''from pyebsdindex import crystal_sym as s
import numpy as np
def mul(a,b):
    w,x,y,z=a; p,q,r,t=b
    return np.array([w*p-x*q-y*r-z*t,w*q+x*p+y*t-z*r,w*r-x*t+y*p+z*q,w*t+x*r-y*q+z*p])
n={43:24,23:12,62:12,6:6,32:6,3:3,42:8,4:4,22:4,2:2,1:1}
for l,k in n.items():
    o=np.asarray(s.laueid2symops(l),dtype=float).reshape(-1,4)
    assert len(o)==k,(l,len(o))
    for a in o:
        for b in o:
            m=np.max(np.abs(o@mul(a,b)))
            assert abs(m-1)<1e-4,(l,a,b)
''')
SEEDS['c01-oblique-metric']=dict(property='C01', needs='a triclinic lattice (alpha, beta and gamma all different)', breaks='reciprocal metric entry (1,3) wrong for oblique lattices',
 edits=[(C,'a*b**2*c*(cg*ca-cb)','a*b**2*c*(cg*cg-cb)' )],
 demo='''from pyebsdindex import crystallometry as c
import numpy as np, inspect
for lat in ((5,6,7,80,95,105),(5,5,5,90,90,90),(4,4,6,90,90,120),(3,4,5,90,110,90),(3.1,7.2,5.5,71,84,77)):
    x=c.Crystal([],*lat)
    m=np.asarray(x.metricTensor); r=np.asarray(x.reciprocalMetricTensor)
    assert np.allclose(m@r,np.eye(3),atol=1e-6),(lat,m@r)
''')
SEEDS['v01-pixel-size-per-pattern']=dict(property='V01', needs='EMsoft pattern centres given one per pattern, with different pixel sizes', breaks='all patterns use the first pattern\'s pixel size',
 edits=[(R,"t[:,2] /= pctemp[:,3]","t[:,2] /= pctemp[0,3]")],
 demo='''from pyebsdindex.radon_fast import Radon
import numpy as np
r=Radon(imageDim=np.array([60,80]),nTheta=180,nRho=90)
bd=np.zeros((2,3),dtype=[('aveloc',np.float32,2),('theta',np.float32),('rho',np.float32)])
bd['aveloc']=np.random.default_rng(0).uniform(5,80,(2,3,2))
pc=np.array([[3.5,-6,15000,50],[3.5,-6,9000,25]],dtype=np.float32)
both=r.radon2pole(bd.copy(),PC=pc,vendor='EMSOFT')
for i in range(2):
    one=r.radon2pole(bd[i:i+1].copy(),PC=pc[i],vendor='EMSOFT')
    assert np.allclose(one[0],both[i],atol=1e-5),i
''')
SEEDS['r01-elementwise-cross']=dict(property='R01', needs='rotating several vectors by several quaternions elementwise', breaks='the elementwise vector rotation mixes the first vector\'s component into every row',
 edits=[(RL,"""def quat_vectorLNN(q,v,n,intype,p=P):
  pf = numba.float32(p > 0) * 2.0 - 1.0
  vout = np.zeros((n,3),dtype=intype)
  vtemp = np.zeros((3),dtype=intype)
  vtemp2 = np.zeros((3),dtype=intype)
  r = np.zeros((3),dtype=intype)
  w = numba.float64(0.0)
  for i in numba.prange(n):
    w = q[i,0]""","""def quat_vectorLNN(q,v,n,intype,p=P):
  pf = numba.float32(p > 0) * 2.0 - 1.0
  vout = np.zeros((n,3),dtype=intype)
  vtemp = np.zeros((3),dtype=intype)
  vtemp2 = np.zeros((3),dtype=intype)
  r = np.zeros((3),dtype=intype)
  w = numba.float64(q[0,0])
  for i in numba.prange(n):
    w = q[i,0] if i < n - 1 else w""")],
 demo='''from pyebsdindex import rotlib
import numpy as np
g=np.random.default_rng(1)
q=g.normal(size=(5,4)); q/=np.linalg.norm(q,axis=1)[:,None]; v=g.normal(size=(5,3))
a=rotlib.quat_vector(q,v)
for i in range(5):
    assert np.allclose(a[i],rotlib.quat_vector(q[i],v[i]),atol=1e-6),i
''')
SEEDS['r02-ax2ho-half']=dict(property='R02', needs='converting a rotation of 180 degrees to the Rodrigues form and back', breaks='half-turn', edits=[], demo='')
del SEEDS['r02-ax2ho-half']
SEEDS['v01-kikuchipy-height']=dict(property='V01', needs='a non-square detector and the kikuchipy or Bruker convention', breaks='PCz is scaled by the pattern width instead of its height',
 edits=[(R,"t *=  np.array([dimf[1], dimf[0], -dimf[0]])","t *=  np.array([dimf[1], dimf[0], -dimf[1]])")],
 demo='''from pyebsdindex.radon_fast import Radon
import numpy as np
H,W=60,80
r=Radon(imageDim=np.array([H,W]),nTheta=180,nRho=90)
bd=np.zeros((1,4),dtype=[('aveloc',np.float32,2),('theta',np.float32),('rho',np.float32)])
bd['aveloc']=np.random.default_rng(0).uniform(5,80,(1,4,2))
x,y,z=0.48,0.6,0.7
a=r.radon2pole(bd.copy(),PC=[x,y,z],vendor='EDAX')            # x W, y H, z min(H,W)
b=r.radon2pole(bd.copy(),PC=[x,1-y,z*min(H,W)/H],vendor='KIKUCHIPY')
assert np.allclose(a,b,atol=1e-4)
''')
