C='pyebsdindex/crystallometry.py'; P='pyebsdindex/ebsd_pattern.py'
SEEDS={}
SEEDS['c01-inverse-structure']=dict(property='C01', needs='a triclinic lattice (alpha, beta and gamma all different)', breaks='entry (1,2) of the inverse direct structure matrix is wrong for oblique lattices, so converting Cartesian directions back gives wrong indices',
 edits=[(C,'self.invDirectStructureMatrix[2, 1] = a*c*(cb*cg-ca)/(self.volume*sg)','self.invDirectStructureMatrix[2, 1] = a*c*(ca*cg-cb)/(self.volume*sg)')],
 demo='''from pyebsdindex import crystallometry as c
import numpy as np
for lat in ((5,6,7,80,95,105),(5,5,5,90,90,90),(4,4,6,90,90,120),(3,4,5,90,110,90),(3.1,7.2,5.5,71,84,77)):
    x=c.Crystal([],*lat)
    assert np.allclose(np.asarray(x.directStructureMatrix)@np.asarray(x.invDirectStructureMatrix),np.eye(3),atol=1e-4),lat
''')
SEEDS['f01-ebsp-v4-offset']=dict(property='F01', needs='an ebsp file of version 4 written by the library and read back', breaks='the pattern positions stored in version 4 headers are one byte short',
 edits=[(P,"          file_head_length = 9\n","          file_head_length = 8\n")],
 demo='''from pyebsdindex import ebsd_pattern as e
import numpy as np, tempfile, os
d=tempfile.mkdtemp(dir=os.environ['HOME'])
for v in (2,4):
    f=e.EBSPFile(os.path.join(d,'a%d.ebsp'%v))
    f.version=v; f.patternW=f.patternH=6; f.nCols=3; f.nRows=2; f.nPatterns=6; f.xStep=f.yStep=1.0; f.hasxypos=True; f.filedatatype=np.uint8; f.hexflag=0
    f.write_header(writeBlank=True,bitdepth=8)
    head=8 if v==2 else 9
    assert int(f.filePos[0])==head+8*6,(v,f.filePos[0])
    assert os.path.getsize(os.path.join(d,'a%d.ebsp'%v))==head+8*6+6*(16+18+36)
''')
SEEDS['f02-slab-past-last-column']=dict(property='F02', needs='a rectangular request that reaches past the last column', breaks='the request is clamped to the number of rows instead of the number of columns, so patterns of the next row are returned',
 edits=[(P,"""        if (colstart+ncolread) > self.nCols:
          ncolread = np.int64(self.nCols - colstart)
""","""        if (colstart+ncolread) > self.nCols:
          ncolread = np.int64(max(self.nCols, self.nRows) - colstart)
""")],
 demo='''from pyebsdindex import ebsd_pattern as e
import numpy as np, tempfile, os
p=os.path.join(tempfile.mkdtemp(dir=os.environ['HOME']),'a.up1')
for nc,nr in ((5,3),(3,5)):
    if os.path.exists(p): os.remove(p)
    f=e.UPFile(p); f.version=3; f.patternW=f.patternH=4; f.nCols=nc; f.nRows=nr; f.nPatterns=nc*nr; f.xStep=f.yStep=1.0; f.hexflag=0; f.filedatatype=np.uint8
    pats=np.zeros((nc*nr,4,4),np.uint8)+np.arange(nc*nr,dtype=np.uint8)[:,None,None]
    f.write_data(newpatterns=pats,writeHead=True)
    g=e.UPFile(p); g.read_header()
    r,_=g.read_data(returnArrayOnly=True,patStartCount=[[1,0],[9,2]],convertToFloat=False)
    want=[c+q*nc for q in range(2) for c in range(1,nc)]
    assert [int(x) for x in r[:,0,0]]==want,(nc,nr,r[:,0,0],want)
''')
SEEDS['h01-header-opened-for-writing']=dict(property='H01', needs='reading the header of a plain HDF5 pattern file that something else has open for reading (or that is write-protected)', breaks='the file is opened for update just to read its header',
 edits=[(P,"""    if path is not None:
      self.filepath = path

    try:
      f = h5py.File(Path(self.filepath).expanduser(),'r')
    except:
      print("File Not Found:",str(Path(self.filepath)))
      return -1
    if self.h5patdatpth is not None:""","""    if path is not None:
      self.filepath = path

    try:
      f = h5py.File(Path(self.filepath).expanduser(),'r+')
    except:
      print("File Not Found:",str(Path(self.filepath)))
      return -1
    if self.h5patdatpth is not None:""")],
 demo='''from pyebsdindex import ebsd_pattern as e
import numpy as np, tempfile, os, h5py
p=os.path.join(tempfile.mkdtemp(dir=os.environ['HOME']),'a.h5')
with h5py.File(p,'w') as f:
    f['pats']=np.zeros((6,4,5),np.uint8)
with h5py.File(p,'r') as keep:
    o=e.HDF5PatFile(p); o.h5patdatpth='pats'
    r=o.read_header()
    assert r!=-1 and int(o.patternW)==5 and int(o.nPatterns)==6
''')
