P = 'pyebsdindex/ebsd_pattern.py'
MUT = [
 ('H01', P, "      self.yStep = dat[1]\n    f.close()\n    return 0", "      self.yStep = dat[1]\n    return 0"),
 ('H01', P, "    patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]\n    f.close()", "    patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]"),
 ('H01', P, "      fsrc.copy(hdf5path, newh5path)\n      fsrc.close()\n", "      fsrc.copy(hdf5path, newh5path)\n"),
 ('H01', P, "      fsrc.close()\n      fdst.close()\n", "      fdst.close()\n"),
 ('H01', P, "      fsrc = h5py.File(src, 'r')\n      fdst", "      fsrc = h5py.File(src, 'r+')\n      fdst"),
 ('H01', P, "    patterndset = f[self.h5patdatpth]\n    readpats", "    patterndset = f[self.h5patdatpth]\n    if nPatToRead < 1:\n      return -1\n    readpats"),
 ('H01', P, "      with open(Path(self.filepath).expanduser(),'br+') as f:\n        #print(patStart)\n        f.seek(0,0)", "      f = open(Path(self.filepath).expanduser(),'br+')\n      if True:\n        #print(patStart)\n        f.seek(0,0)"),
 ('H01', P, "    try:\n      f = open(Path(self.filepath).expanduser(),'rb')\n    except:\n      print(\"File Not Found:\",str(Path(self.filepath)))\n      return -1\n\n    f.seek(self.filePos)", "    try:\n      f = open(Path(self.filepath).expanduser(),'rb+')\n    except:\n      print(\"File Not Found:\",str(Path(self.filepath)))\n      return -1\n\n    f.seek(self.filePos)"),
 ('H01', P, "    self.h5datagroups = []\n    self.h5othergrps = []\n    groupsets = list(f.keys())\n    for grpset in groupsets:\n      if isinstance(f[grpset],h5py.Group):\n        if 'EBSD' in f[grpset]:\n          if 'Data'", "    self.h5datagroups = []\n    self.h5othergrps = []\n    groupsets = list(f.keys())\n    if len(groupsets) == 0:\n      return -2\n    for grpset in groupsets:\n      if isinstance(f[grpset],h5py.Group):\n        if 'EBSD' in f[grpset]:\n          if 'Data'"),
]
KEEP = [
 ('H01', P, "    patterndset = f[self.h5patdatpth]\n    readpats = np.array(patterndset[np.int64(patStart):np.int64(patStart+nPatToRead), :, :])\n    readpats = readpats.reshape(nPatToRead,self.patternH,self.patternW)\n    f.close()\n", "    with f:\n      patterndset = f[self.h5patdatpth]\n      readpats = np.array(patterndset[np.int64(patStart):np.int64(patStart+nPatToRead), :, :])\n    readpats = readpats.reshape(nPatToRead,self.patternH,self.patternW)\n"),
 ('H01', P, "    patterndset = f[self.h5patdatpth]\n    patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]\n    f.close()", "    try:\n      patterndset = f[self.h5patdatpth]\n      patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]\n    finally:\n      f.close()"),
 ('H01', P, "      fsrc.close()\n      fdst.close()\n", "      for h in (fsrc, fdst):\n        h.close()\n"),
 ('H01', P, "    try:\n      f = h5py.File(Path(self.filepath).expanduser(),'r+')\n    except:\n      print(\"File Not Found:\",str(Path(self.filepath)))\n      return -1\n\n    patterndset = f[self.h5patdatpth]\n    patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]\n    f.close()", "    f = self._h5open('r+')\n    if f is None:\n      return -1\n    patterndset = f[self.h5patdatpth]\n    patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]\n    f.close()\n\n  def _h5open(self, mode):\n    try:\n      return h5py.File(Path(self.filepath).expanduser(), mode)\n    except Exception:\n      print(\"File Not Found:\",str(Path(self.filepath)))\n      return None\n"),
]
