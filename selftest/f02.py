P = 'pyebsdindex/ebsd_pattern.py'
MUT = [
 ('F02', P, "pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)\n          ptemp", "pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nRows)+colstart)\n          ptemp"),
 ('F02', P, "        if (rowstart+nrowread) > self.nRows:\n          nrowread = np.int64(self.nRows - rowstart)", "        if (rowstart+nrowread) > self.nRows:\n          nrowread = np.int64(self.nRows - rowstart - 1)"),
 ('F02', P, "patStartCount=[pstart,ncolwrite],writeHead", "patStartCount=[pstart,nrowwrite],writeHead"),
 ('F02', P, "pats[np.int64(i*ncolwrite):np.int64((i+1)*ncolwrite), :, :]", "pats[np.int64(i*nrowwrite):np.int64(i*nrowwrite+ncolwrite), :, :]"),
 ('F02', P, "f.seek(np.int64(np.int64(nPerPat) * np.int64(patStart) * typebyte),1)", "f.seek(np.int64(np.int64(nPerPat) * np.int64(patStart)),1)"),
 ('F02', P, "    readpats = readpats.reshape(nPatToRead,self.patternH,self.patternW)\n    f.close()\n    yx = np.unravel_index(np.arange(np.int64(patStart)", "    readpats = readpats.reshape(nPatToRead,self.patternW,self.patternH)\n    f.close()\n    yx = np.unravel_index(np.arange(np.int64(patStart)"),
 ('F02', P, "    byteperpat = typebyte * nPerPat + 8\n", "    byteperpat = typebyte * (nPerPat + 8)\n"),
 ('F02', P, "    loc[:,1] = loc[:,1] // self.nCols", "    loc[:,1] = loc[:,1] // self.nRows"),
 ('F02', P, "      ii = np.int64(i - patStart)\n      if self.filePos[i] > 0:\n        f.seek(np.int64(self.filePos[i] + per_pat_head))", "      ii = np.int64(i - patStart)\n      if self.filePos[i] > 0:\n        f.seek(np.int64(self.filePos[ii] + per_pat_head))"),
 ('F02', P, "patterndset[patStart:patStart+nPatToWrite, :, :] = pat2write[0:nPatToWrite,:,:]", "patterndset[patStart:patStart+nPatToWrite-1, :, :] = pat2write[1:nPatToWrite,:,:]"),
 ('F02', P, "    maxval = 65535\n", "    maxval = 65534\n"),
 ('F02', P, "            dstf.seek(size-1,0)\n            #print('seek done')\n            dstf.write(b\"\\0\")\n          return", "            dstf.seek(size-2,0)\n            #print('seek done')\n            dstf.write(b\"\\0\")\n          return"),
 ('F02', P, "      if nPatToRead == 0:\n        nPatToRead = 1\n", "      if nPatToRead == 0:\n        nPatToRead = np.int64(self.nPatterns - patStart)\n"),
 ('F02', P, "      if (patStart + nPatToWrite) > self.nPatterns:\n        nPatToWrite = self.nPatterns - patStart", "      if (patStart + nPatToWrite) > self.nPatterns:\n        nPatToWrite = self.nPatterns"),
]
KEEP = [
 ('F02', P, "      if (patStart + nPatToRead) > self.nPatterns:\n        nPatToRead = np.int64(self.nPatterns - patStart)\n", "      nPatToRead = min(nPatToRead, np.int64(self.nPatterns - patStart))\n"),
 ('F02', P, "    f.seek(self.filePos)\n    nPerPat = self.patternW * self.patternH\n    typeread = self.filedatatype\n    typebyte = self.filedatatype(0).nbytes\n\n\n    f.seek(np.int64(np.int64(nPerPat) * np.int64(patStart) * typebyte),1)", "    nPerPat = self.patternW * self.patternH\n    typeread = self.filedatatype\n    typebyte = np.dtype(self.filedatatype).itemsize\n    f.seek(np.int64(self.filePos) + np.int64(nPerPat) * np.int64(patStart) * typebyte)"),
 ('F02', P, "        for i in range(nrowread):\n          pstart = np.int64(np.int64(np.int64(rowstart+i)*self.nCols)+colstart)\n", "        pstart = np.int64(rowstart*self.nCols + colstart) - np.int64(self.nCols)\n        for i in range(nrowread):\n          pstart = pstart + np.int64(self.nCols)\n"),
 ('F02', P, "    loc[:,0] = loc[:,0] % self.nCols\n    loc[:,1] = loc[:,1] // self.nCols\n", "    loc[:,1] //= self.nCols\n    loc[:,0] = loc[:,0] - self.nCols*(loc[:,0]//self.nCols)\n"),
 ('F02', P, "    readpats = np.array(patterndset[np.int64(patStart):np.int64(patStart+nPatToRead), :, :])\n", "    first = np.int64(patStart)\n    last = first + np.int64(nPatToRead)\n    readpats = patterndset[first:last][()]\n    readpats = np.asarray(readpats)\n"),
 ('F02', P, "      ii = np.int64(i - patStart)\n      if self.filePos[i] > 0:\n        f.seek(np.int64(self.filePos[i] + per_pat_head))", "      ii = np.int64(i - patStart)\n      where = np.int64(self.filePos[i])\n      if where > 0:\n        f.seek(where + per_pat_head)"),
]

_UPW = "with open(Path(self.filepath).expanduser(),'br+') as f:"
MUT += [
 ('F02', P, _UPW, _UPW.replace('br+', 'wb+')),
 ('F02', P, _UPW, _UPW.replace('br+', 'ab')),
 ('F02', P, "f = h5py.File(Path(self.filepath).expanduser(),'r+')", "f = h5py.File(Path(self.filepath).expanduser(),'w')"),
]
_TR = "            dstf.seek(size-1,0)\n            #print('seek done')\n            dstf.write(b\"\\0\")"
MUT += [('F02', P, _TR, "            dstf.truncate(size-1)")]
KEEP += [
 ('F02', P, _TR, "            dstf.truncate(size)"),
 ('F02', P, _UPW, _UPW.replace('br+', 'rb+')),
 ('F02', P, "f = h5py.File(Path(self.filepath).expanduser(),'r+')", "f = h5py.File(Path(self.filepath).expanduser(),mode='a')"),
]
