P = 'pyebsdindex/ebsd_pattern.py'
MUT = [
 ('F01', P, "      self.extraPatterns = np.fromfile(f, dtype=np.uint8, count=1)[0]", "      self.extraPatterns = np.fromfile(f, dtype=np.uint16, count=1)[0]"),
 ('F01', P, "np.asarray(self.nCols,dtype=np.uint32).tofile(f)\n      np.asarray(self.nRows,dtype=np.uint32).tofile(f)\n      np.asarray(self.hexflag", "np.asarray(self.nRows,dtype=np.uint32).tofile(f)\n      np.asarray(self.nCols,dtype=np.uint32).tofile(f)\n      np.asarray(self.hexflag"),
 ('F01', P, "        self.filePos = 42\n", "        self.filePos = 43\n"),
 ('F01', P, "st_size - 16)", "st_size - 42)"),
 ('F01', P, "self.filePos = 25 + self.patternW * self.patternH * self.filedatatype(0).nbytes", "self.filePos = 25 + self.patternW * self.patternH"),
 ('F01', P, "          pat_footer_length = 16", "          pat_footer_length = 18"),
 ('F01', P, "      np.asarray(self.filePos, dtype=np.uint64).tofile(f)", "      np.asarray(self.filePos, dtype=np.uint32).tofile(f)"),
 ('F01', P, "        if self.version >= 4:\n          file_head_length = 9\n", ""),
 ('F01', P, "pathead = np.array([0, np.int64(self.patternH), np.int64(self.patternW),", "pathead = np.array([0, np.int64(self.patternW), np.int64(self.patternH),"),
 ('F01', P, "      self.patternW = shp[-1]\n      self.patternH = shp[-2]", "      self.patternW = shp[-2]\n      self.patternH = shp[-1]"),
 ('F01', P, "headerpath['X Step'][()][0]", "headerpath['Y Step'][()][0]"),
 ('F01', P, "f.seek(24, 1)", "f.seek(16, 1)"),
]
KEEP = [
 ('F01', P, "      dat = np.fromfile(f, dtype=np.uint32, count=3)\n      self.patternW = dat[0]\n      self.patternH = dat[1]\n      self.filePos = dat[2]\n      self.extra", "      self.patternW, self.patternH = np.fromfile(f, dtype=np.uint32, count=2)\n      self.filePos = np.fromfile(f, dtype=np.uint32, count=1)[0]\n      self.extra"),
 ('F01', P, "      np.asarray(self.xStep,dtype=np.float64).tofile(f)\n      np.asarray(self.yStep,dtype=np.float64).tofile(f)", "      np.array([self.xStep, self.yStep], dtype=np.float64).tofile(f)"),
 ('F01', P, "      np.asarray(self.patternW,dtype=np.uint32).tofile(f)\n      np.asarray(self.patternH,dtype=np.uint32).tofile(f)\n      np.asarray(self.filePos,dtype=np.uint32).tofile(f)\n      np.asarray(self.extra", "      for word in (self.patternW, self.patternH, self.filePos):\n        np.asarray(word,dtype=np.uint32).tofile(f)\n      np.asarray(self.extra"),
 ('F01', P, "      isscan = np.fromfile(f, dtype=np.int16, count=1)\n      bitdepth = np.fromfile(f, dtype=np.uint8, count=1)\n      self.bitdepth = bitdepth[0]", "      isscan = np.fromfile(f, dtype=np.int16, count=1)[0]\n      self.bitdepth = np.fromfile(f, dtype=np.uint8, count=1)[0]"),
 ('F01', P, "        if self.version >= 4:\n          file_head_length = 9\n", "        if not self.version < 4:\n          file_head_length += 1\n"),
]
