N = 'pyebsdindex/nlpar_cpu.py'
C = 'pyebsdindex/opencl/nlpar_cl.py'
R = 'pyebsdindex/opencl/nlpar_clray.py'
E = 'pyebsdindex/ebsd_pattern.py'
SAME = "          pathok = not self.filepathout.samefile(patternfile.filepath)\n"
BASE = """      dst = Path(str(src.expanduser().resolve())+'.copy')
    shutil.copyfile(src,dst)

  def copy_obj"""
SETC = """    patternfile = self.getinfileobj()
    self.setoutfile(patternfile, filepath=fileout)
    patternfileout = self.getoutfileobj()
"""
SETR = """    self.patternfile = self.getinfileobj()
    self.setoutfile(self.patternfile, filepath=fileout)
    self.patternfileout = self.getoutfileobj()
"""
UPW = """          with open(dst, 'wb') as dstf:
            head = dstf.write(head)
            #print('write head')
            dstf.seek(size-1,0)
            #print('seek done')
            dstf.write(b"\\0")
          return
"""
MUT = [
    ('N01', N, SAME, "          pathok = str(self.filepathout) != str(patternfile.filepath)\n"),
    ('N01', N, SAME, "          pathok = True\n"),
    ('N01', N, SAME, "          pathok = self.filepathout.resolve() != Path(patternfile.filepath).resolve()\n"),
    ('N01', N, "      if patternfile.filetype != 'HDF5': #check", "      if patternfile.filetype == 'UP': #check"),
    ('N01', N, "appnd = \"_NLPAR_l{:1.2f}\".format(self.lam) + \"sr{:d}\".format(self.searchradius)\n        newfilepath = str(p.parent / Path(p.stem + appnd + p.suffix))\n        patternfile.copy_file(newfilepath",
     "appnd = \"_NLPAR_l{:1.2f}\".format(self.lam) + \"sr{:d}\".format(self.searchradius)\n        newfilepath = str(p.parent / Path(p.stem.replace(appnd, '') + appnd + p.suffix))\n        patternfile.copy_file(newfilepath"),
    ('N01', N, "        newfilepath = str(p.parent / Path(p.stem + appnd + p.suffix))\n        patternfile.copy_file(newfilepath", "        newfilepath = str(p.parent / Path(p.stem + p.suffix))\n        patternfile.copy_file(newfilepath"),
    ('N01', N, "        patternfile.copy_file([newfilepath], empty_data=True)\n", "        newfilepath = str(p)\n"),
    ('N01', N, "    #if pathtemp.size > 1:\n    #  hdf5path = pathtemp[1]\n    #print(fpath", "    if pathtemp.size > 1:\n      hdf5path = pathtemp[1]\n    #print(fpath"),
    ('N01', N, "fID = ebsd_pattern.get_pattern_file_obj([self.filepathout, self.hdfdatapathout])", "fID = ebsd_pattern.get_pattern_file_obj([self.filepath, self.hdfdatapathout])"),
    ('N01', N, "  def getoutfileobj(self):\n    if self.filepathout is not None:", "  def getoutfileobj(self):\n    if self.filepathout is None:\n      self.filepathout = self.filepath\n    if self.filepathout is not None:"),
    ('N01', N, "      patternfileout.write_data(", "      patternfile.write_data("),
    ('N01', N, "    self.setoutfile(patternfile, filepath=fileout)\n", "    if fileout is not None or self.filepathout is None:\n      self.setoutfile(patternfile, filepath=fileout)\n"),
    ('N01', C, SETC, SETC.replace('    self.setoutfile', '    if self.filepathout is None:\n      self.setoutfile')),
    ('N01', C, "            patternfileout.write_data(", "            patternfile.write_data("),
    ('N01', R, "        nlparobj.patternfileout.write_data(", "        nlparobj.patternfile.write_data("),
    ('N01', R, SETR, SETR.replace('self.getoutfileobj()', 'self.getinfileobj()')),
    ('N01', R, SETR, SETR.replace('    self.setoutfile(self.patternfile, filepath=fileout)\n', '') + '    self.setoutfile(self.patternfile, filepath=fileout)\n'),
    ('N01', E, BASE, BASE.replace("    shutil.copyfile(src,dst)\n", "    if not dst.exists():\n      import os\n      os.link(src, dst)\n      return\n    shutil.copyfile(src,dst)\n")),
    ('N01', E, BASE, BASE.replace("    shutil.copyfile(src,dst)\n", "    try:\n      shutil.copyfile(src,dst)\n    except shutil.SameFileError:\n      pass\n")),
    ('N01', E, "    try:\n      f = open(Path(self.filepath).expanduser(),'rb')\n    except:\n      print(\"File Not Found:\",str(Path(self.filepath)))\n      return -1\n\n    f.seek(self.filePos)",
     "    try:\n      f = open(Path(self.filepath).expanduser(),'w+b')\n    except:\n      print(\"File Not Found:\",str(Path(self.filepath)))\n      return -1\n\n    f.seek(self.filePos)"),
]
KEEP = [
    ('N01', N, SAME, "          same = self.filepathout.samefile(patternfile.filepath)\n          pathok = not same\n"),
    ('N01', N, SAME, "          import os\n          pathok = not os.path.samefile(str(self.filepathout), patternfile.filepath)\n"),
    ('N01', N, SAME, "          a, b = self.filepathout.stat(), Path(patternfile.filepath).stat()\n          pathok = (a.st_ino, a.st_dev) != (b.st_ino, b.st_dev)\n"),
    ('N01', N, "\"_NLPAR_l{:1.2f}\".format(self.lam) + \"sr{:d}\".format(self.searchradius)\n        newfilepath = str(p.parent / Path(p.stem + appnd + p.suffix))\n        patternfile.copy_file(newfilepath",
     "f\"_NLPAR_l{self.lam:1.2f}sr{self.searchradius:d}\"\n        newfilepath = str(p.with_name(p.stem + appnd + p.suffix))\n        patternfile.copy_file(newfilepath"),
    ('N01', E, BASE, BASE.replace("    shutil.copyfile(src,dst)\n", "    with open(src, 'rb') as fi:\n      if dst.exists() and dst.samefile(src):\n        raise ValueError('same file')\n      with open(dst, 'wb') as fo:\n        shutil.copyfileobj(fi, fo)\n")),
    ('N01', C, SETC, "    patternfile = self.getinfileobj()\n    def prep(pf):\n      self.setoutfile(pf, filepath=fileout)\n      return self.getoutfileobj()\n    patternfileout = prep(patternfile)\n"),
    ('N01', R, SETR, "    pf = self.getinfileobj()\n    self.patternfile = pf\n    self.setoutfile(pf, filepath=fileout)\n    out = self.getoutfileobj()\n    self.patternfileout = out\n"),
    ('N01', N, "      patternfileout.write_data(", "      dest = patternfileout\n      dest.write_data("),
]
