A = 'pyebsdindex/_ebsd_index_single.py'
R = 'pyebsdindex/radon_fast.py'
PC = 'pyebsdindex/pcopt.py'
S = 'pyebsdindex/EBSDImage/scalarimage.py'
I = 'pyebsdindex/EBSDImage/IPFcolor.py'
M = 'pyebsdindex/EBSDImage/micronbar.py'
F = 'pyebsdindex/ebsdfile.py'
E = 'pyebsdindex/ebsd_pattern.py'
B = 'pyebsdindex/band_detect.py'
T = 'pyebsdindex/tripletvote.py'
MUT = [
    ('M01', R, 'pctemp =  np.asarray(PC, dtype=np.float32).copy()', 'pctemp =  np.asarray(PC)'),
    ('M01', PC, "PCtemp = np.array(PC0[0:3], dtype=np.float64)\n        patdimnorm", "PCtemp = PC0[0:3]\n        patdimnorm"),
    ('M01', PC, "PCtemp = np.array(PC0[0:3], dtype=np.float64)\n        PCtemp[0] *= -1.0\n        PCtemp[0] += 0.5 * indexer.bandDetectPlan.patDim[1]\n        PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]\n        PCtemp /= patdimnorm", "PCtemp = PC0\n        PCtemp[0] *= -1.0"),
    ('M01', S, 'imagedata = imagedata.astype(np.float32)', 'imagedata = imagedata.astype(np.float32, copy=False)'),
    ('M01', S, 'imagedata = imagedata.astype(np.float32)\n', 'pass\n'),
    ('M01', I, 'xstalv = np.copy(xstalvect)', 'xstalv = xstalvect'),
    ('M01', I, 'xstalv = np.copy(xstalvect.reshape(1,shp[0]))', 'xstalv = xstalvect.reshape(1,shp[0])'),
    ('M01', M, 'rescaleim = image.astype(np.float32)', 'rescaleim = np.asarray(image)'),
    ('M01', F, "ci = data[-1]['cm'].copy()", "ci = data[-1]['cm']"),
    ('M01', E, 'temp = pats.astype(np.float32)\n', 'temp = pats\n'),
    ('M01', E, 'temp = pats.astype(np.float32) - minp', 'temp = pats\n    temp -= minp'),
    ('M01', B, 'back = np.mean(patsIn, axis = 0)\n', 'back = patsIn[0]\n        back -= back.mean()\n'),
    ('M01', A, 'patDim = np.array([self.fID.patternH, self.fID.patternW])', 'patDim[0:] = np.array([self.fID.patternH, self.fID.patternW])'),
    ('M01', A, 'self.phaselist = phaselist', 'self.phaselist = phaselist\n        self.phaselist.append(None)'),
    ('M01', A, 'for ph in self.phaselist:\n                if hasattr', 'self.phaselist[0] = None\n            for ph in self.phaselist:\n                if hasattr'),
    ('M01', A, 'pats = patsin  # [patStart:patEnd, :,:]', 'pats = patsin\n                pats -= pats.min()'),
    ('M01', T, "self.latticeparameter = np.array(latticeparameter)", "self.latticeparameter = np.asarray(latticeparameter)\n    self.latticeparameter[3:] = 90.0"),
]
KEEP = [
    ('M01', R, 'pctemp =  np.asarray(PC, dtype=np.float32).copy()', 'pctemp =  np.array(PC, dtype=np.float32)'),
    ('M01', S, 'imagedata = imagedata.astype(np.float32)', 'imagedata = np.array(imagedata, dtype=np.float32)'),
    ('M01', I, 'xstalv = np.copy(xstalvect)', 'xstalv = xstalvect.copy()'),
    ('M01', M, 'rescaleim = image.astype(np.float32)', 'rescaleim = np.array(image).astype(np.float32)'),
    ('M01', PC, "PCtemp = np.array(PC0[0:3], dtype=np.float64)\n        patdimnorm", "PCtemp = np.asarray(PC0, dtype=np.float64)[0:3] * 1.0\n        patdimnorm"),
    ('M01', B, 'patterns = patternsIn\n', 'patterns = np.asarray(patternsIn)\n'),
    ('M01', A, 'npats = npoints\n\n        gpuid', 'npats *= 0\n            npats += npoints\n\n        gpuid'),
    ('M01', E, 'temp = pats.astype(np.float32)\n', 'temp = np.array(pats, dtype=np.float32)\n'),
]
