A = 'pyebsdindex/_ebsd_index_single.py'
X = 'pyebsdindex/_ebsd_index_parallel.py'
B = 'pyebsdindex/band_detect.py'
C = 'pyebsdindex/opencl/band_detect_cl.py'
E = 'pyebsdindex/ebsd_pattern.py'
N = 'pyebsdindex/nlpar_cpu.py'
NR = 'pyebsdindex/opencl/nlpar_clray.py'
T = 'pyebsdindex/tripletvote.py'
PC = 'pyebsdindex/pcopt.py'
F = 'pyebsdindex/ebsdfile.py'
I = 'pyebsdindex/EBSDImage/IPFcolor.py'
R = 'pyebsdindex/rotlib.py'
M = 'pyebsdindex/misorientation.py'
MUT = [
    ('A01', M, 'from pyebsdindex import rotlib', 'import rotlib'),
    ('A01', B, 'dtype = np.uint64)', 'dypte = np.uint64)'),
    ('A01', E, 'self.get_data_paths(verbose=False, getraw=True)', 'self.get_data_paths(self, verbose=False, getraw=True)'),
    ('A01', T, "poles = self.completelib['polesCart']", "poles = self.tripLib.completelib['polesCart']"),
    ('A01', PC, 'indexer.bandDetectPlan.find_bands(pats)', 'indexer.bandDetectPlan.find_band(pats)'),
    ('A01', PC, 'indexer.bandDetectPlan.patDim', 'indexer.bandDetectPlan.patdim'),
    ('A01', C, 'except Exception as e: # something went wrong', 'except Exception as ee: # something went wrong'),
    ('A01', A, 'self.bandDetectPlan.radonPlan.radon2pole(\n', 'self.bandDetectPlan.radonPlan.radon2poles(\n'),
    ('A01', R, 'import numpy as np', 'import numpy'),
    ('A01', F, 'np.float32', 'numpy.float32'),
    ('A01', A, 'pats, xyloc = self._getpats(', 'pats, xyloc, n = self._getpats('),
    ('A01', A, 'if xyloc is None:\n                xyloc = xylocin', 'if xyloc is None:\n                xyloc = xyloc_in'),
]
KEEP = [
    ('A01', B, 'dtype = np.uint64)', 'dtype = np.uint32)'),
    ('A01', A, 'pats, xyloc = self._getpats(', '(pats, xyloc) = self._getpats('),
    ('A01', PC, 'indexer.bandDetectPlan.find_bands(pats)', 'indexer.bandDetectPlan.find_bands(patternsIn=pats)'),
    ('A01', PC, 'banddat = indexer.bandDetectPlan.find_bands(pats)', 'plan = indexer.bandDetectPlan\n    banddat = plan.find_bands(pats)'),
    ('A01', A, 'if xyloc is None:\n                xyloc = xylocin', 'for _q in range(1):\n                xyloc = xylocin if xyloc is None else xyloc'),
    ('A01', A, 'import numpy as np', 'import numpy as np\ntry:\n    import tqdm\nexcept ImportError:\n    tqdm = None'),
    ('A01', R, 'import numpy as np', 'import numpy as np\nimport math as _m\nfrom functools import lru_cache\n@lru_cache(None)\ndef _hlp(a, *b, **c):\n    def inner(x):\n        nonlocal a\n        a += x\n        return a\n    return [inner(y) for y in b if (z := y)] + [k for k in c]\n_hlp(1, 2, 3, r=4)'),
]
