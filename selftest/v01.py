F = 'pyebsdindex/radon_fast.py'; P = 'pyebsdindex/pcopt.py'; X = 'pyebsdindex/_ebsd_index_single.py'
MUT = [
 ('V01', F, "t *= np.array([dimf[1], dimf[1], -dimf[1]])", "t *= np.array([dimf[1], dimf[0], -dimf[1]])"),
 ('V01', F, "-np.min(dimf[0:2])])", "-dimf[0]])"),
 ('V01', F, "pctemp = np.tile(pctemp[0,:], nPats).reshape(nPats,4)", "pctemp = np.tile(pctemp[-1,:], nPats).reshape(nPats,4)"),
 ('V01', F, "t[:, 1] = dimf[0] - t[:, 1]", "t[:, 1] = dimf[1] - t[:, 1]"),
 ('V01', F, "p[:,:,1] += dimf[0] * 0.5", "p[:,:,1] += dimf[1] * 0.5"),
 ('V01', F, "t[:,2] /= pctemp[:,3]", "t[:,2] /= pctemp[0,3]"),
 ('V01', F, "np.interp(bandData['aveloc'][:,:,0], np.arange(self.nRho), self.rho)", "np.interp(bandData['aveloc'][:,:,1], np.arange(self.nRho), self.rho)"),
 ('V01', X, 'elif ven in ["OXFORD", "BRUKER"]:', 'elif ven in ["OXFORD", "BRUKER", "NOSUCH"]:'),
 ('V01', X, 'rotlib.quat_multiply(q1, q0)', 'rotlib.quat_multiply(q0, q1)'),
 ('V01', X, 'if ven in ["EDAX", "EMSOFT", "KIKUCHIPY"]:', 'if ven in ["EDAX", "EMSOFT"]:\n            quatref2detect = np.array([1.0,0,0,0])\n        if ven in ["EDAX", "EMSOFT", "KIKUCHIPY", "BRUKER"]:'),
 ('V01', P, "            PCoutRet[:, 1] -= 0.5 * patDim[0]", "            PCoutRet[:, 1] -= 0.5 * patDim[1]"),
 ('V01', P, "            PCoutRet[2] *= delta[3]", "            PCoutRet[2] *= 1.0*delta[2]"),
 ('V01', P, "PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[0]", "PCtemp[1] += 0.5 * indexer.bandDetectPlan.patDim[1]"),
 ('V01', X, "vendor=self.vendor\n", "vendor='EDAX'\n"),
]
KEEP = [
 ('V01', F, "    if ven in ['EDAX']:\n      t *= np.array([dimf[1], dimf[0], -np.min(dimf[0:2])])", "    nrows, ncols = dimf[0], dimf[1]\n    if ven == 'EDAX':\n      t = t * np.array([ncols, nrows, -1.0*min(nrows, ncols)])"),
 ('V01', F, "n2 = p - t\n", "n2 = -1.0*(t - p)\n"),
 ('V01', F, "    norm = np.linalg.norm(n, axis=1)\n", "    norm = np.sqrt(np.sum(n*n, axis=1))\n"),
 ('V01', P, "            PCoutRet[:, 0] -= 0.5\n            #PCoutRet", "            PCoutRet[:, 0] = PCoutRet[:, 0] - 0.5\n            #PCoutRet"),
 ('V01', X, 'tiltang = -1.0 * (90.0 - self.sampleTilt + self.camElev) / RADEG', 'tiltang = (self.sampleTilt - 90.0 - self.camElev) / RADEG'),
]
