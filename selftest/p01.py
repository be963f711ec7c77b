F = 'pyebsdindex/pcopt.py'
S = 'pyebsdindex/_ebsd_index_single.py'
R = 'pyebsdindex/radon_fast.py'
BACK = "    if emsoftflag:  # Return original state for indexer\n        indexer.vendor = vendor0\n        indexer.PC = delta\n"
PSO = "    if emsoftflag:  # Return original state for indexer\n        indexer.vendor = vendor0\n        indexer.PC = delta\n        if PCoutRet.ndim == 2:\n            newout = np.zeros((npoints, 4))\n            PCoutRet[:, 0] -= 0.5\n            PCoutRet[:, :3] *= patdimnorm\n"
BEST = "            self.gbest = self.pbest[wh_minpbest]\n            self.gbest_loc = self.pbest_loc[wh_minpbest, :]\n"
BOUND = "bounds=(PC0 - np.array(search_limit), PC0 + np.array(search_limit)),\n                                            niter"
EARLY = "                earlyexit = shpBandDat[1]  # default to all the poles.\n"
MUT = [
    ('P01', F, "            costout[i] = cost\n", "            costout[i] = cost\n            PC0 = newPC\n"),
    ('P01', F, "        PC0 = np.asarray(PC0)\n", "        PC0 = np.clip(np.asarray(indexer.PC), np.asarray(PC0) - 0.05, np.asarray(PC0) + 0.05)\n"),
    ('P01', F, BACK, BACK.replace("        indexer.vendor = vendor0\n", "")),
    ('P01', F, PSO, PSO.replace("        indexer.vendor = vendor0\n", "")),
    ('P01', F, PSO, PSO.replace("vendor0\n", "'EMSOFT'\n")),
    ('P01', F, PSO, "    if return_cost and batch:\n        return PCoutRet, costout\n" + PSO),
    ('P01', F, PSO, PSO.replace("indexer.PC = delta", "indexer.PC = PC0")),
    ('P01', F, "    npoints, nbands = banddat.shape[:2]\n    if pswarmpar", "    npoints, nbands = banddat.shape[:2]\n    indexer.bandDetectPlan.useCPU = True\n    if pswarmpar"),
    ('P01', F, "        self.pos += nvel\n\n        self.boundarycheck()\n", "        self.pos += nvel\n"),
    ('P01', F, "        self.pos += nvel\n\n        self.boundarycheck()\n", "        self.boundarycheck()\n        self.pos += nvel\n"),
    ('P01', F, "for d in range(self.dimensions):", "for d in range(self.dimensions - 1):"),
    ('P01', F, "            wh_over = np.nonzero(self.pos[:, d] > ub[d])[0]\n", "            wh_over = np.nonzero(self.pos[:, d] > np.max(ub))[0]\n"),
    ('P01', F, "            self.pos[wh_over, d] = ub[d]\n", "            self.pos[wh_over, d] = 2.0*ub[d] - self.pos[wh_over, d]\n"),
    ('P01', F, "np.random.uniform(low=bounds[0], high=bounds[1], size", "np.random.uniform(low=-self.range, high=self.range, size"),
    ('P01', F, "np.random.uniform(low=bounds[0], high=bounds[1], size", "start + np.random.uniform(low=bounds[0], high=bounds[1], size"),
    ('P01', F, "            self.gbest_loc = self.pbest_loc[wh_minpbest, :]\n", "            self.gbest_loc = self.pos[wh_minpbest, :]\n"),
    ('P01', F, "        self.pbest_loc = np.copy(self.pos)\n", "        self.pbest_loc = self.pos\n"),
    ('P01', F, "        if self.pbest[wh_minpbest] < self.gbest:\n" + BEST, "        self.gbest = np.min(val)\n        self.gbest_loc = self.pos[np.argmin(val), :].copy()\n"),
    ('P01', F, "        wh_newpbest = np.nonzero(val < self.pbest)[0]\n", "        wh_newpbest = np.nonzero(val < self.pbest.mean())[0]\n"),
    ('P01', F, "        self.pbest[wh_newpbest] = val[wh_newpbest]\n", "        self.pbest = val\n"),
    ('P01', F, "        final_loc = self.gbest_loc\n", "        final_loc = np.mean(self.pbest_loc, axis=0)\n"),
    ('P01', F, "            self.updateswarmbest(function, pool, **kwargs)\n", "            if iter < niter - 1:\n                self.updateswarmbest(function, pool, **kwargs)\n            else:\n                self.gbest_loc = self.pbest_loc[0, :]\n"),
    ('P01', F, "                banddat=banddat[i, :].reshape(1, nbands),\n               start", "                banddat=banddat[0, :].reshape(1, nbands),\n               start"),
    ('P01', F, "            costout[i] = cost\n", "            costout[:] = cost\n"),
    ('P01', F, "            PCoutRet[i, :] = newPC\n            costout[i] = cost\n", "            PCoutRet[i, :] = newPC\n            costout[npoints - 1 - i] = cost\n"),
    ('P01', F, BOUND, BOUND.replace("PC0 - np.array(search_limit), ", "PC0 - np.max(search_limit), ")),
    ('P01', F, BOUND, BOUND.replace("PC0 - np.array(search_limit), PC0 +", "PC0 * (1 - np.array(search_limit)), PC0 +")),
    ('P01', F, BOUND, BOUND.replace("PC0 - np.array(search_limit), PC0 +", "indexer.PC[:3] - np.array(search_limit), PC0 +")),
    ('P01', F, "banddat, PC=PC[q,:], vendor", "banddat, PC=PC[0,:], vendor"),
    ('P01', F, "        npoints = banddat.shape[0]\n", "        npoints = banddat.shape[0]\n        indexer.PC = PC[q,:]\n"),
    ('P01', S, EARLY, EARLY + "            self.nband_earlyexit = earlyexit\n"),
    ('P01', R, "    bandData['theta'][:] = theta\n", "    bandData['theta'][:] = theta\n    bandData['aveloc'][:,:,1] += 0.5\n"),
]
KEEP = [
    ('P01', F, BEST, "            self.gbest = self.pbest[wh_minpbest]\n            self.gbest_loc = self.pbest_loc[np.argmin(val), :]\n"),
    ('P01', F, "            self.pos[wh_under,d] = lb[d]\n", "            self.pos[wh_under,d] = 2.0*lb[d] - self.pos[wh_under,d]\n"),
    ('P01', F, BACK, BACK.replace("        indexer.PC = delta\n", "")),
    ('P01', F, "        wh_newpbest = np.nonzero(val < self.pbest)[0]\n", "        wh_newpbest = np.flatnonzero(val <= self.pbest)\n"),
    ('P01', F, "        self.pos += nvel\n\n        self.boundarycheck()\n", "        self.pos = self.pos + nvel\n        self.boundarycheck()\n"),
    ('P01', F, "            self.gbest_loc = self.pbest_loc[wh_minpbest, :]\n", "            self.gbest_loc = self.pbest_loc[wh_minpbest, :].copy()\n"),
    ('P01', F, "        lb,ub = self.bounds\n        for d in range(self.dimensions):\n            wh_under = np.nonzero(self.pos[:,d] < lb[d])[0]\n            self.pos[wh_under,d] = lb[d]\n            self.vel[wh_under,d] = np.abs(self.vel[wh_under,d])\n\n            wh_over = np.nonzero(self.pos[:, d] > ub[d])[0]\n            self.pos[wh_over, d] = ub[d]\n            self.vel[wh_over, d] = -1*np.abs(self.vel[wh_over, d])\n",
     "        lb, ub = self.bounds\n        under = self.pos < lb\n        over = self.pos > ub\n        self.vel = np.where(under, np.abs(self.vel), np.where(over, -np.abs(self.vel), self.vel))\n        self.pos = np.clip(self.pos, lb, ub)\n"),
    ('P01', F, "        val = np.zeros(self.n_particles)\n", "        val = np.full(self.n_particles, np.inf)\n"),
    ('P01', F, "            temp = self.pos[part_i, :]\n            val[part_i] = fun2opt(temp, **kwargs)\n", "            val[part_i] = fun2opt(self.pos[part_i], **kwargs)\n"),
    ('P01', F, "        wh_newpbest = np.nonzero(val < self.pbest)[0]\n\n        self.pbest[wh_newpbest] = val[wh_newpbest]\n        self.pbest_loc[wh_newpbest, :] = self.pos[wh_newpbest, :]\n", "        for k in range(self.n_particles):\n            if val[k] < self.pbest[k]:\n                self.pbest[k] = val[k]\n                self.pbest_loc[k, :] = self.pos[k, :]\n"),
    ('P01', F, "        if self.pbest[wh_minpbest] < self.gbest:\n" + BEST, "        if not (self.gbest <= self.pbest[wh_minpbest]):\n            self.gbest, self.gbest_loc = self.pbest[wh_minpbest], self.pbest_loc[wh_minpbest, :]\n"),
    ('P01', F, "np.random.uniform(low=bounds[0], high=bounds[1], size=(self.n_particles, self.dimensions))", "bounds[0] + self.range * np.random.random((self.n_particles, self.dimensions))"),
    ('P01', F, BOUND, "bounds=[PC0 - np.asarray(search_limit), PC0 + np.asarray(search_limit)],\n                                            niter"),
    ('P01', F, PSO, PSO.replace("        indexer.PC = delta\n", "").replace("        indexer.vendor = vendor0\n", "        setattr(indexer, 'vendor', vendor0)\n")),
    ('P01', F, "            self.updateswarmvelpos()\n", "            if iter + 1 < niter:\n                self.updateswarmvelpos()\n"),
]
