P = 'pyebsdindex/_ebsd_index_parallel.py'
S = 'pyebsdindex/_ebsd_index_single.py'
B = 'pyebsdindex/band_detect.py'
MUT = [
 ('D03', P, "            rhoMaskFrac=rhoMaskFrac,\n            nBands=nBands,", "            nBands=nBands,"),
 ('D03', P, "            tSigma=tSigma,\n            rSigma=rSigma,\n            rhoMaskFrac", "            tSigma=rSigma,\n            rSigma=tSigma,\n            rhoMaskFrac"),
 ('D03', P, "    rhoMaskFrac=0.1,", "    rhoMaskFrac=0.15,"),
 ('D03', P, "    camElev=5.3,\n    bandDetectPlan", "    camElev=0.0,\n    bandDetectPlan"),
 ('D03', S, "            patternmaskindex = patternmaskindex,\n            tSigma", "            tSigma"),
 ('D03', S, "            sampleTilt=sampleTilt,\n            camElev=camElev,", "            sampleTilt=camElev,\n            camElev=sampleTilt,"),
 ('D03', S, "        self.camElev = camElev\n", "        self.camElev = 5.3\n"),
 ('D03', S, "            self.vendor = vendor\n", "            self.vendor = 'EDAX'\n"),
 ('D03', S, "        self.vendor = \"EDAX\"\n        if vendor is None:", "        self.vendor = \"EDAX\"\n        if vendor is not None:"),
 ('D03', S, "                self.vendor = self.fID.vendor\n", "                pass\n"),
 ('D03', S, "                nBands=nBands,\n                nPhases", "                nPhases"),
 ('D03', S, "nPhases = len(self.phaseLib),", "nPhases = 1,"),
 ('D03', S, "patDim=[self.fID.patternH, self.fID.patternW],", "patDim=[self.fID.patternW, self.fID.patternH],"),
 ('D03', S, "        self.nband_earlyexit = nband_earlyexit\n        self.dataTemplate", "        self.nband_earlyexit = None\n        self.dataTemplate"),
 ('D03', S, "                patDim=patDim,\n                patternmask=patternmask, patternmaskindex=patternmaskindex\n", "                patDim=patDim,\n                patternmask=patternmask\n"),
 ('D03', S, "        if PC is None:\n            PC_0 = self.PC\n        else:\n            PC_0 = PC", "        PC_0 = self.PC"),
 ('D03', S, "verbose=verbose, chunksize=chunksize, gpu_id=gpu_id,\n        )", "verbose=verbose, gpu_id=gpu_id,\n        )"),
 ('D03', S, "banddata, PC=PC_0, vendor=self.vendor", "banddata, PC=PC_0"),
 ('D03', S, "            self._detectbands(pats, PC,", "            self._detectbands(pats, self.PC,") if False else ('D03', S, "self._detectbands(pats, PC,", "self._detectbands(pats, None,"),
 ('D03', S, "patend = patstart + npats if", "patend = npats if"),
 ('D03', S, "        patstart=patstart,\n        npats=npats,\n        clparams", "        patstart=patstart,\n        clparams"),
 ('D03', B, "    self.nBands = nBands\n    if nPhases", "    self.nBands = 9\n    if nPhases"),
 ('D03', B, "      self.tSigma = tSigma\n      recalc_masks", "      self.tSigma = rSigma\n      recalc_masks"),
 ('D03', B, "    if nBands is not None:\n      self.nBands = nBands", "    self.nBands = nBands"),
 ('D03', B, "    if (self.rSigma is None) and", "    if (rSigma is None) and"),
 ('D03', B, "      self.nRho = nRho\n      recalc_radon = True", "      self.nRho = nRho"),
 ('D03', B, "nTheta=self.nTheta, nRho=self.nRho,", "nTheta=self.nRho, nRho=self.nTheta,"),
 ('D03', B, "mask=self.patternmask, maskindex=self.patternmaskindex", "mask=patternmask, maskindex=patternmaskindex"),
 ('D03', B, "      self.patternmaskindex = patternmaskindex\n      recalc_radon = True", "      self.patternmaskindex = patternmaskindex"),
]
KEEP = [
 ('D03', S, "        if vendor is None:\n            if self.fID is not None:\n                self.vendor = self.fID.vendor\n        else:\n            self.vendor = vendor\n", "        if vendor is not None:\n            self.vendor = vendor\n        elif self.fID is not None:\n            self.vendor = self.fID.vendor\n"),
 ('D03', S, "        indexer = EBSDIndexer(\n            filename=filename,\n            phaselist=phaselist,\n            vendor=vendor,\n            PC=PC,", "        indexer = EBSDIndexer(\n            filename,\n            phaselist,\n            vendor,\n            PC,"),
 ('D03', P, "        indexer = EBSDIndexer(\n            filename=filename,", "        opts = dict(filename=filename)\n        indexer = EBSDIndexer(\n            **opts,"),
 ('D03', S, "        if PC is None:\n            PC_0 = self.PC\n        else:\n            PC_0 = PC", "        PC_0 = self.PC if PC is None else PC"),
 ('D03', S, "            self.PC = np.asarray(PC)", "            self.PC = np.array(PC, dtype=float)"),
 ('D03', S, "        self.vendor = \"EDAX\"\n", "        self._remember(sampleTilt, camElev)\n        self.vendor = \"EDAX\"\n") if False else
 ('D03', [(S, "        self.sampleTilt = sampleTilt\n        self.camElev = camElev\n", "        self._geometry(sampleTilt, camElev)\n"), (S, "    def update_file(self", "    def _geometry(self, tilt, elev):\n        self.sampleTilt = tilt\n        self.camElev = elev\n\n    def update_file(self")]),
 ('D03', B, "    if nRho is not None:\n      self.nRho = nRho\n      recalc_radon = True\n      recalc_masks = True\n", "    for name, val in (('nRho', nRho),):\n      if val is not None:\n        setattr(self, name, val)\n        recalc_radon = True\n        recalc_masks = True\n"),
 ('D03', B, "    if tSigma is not None:\n      self.tSigma = tSigma\n      recalc_masks = True\n    if rSigma is not None:\n      self.rSigma = rSigma\n      recalc_masks = True\n", "    self.tSigma = self.tSigma if tSigma is None else tSigma\n    self.rSigma = self.rSigma if rSigma is None else rSigma\n    recalc_masks = recalc_masks or tSigma is not None or rSigma is not None\n"),
 ('D03', S, "                patend = patstart + npats if npats > 0 else patsin.shape[0]\n                patsin = patsin[patstart:patend, :, :]", "                if npats <= 0:\n                    npats = patsin.shape[0] - patstart\n                patsin = patsin[patstart:patstart + npats]"),
]
