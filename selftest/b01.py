B = 'pyebsdindex/band_detect.py'
G = 'pyebsdindex/opencl/band_detect_cl.py'
R = 'pyebsdindex/radon_fast.py'
K = 'pyebsdindex/opencl/clkernels.cl'
S = 'pyebsdindex/_ebsd_index_single.py'
MUT = [
    ('B01', B, 'chunk_start_end = [[i * chunksize, (i + 1) * chunksize] for i in range(nchunks)]\n      chunk_start_end[-1][1] = nPats', 'chunk_start_end = [[i * chunksize, (i + 1) * chunksize] for i in range(nPats // chunksize)]'),
    ('B01', B, 'nchunks = (np.ceil(nPats / chunksize)).astype(np.int64)', 'nchunks = int(nPats / chunksize)'),
    ('B01', B, 'bandData[chnk[0]:chnk[1]] = bandDataChunk', 'bandData[0:chnk[1]-chnk[0]] = bandDataChunk'),
    ('B01', B, 'patterns[chnk[0]:chnk[1],:,:], self.padding', 'patterns[0:chnk[1]-chnk[0],:,:], self.padding'),
    ('B01', B, 'bandDataChunk= self.band_label(chnk[1]-chnk[0],', 'bandDataChunk= self.band_label(chunksize,'),
    ('B01', G, "bandData['valid'][chnk[0]:chnk[1]] = bandDataChunk[4][0:nPatsChunk, :]", "bandData['valid'][0:nPatsChunk] = bandDataChunk[4][0:nPatsChunk, :]"),
    ('B01', G, "bandDataChunk[5][0:nPatsChunk, :]", "bandDataChunk[5][-nPatsChunk:, :]"),
    ('B01', G, "bandDataChunk[2][0:nPatsChunk, :, :]", "bandDataChunk[2][1:nPatsChunk+1, :, :]"),
    ('B01', G, 'chunk_start_end = [[i * chunksize,(i + 1) * chunksize] for i in range(nchunks)]', 'chunk_start_end = [[i * chunksize,(i + 1) * chunksize - 1] for i in range(nchunks)]'),
    ('B01', B, 'averdnpat = np.float32(np.mean(rdnConv[:,:,q]))', 'averdnpat = np.float32(np.mean(rdnConv))'),
    ('B01', B, '.min(axis=0).min(axis=0)', '.min()'),
    ('B01', B, 'axis=(0,1))\n\n    ave -= mns', 'axis=(0,1)).mean()\n\n    ave -= mns'),
    ('B01', B, 'lMaxK = (self.peakPad[0],self.peakPad[1],1)', 'lMaxK = (self.peakPad[0],self.peakPad[1],3)'),
    ('B01', B, 'peakLoc = lMaxRdn[:,:,q].nonzero()', 'peakLoc = lMaxRdn[:,:,0].nonzero()'),
    ('B01', B, 'bandData_max[q,i] = rdnPad[r,c,q] / averdnpat', 'bandData_max[q,i] = rdnPad[r,c,q-1] / averdnpat'),
    ('B01', B, 'nBq = nB if (len(srt) > nB) else len(srt)', 'nBq = nB'),
    ('B01', B, 'nBq = nB if (len(srt) > nB) else len(srt)', 'nBq = nB - 1 if (len(srt) > nB) else len(srt)'),
    ('B01', B, 'bandData_valid = np.zeros((nP, nB), dtype=np.int8)', 'bandData_valid = np.ones((nP, nB), dtype=np.int8)'),
    ('B01', B, '        bandData_valid[q,i] = 1\n', '        bandData_valid[q,i] = 2\n'),
    ('B01', R, 'imstart = q*nPx', 'imstart = q*nPx + q'),
    ('B01', R, 'sum += images[imstart + indx1]', 'sum += images[indx1]'),
    ('B01', R, 'radon[ip,jp,q] = sum/count', 'radon[ip,jp,0] = sum/count'),
    ('B01', R, '          count = 0.0\n          sum = 0.0\n          for k in', '          count = 0.0\n          for k in'),
    ('B01', S, "np.mean(banddata['max'] * banddata['valid'], axis=1)", "np.mean(banddata['max'], axis=1)"),
    ('B01', S, "np.mean(banddata['normmax'] * banddata['valid'], axis=1)", "np.mean(banddata['normmax'], axis=1, where=banddata['max'] > -1)"),
    ('B01', S, '        adj_intensity *= banddata["valid"]\n', '        adj_intensity *= banddata["max"] > -1\n'),
    ('B01', K, 'imVal1 = maxlocin[(indxy)*nImChunk+z];', 'imVal1 = maxlocin[(indxy)*nImChunk+z+1];'),
    ('B01', K, 'maxval[i+lnmax*z] = -1.0e12f;', 'maxval[i+lnmax] = -1.0e12f;'),
]
KEEP = [
    ('B01', B, 'nchunks = (np.ceil(nPats / chunksize)).astype(np.int64)', 'nchunks = int(nPats / chunksize) or 1'),
    ('B01', B, 'chunk_start_end = [[i * chunksize, (i + 1) * chunksize] for i in range(nchunks)]\n      chunk_start_end[-1][1] = nPats', 'chunk_start_end = []\n      for s in range(0, nPats, chunksize):\n        chunk_start_end.append([s, min(s + chunksize, nPats)])'),
    ('B01', B, 'bandData[chnk[0]:chnk[1]] = bandDataChunk', 'rows = slice(chnk[0], chnk[1])\n      bandData[rows] = bandDataChunk'),
    ('B01', B, 'nBq = nB if (len(srt) > nB) else len(srt)', 'nBq = min(nB, len(srt))'),
    ('B01', B, '.min(axis=0).min(axis=0)', '.min(axis=(0, 1))'),
    ('B01', B, 'for i in numba.prange(nBq):', 'for i in range(nBq):'),
    ('B01', B, 'imageave.clip(1e-7).reshape(chnk[1]-chnk[0], 1)', 'imageave.clip(1e-7)[:, np.newaxis]'),
    ('B01', R, 'sum += images[imstart + indx1]', 'sum = sum + images[q*nPx + indx1]'),
    ('B01', S, "np.mean(banddata['max'] * banddata['valid'], axis=1)", "np.mean(np.where(banddata['valid'] > 0, banddata['max'], 0.0), axis=1)"),
    ('B01', G, 'nPatsChunk = chnk[1] - chnk[0]', 'first, last = chnk\n        nPatsChunk = last - first'),
    ('B01', K, 'imVal1 = maxlocin[(indxy)*nImChunk+z];', 'imVal1 = maxlocin[z + nImChunk*indxy];'),
]
_B, _RF, _G = 'pyebsdindex/band_detect.py', 'pyebsdindex/radon_fast.py', 'pyebsdindex/opencl/band_detect_cl.py'
_GN = "(bandDataChunk[0][0:nPatsChunk, :] /\n                                                  imageave[0:nPatsChunk].reshape(nPatsChunk, 1).clip(1e-7))"
MUT += [
 ('B01', _RF, "          count = 0.0\n          sum = 0.0\n", "          count = 0.0\n          if q == 0:\n            sum = 0.0\n"),
 ('B01', _B, "rdnConv = rdnConv.clip(min=0.0)", "rdnConv = rdnConv.clip(min=0.0, max=0.9*rdnConv.max())"),
 ('B01', _B, "imageave.clip(1e-7)", "imageave.clip(0.1*imageave.mean())"),
 ('B01', _B, "imageave.clip(1e-7).reshape(chnk[1]-chnk[0], 1)", "imageave.clip(1e-7)[0]"),
 ('B01', _B, "    for chnk in chunk_start_end:\n      tic1", "    for chnk in chunk_start_end:\n      if self.backgroundsub is None:\n        self.backgroundsub = np.mean(patterns[chnk[0]:chnk[1]], axis=0)\n      tic1"),
 ('B01', _B, "bandData[chnk[0]:chnk[1]] = bandDataChunk", "bandData[chnk[0]:chnk[1]] = np.sort(bandDataChunk, axis=0)"),
 ('B01', _B, "bandData['valid']  = bdat[4][0:nPats, :]", "bandData['valid']  = bdat[4][0:nPats, :].max(axis=0)"),
 ('B01', _G, _GN, _GN.replace('clip(1e-7)', 'clip(1e-3*imageave.max())')),
 ('B01', _G, "        bandData['avemax'][chnk[0]:chnk[1]] = bandDataChunk[1][0:nPatsChunk, :]", "        bandData['avemax'][chnk[0]:chnk[1]] = bandDataChunk[1][0:nPatsChunk, :] / bandDataChunk[1][0:nPatsChunk, :].mean(axis=0)"),
]
KEEP += [
 ('B01', _B, "      bandDataChunk['normmax'] /= imageave.clip(1e-7).reshape(chnk[1]-chnk[0], 1)\n      bandData[chnk[0]:chnk[1]] = bandDataChunk", "      scale = np.maximum(imageave, 1e-7)\n      bandDataChunk['normmax'] = bandDataChunk['normmax'] / scale[:, np.newaxis]\n      bandData[chnk[0]:chnk[1]] = bandDataChunk"),
 ('B01', _G, _GN, "bandDataChunk[0][0:nPatsChunk, :] / np.maximum(imageave[0:nPatsChunk], 1e-7)[:, None]"),
 ('B01', _B, "for chnk in chunk_start_end:\n", "for first, last in chunk_start_end:\n      chnk = (first, last)\n"),
 ('B01', _B, "    rdnConv = rdnConv.clip(min=0.0)", "    rdnConv = np.maximum(rdnConv, 0.0)"),
]
