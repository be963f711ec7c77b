F = 'pyebsdindex/ebsdfile.py'
MUT = [
 ('T01', F, "((i % ncols)*float(xstep))", "((i % nrows)*float(xstep))"),
 ('T01', F, "(int(i / ncols)) * float(ystep)", "(int(i / ncols)) * float(xstep)"),
 ('T01', F, "(int(i / ncols)) * float(ystep)", "round(i / ncols) * float(ystep)"),
 ('T01', F, "eulers = rotlib.qu2eu(data[-1]['quat'])\n    for", "eulers = rotlib.qu2eu(data[0]['quat'])\n    for"),
 ('T01', F, "  if nphase == 1:\n      phaseIDadd = 0\n    else:\n      phaseIDadd = 1\n    eulers", "  if nphase <= 2:\n      phaseIDadd = 0\n    else:\n      phaseIDadd = 1\n    eulers"),
 ('T01', F, "reversed(indexer.phaseLib)", "indexer.phaseLib"),
 ('T01', F, "str(nphase - pcount + 1)", "str(nphase - pcount)"),
 ('T01', F, "        fit = data[-1]['fit'][i]", "        fit = data[0]['fit'][i]"),
 ('T01', F, "np.array([10.0, 10.0, 10.0, 1.0, 1.0, 1.0])", "np.array([10.0, 10.0, 1.0, 10.0, 1.0, 1.0])"),
 ('T01', F, "        ystep = indexer.fID.yStep\n\n    f.write", "        ystep = indexer.fID.xStep\n\n    f.write"),
 ('T01', F, "      poles = np.array(phase.polefamilies).astype(int)\n      if (phase.lauecode == 62) or (phase.lauecode == 6):\n        if poles.shape[-1] == 4:\n          poles = poles[:,[0,1,3]]", "      poles = np.array(phase.polefamilies).astype(int)\n      if (phase.lauecode == 62) or (phase.lauecode == 6):\n        if poles.shape[-1] == 4:\n          poles = poles[:,[0,1,2]]"),
 ('T01', F, "      pcount = phaseIDadd\n", "      pcount = 1\n"),
 ('T01', F, "% ncols[0]).astype", "% nrows[0]).astype"),
 ('T01', F, "// ncols[0]).astype(np.float32) * ystep[0]", "// nrows[0]).astype(np.float32) * ystep[0]"),
 ('T01', F, "Lattice Constant beta',\n                         data=np.array([np.float32(phase.latticeparameter[4])", "Lattice Constant beta',\n                         data=np.array([np.float32(phase.latticeparameter[3])"),
 ('T01', F, "famtype['L'] = np.squeeze(poles[:, 2])", "famtype['L'] = np.squeeze(poles[:, 1])"),
 ('T01', F, "/EBSD/Data/IQ',\n                       data=(data[-1]['iq'])", "/EBSD/Data/IQ',\n                       data=(data[-1]['pq'])"),
 ('T01', F, "phaseid = data[-1]['phase']+ phaseIDadd", "phaseid = data[-1]['phase']+ 1"),
 ('T01', F, "np.float64(indexer.sampleTilt)", "np.float64(indexer.camElev)"),
 ('T01', F, "          nrows = np.ceil(data.shape[-1] / ncols)\n", "          nrows = data.shape[-1] // ncols\n"),
 ('T01', F, "phi1 = np.squeeze(eulers[:,0])", "phi1 = np.squeeze(eulers[:,2])"),
 ('T01', F, "if indexer.fID.xStep > 1e-6:\n            xstep = np.array([np.float32(indexer.fID.xStep)])\n", "if indexer.fID.xStep > 1e-6:\n            xstep = np.array([np.float32(indexer.fID.yStep)])\n"),
]
KEEP = [
 ('T01', F, "    for phase in reversed(indexer.phaseLib):\n      f.write('# Phase '+str(nphase - pcount + 1)+'\\r\\n')\n", "    for num in range(nphase, 0, -1):\n      phase = indexer.phaseLib[num - 1]\n      f.write(f'# Phase {num}\\r\\n')\n"),
 ('T01', F, "      line += ('{:.5f}'.format((i % ncols)*float(xstep))).rjust(12,' ') + ' '\n      line += ('{:.5f}'.format((int(i / ncols)) * float(ystep))).rjust(12, ' ') + ' '\n", "      row, col = divmod(i, ncols)\n      line += f'{col*float(xstep):12.5f} {row*float(ystep):12.5f} '\n"),
 ('T01', F, "      line += ('{:.5f}'.format((i % ncols)*float(xstep))).rjust(12,' ') + ' '\n      line += ('{:.5f}'.format((int(i / ncols)) * float(ystep))).rjust(12, ' ') + ' '\n", "      row = i // ncols\n      line += '{:12.5f} {:12.5f} '.format((i - row * ncols) * float(xstep), row * float(ystep))\n"),
 ('T01', F, "      x = (np.arange(npoints, dtype=int) % ncols[0]).astype(np.float32) * xstep[0]\n      y = (np.arange(npoints, dtype=int) // ncols[0]).astype(np.float32) * ystep[0]\n", "      at = np.arange(npoints, dtype=int)\n      row = at // int(ncols[0])\n      y = np.float32(ystep[0]) * row\n      x = np.float32(xstep[0]) * (at - row * int(ncols[0]))\n"),
 ('T01', F, "      for phase in indexer.phaseLib:\n        f.create", "      for pcount, phase in enumerate(indexer.phaseLib, phaseIDadd):\n        f.create") if False else
 ('T01', F, "      phaseid = data[-1]['phase']+ phaseIDadd\n      ci = data[-1]['cm'].copy() # do not change the data of the caller\n      wh = np.nonzero(data[-1]['phase'] < 0)[0] # these are unindexed points.\n      if wh.shape[-1] > 0:\n        ci[wh] = -1.0\n", "      best = data[-1]\n      phaseid = best['phase']+ phaseIDadd\n      ci = np.where(best['phase'] < 0, -1.0, best['cm'])\n"),
 ('T01', F, "    for i in range(data.shape[-1]):\n      line = '  '\n      line += '   '.join('{:.5f}'.format(x) for x in eulers[i,:])\n", "    for i in range(data.shape[-1]):\n      line = '  {:.5f}   {:.5f}   {:.5f}'.format(eulers[i, 0], eulers[i, 1], eulers[i, 2])\n"),
 ('T01', [(F, "      f.write(line+'\\r\\n')\n", "      out.append(line)\n    f.write('\\r\\n'.join(out) + '\\r\\n')\n"), (F, "    eulers = rotlib.qu2eu(data[-1]['quat'])\n    for", "    out = []\n    eulers = rotlib.qu2eu(data[-1]['quat'])\n    for")]),
]
