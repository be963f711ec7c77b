A = 'pyebsdindex/_ebsd_index_single.py'
F = 'pyebsdindex/ebsdfile.py'
I = 'pyebsdindex/EBSDImage/IPFcolor.py'
S = 'pyebsdindex/EBSDImage/scalarimage.py'
MUT = [
    ('S01', A, 'indxData["phase"] = -1', 'indxData["phase"] = 0'),
    ('S01', A, 'indxData["fit"] = 180.0', 'indxData["fit"] = 0.0'),
    ('S01', A, 'indxData["nmatch"] = 0', 'indxData["nmatch"] = -1'),
    ('S01', A, 'whgood = np.nonzero(nMatch >= 3 )[0]', 'whgood = np.nonzero(nMatch >= 2 )[0]'),
    ('S01', A, 'whgood2 = p2do[whgood]', 'whgood2 = whgood'),
    ('S01', A, 'indxData["cm"][j, whgood2] = cm[whgood]', 'indxData["cm"][j, whgood] = cm[whgood]'),
    ('S01', A, 'indxData["totvotes"][j, whgood2] = totvotes[whgood]', 'indxData["totvotes"][0, whgood2] = totvotes[whgood]'),
    ('S01', A, 'indxData["fit"][j, whgood2] = fit[whgood]', 'indxData["fit"][j, p2do] = fit'),
    ('S01', A, 'indxData[-1, whbetter] = indxData[j, whbetter]', 'indxData[-1, whbetter] = indxData[j-1, whbetter]'),
    ('S01', A, 'phasetest = (indxData[j, :]["phase"] >= 0) & (phasetest | (indxData[-1, :]["phase"] < 0))', 'pass'),
    ('S01', A, '(indxData[j, :]["phase"] >= 0) & (phasetest', '(indxData[j, :]["phase"] >= 0) | (phasetest'),
    ('S01', A, 'indxData[-1, :] = indxData[0, :]', 'indxData[-1, :]["fit"] = indxData[0, :]["fit"]'),
    ('S01', A, 'for j in range(1, nPhases):\n                # indx', 'for j in range(1, nPhases - 1):\n                # indx'),
    ('S01', A, 'bandmatchindex[whgood2, ..., j] = bandmatch', 'bandmatchindex[whgood2, ..., 0] = bandmatch'),
    ('S01', A, 'dtype=np.int32)-100\n        banddataout', 'dtype=np.int32)\n        banddataout'),
    ('S01', F, "if data[-1]['phase'][i] < 0:", "if data[-1]['phase'][i] < -1:"),
    ('S01', F, "        ci = -1.0\n", "        ci = 0.0\n"),
    ('S01', F, "wh = np.nonzero(data[-1]['phase'] < 0)[0]", "wh = np.nonzero(data[-1]['phase'] <= 0)[0]"),
    ('S01', F, "phaseid = (phaseid).clip(0)", "phaseid = np.abs(phaseid)"),
    ('S01', I, "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "ipfout[ebsddata[-1]['fit'] > 180,:] = 0"),
    ('S01', I, "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "ipfout[ebsddata[0]['phase'] > 0,:] = 0"),
    ('S01', S, "mn = imagedata[imagedata < 179].mean()\n    std = imagedata[imagedata < 179].std()\n    norm", "mn = imagedata.mean()\n    std = imagedata[imagedata < 179].std()\n    norm"),
    ('S01', S, "norm = plt.Normalize(vmin=-1)", "norm = plt.Normalize(vmin=0)"),
]
KEEP = [
    ('S01', A, 'whgood = np.nonzero(nMatch >= 3 )[0]', 'whgood = np.flatnonzero(nMatch > 2)'),
    ('S01', A, 'p2do = np.ravel(np.nonzero(np.max(indxData["nmatch"], axis=0) < earlyexit)[0])', 'p2do = np.where(indxData["nmatch"].max(axis=0) < earlyexit)[0]'),
    ('S01', A, 'whbetter = np.nonzero(phasetest)', 'whbetter = np.where(phasetest)[0]'),
    ('S01', A, 'indxData["fit"][j, whgood2] = fit[whgood]', 'indxData[j]["fit"][whgood2] = fit[whgood]'),
    ('S01', A, 'indxData["fit"][j, whgood2] = fit[whgood]', 'indxData[j, whgood2]["fit"]\n                layer = indxData[j]\n                layer["fit"][whgood2] = fit[whgood]'),
    ('S01', A, '((3.0 - indxData[j, :]["fit"]) * indxData[j, :]["nmatch"]) \\\n                            > ((3.0 - indxData[-1, :]["fit"]) * indxData[-1, :]["nmatch"])', '(indxData["nmatch"][-1] * (3.0 - indxData["fit"][-1])) < (indxData["nmatch"][j] * (3.0 - indxData["fit"][j]))'),
    ('S01', F, "if data[-1]['phase'][i] < 0:", "if data[-1]['phase'][i] <= -1:"),
    ('S01', I, "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "ipfout[ebsddata[-1]['phase'] < 0,:] = 0"),
    ('S01', I, "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "unindexed = ebsddata[-1]['nmatch'] < 1\n  ipfout[unindexed] = 0.0"),
    ('S01', S, "mn = imagedata[imagedata < 179].mean()\n    std = imagedata[imagedata < 179].std()\n    norm", "good = imagedata[ebsddata[-1]['phase'] >= 0]\n    mn = good.mean()\n    std = good.std()\n    norm"),
]
