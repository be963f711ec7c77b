CSF = 'pyebsdindex/crystal_sym.py'; TVF = 'pyebsdindex/tripletvote.py'
MUT = [
 ('Y02', CSF, '149, 156', '150, 156'), ('Y02', CSF, '(sgpg[pgNum] > spacegroupid)', '(sgpg[pgNum] >= spacegroupid)'),
 ('Y02', TVF, 'self.lauecode = crystal_sym.spacegroup2lauenumber(self.spacegroup)', 'self.lauecode = crystal_sym.spacegroup2lauenumber(self.spacegroup-1)'),
 ('Y02', CSF, 'pgLaue[pgNum-1]', 'pgLaue[pgNum]'),
]
KEEP = [
 ('Y02', CSF, """    for pgNum in range(len(sgpg)):
      if (sgpg[pgNum] > spacegroupid):
        break

    lauenumber = pgLaue[pgNum-1]
""", """    pgNum = 0
    while pgNum < len(sgpg) - 1 and sgpg[pgNum] <= spacegroupid:
      pgNum += 1
    lauenumber = pgLaue[pgNum-1]
"""),
 ('Y02', CSF, """    for pgNum in range(len(sgpg)):
      if (sgpg[pgNum] > spacegroupid):
        break

    lauenumber = pgLaue[pgNum-1]
""", """    lauenumber = 43
    for pgNum, first in enumerate(sgpg):
      if first > spacegroupid:
        lauenumber = pgLaue[pgNum-1]
        break
"""),
 ('Y02', CSF, """    for pgNum in range(len(sgpg)):
      if (sgpg[pgNum] > spacegroupid):
        break

    lauenumber = pgLaue[pgNum-1]
""", """    lauenumber = pgLaue[0]
    for first, laue in zip(sgpg, pgLaue):
      if first <= spacegroupid:
        lauenumber = laue
"""),
]
MUT += [
 ('Y01', CSF, 'np.sin(5.0*PI/6.0 )', 'np.sin(5.0*PI/3.0 )'), ('Y01', CSF, 'symops[[0,7,8,9,16', 'symops[[0,7,8,10,16'),
 ('Y01', CSF, 'symops[1, :] = np.array([0.0, 0.0, 1.0, 0.0])', 'symops[1, :] = np.array([0.0, 0.0, 0.0, 1.0])'),
 ('Y01', CSF, 'qsym = rotlib.quat_multiply(symops,quatin)', 'qsym = rotlib.quat_multiply(quatin, symops)'),
 ('Y01', CSF, 'return tetragonal_q(low = True)', 'return tetragonal_q()'),
 ('Y01', CSF, 'symops = symops[0:6,:]', 'symops = symops[6:,:]'),
 ('Y01', CSF, 'symops[5, :] = np.array([0.000000000, -0.50000000, -0.866025400, 0.000000000])', 'symops[5, :] = np.array([0.000000000, 0.50000000, -0.866025400, 0.000000000])'),
]
KEEP += [
 ('Y01', CSF, 'symops[1, :] = np.array([0.0, 0.0, 1.0, 0.0])', 'symops[1, 2] = 1.0'),
 ('Y01', CSF, 'symops[1, :] = np.array([0.0, 0.0, 1.0, 0.0])', 'symops[1, :] = -1*np.array([0.0, 0.0, 1.0, 0.0])'),
 ('Y01', CSF, "symops[1, :] = np.array([np.cos(PI /4.0), 0.0, 0.0, np.sin(PI / 4.0)])", "for k in range(1,4):\n    symops[k, :] = np.array([np.cos(k*PI /4.0), 0.0, 0.0, np.sin(k*PI / 4.0)])"),
 ('Y01', CSF, """    symops = symops[0:3, :]
""", """    symops = symops[[i for i in range(6) if i < 3], :]
"""),
]
MUT += [
 ('L01', TVF, '[[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]]', '[[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 2]]'),
 ('L01', TVF, "spacegroup = 229", "spacegroup = 225"),
 ('L01', TVF, "[1.0, 1.0, 1.63, 90.0, 90.0, 120.0]", "[1.0, 1.0, 1.63, 120.0, 90.0, 90.0]"),
 ('L01', TVF, "[1, 0, -1, 3], [1, 1,-2, 2]", "[1, 0, -1, 3], [1, 1,-2, 1]"),
 ('L01', TVF, """      if spacegroup is None:
        spacegroup = 229
""", """      spacegroup = 229
"""),
 ('L01', TVF, "latticeparameter=latticeparameter, polefamilies=polefamilies, phasename = phasename)", "latticeparameter=latticeparameter, phasename = phasename)"),
 ('L01', TVF, "self.latticeparameter[4],\n                                              self.latticeparameter[5]", "self.latticeparameter[5],\n                                              self.latticeparameter[4]"),
 ('L01', TVF, "  triplib.build_trip_lib()\n  return triplib", "  return triplib"),
]
KEEP += [
 ('L01', TVF, "    self.crystalmats = crystallometry.Crystal(self.phaseName,\n                                              self.latticeparameter[0],\n                                              self.latticeparameter[1],\n                                              self.latticeparameter[2],\n                                              self.latticeparameter[3],\n                                              self.latticeparameter[4],\n                                              self.latticeparameter[5])", "    self.crystalmats = crystallometry.Crystal(self.phaseName, *self.latticeparameter[0:6])"),
 ('L01', TVF, """  triplib = BandIndexer(phasename=phasename,
                        spacegroup=spacegroup,
                        latticeparameter=latticeparameter,
                        polefamilies=np.atleast_2d(polefamilies),
                        nband_earlyexit=nband_earlyexit)
""", """  triplib = BandIndexer(nband_earlyexit=nband_earlyexit, phasename=phasename)
  triplib.setlatticeparameter(latticeparameter)
  triplib.setspacegroup(spacegroup)
  triplib.setpolefamilies(np.atleast_2d(polefamilies))
"""),
]

RLF = 'pyebsdindex/rotlib.py'
MUT += [
 ('R01', RLF, 'q1q2 = quat_multiplyL1N(q0,q1,n,intype,p=-p)', 'q1q2 = quat_multiplyL1N(q0,q1,n,intype,p=p)'),
 ('R01', RLF, 'vtemp2[1] = r[2] * vtemp[0] - r[0] * vtemp[2]\n    vtemp2[2] = r[0] * vtemp[1] - r[1] * vtemp[0]\n\n    for j in range(3):\n      vout[i,j] = 2.0 * vtemp2[j] + v[j]', 'vtemp2[1] = r[2] * vtemp[0] - r[0] * vtemp[2]\n    vtemp2[2] = r[0] * vtemp[1] - r[1] * vtemp[0]\n\n    for j in range(3):\n      vout[i,j] = 2.0 * vtemp2[j] + v[0]'),
 ('R01', RLF, '      qout[i,j+1] = -1.0*qu[i,j+1]', '      qout[i,j+1] = -1.0*qu[0,j+1]'),
 ('R01', RLF, 'qout += s*qu[i+1,:]', 'qout += s*qu[i,:]'),
 ('R01', RLF, "np.require(q2,requirements=['C','A']),p=p)", "np.require(q2,requirements=['C','A']))"),
 ('R01', RLF, "v,mv,n2,intype = prepIn(vIn)", "v,mv,n2,intype = prepIn(vIn)\n  n1 = max(n1,1)\n  v = v * 1.0001"),
 ('R02', RLF, "    om[i,0,2] = q + s * axn[i,1]", "    om[i,0,2] = q - s * axn[i,1]"),
 ('R02', RLF, "om = ax2om(ro2ax(ro, p=p), p=p)", "om = ax2om(ro2ax(ro), p=p)"),
 ('R02', RLF, "ho = ax2ho(om2ax(om, p=p), p=p)", "ho = ro2ho(om2ax(om, p=p), p=p)"),
 ('R02', RLF, "      if (q12 == 0.0):\n        eu[i,2] = 0.0\n        eu[i,1] = 0.0", "      if (q12 == 0.0):\n        eu[i,2] = 0.0\n        eu[i,1] = PI"),
 ('R02', RLF, "elif om[i,1,1] > om[i,2,2]:\n        s = 2.0 * np.sqrt(1.0 - om[i,0,0] + om[i,1,1]", "elif om[i,1,1] > om[i,2,2]:\n        s = 2.0 * np.sqrt(1.0 + om[i,0,0] - om[i,1,1]"),
 ('R02', RLF, "        qu[i,0] = (om[i,0,2] - om[i,2,0]) / s", "        qu[i,0] = (om[i,2,0] - om[i,0,2]) / s"),
 ('R02', RLF, "    if qu[i,0] > (1.0-eps):\n      ax[i,0] = 0.0\n      ax[i,1] = 0.0\n      ax[i,2] = -pf", "    if qu[i,0] > (1.0-eps):\n      ax[i,0] = 0.0\n      ax[i,1] = 0.0\n      ax[0,2] = -pf"),
 ('R02', RLF, "ho[i,j] = xyzba[j]", "ho[i,j] = xyzba[2-j]"),
]
KEEP += [
 ('R02 R01', RLF, "    c1 = np.cos(eu[i,0])\n    c2 = np.cos(eu[i,1])\n    c3 = np.cos(eu[i,2])\n    s1", "    e = eu[i]\n    c1 = np.cos(e[0])\n    c2 = np.cos(e[1])\n    c3 = np.cos(e[2])\n    s1"),
 ('R02 R01', RLF, "  om = qu2omL(np.require(qu,requirements=['C','A']),p=p)\n  om = np.squeeze(om)\n  return om", "  qin = np.require(qu,requirements=['C','A'])\n  return np.squeeze(qu2omL(qin,p))"),
 ('R02 R01', RLF, "ho = ax2ho(om2ax(om, p=p), p=p)", "ax = qu2ax(om2qu(om, p=p), p=p)\n  ho = ax2ho(ax, p)"),
 ('R02 R01', RLF, "  om = ax2om(ro2ax(ro, p=p), p=p)", "  om = qu2om(ro2qu(ro, p=p), p=p)"),
 ('R01', RLF, "  n = max(n1,n2)\n  if n1 == n2:\n    q1q2 = quat_multiplyLNN(q1,q2,n,intype,p=p)\n  elif n1 < n2:", "  n = n1 if n1 > n2 else n2\n  if n1 == n2:\n    return quat_multiplyLNN(q1,q2,n,intype,p=p)\n  if n1 < n2:"),
 ('R01 R02', RLF, "    sum = 1.0/(np.sqrt(sum)+1.0e-35)\n    if unitNorm == True:\n      for j in range(4):\n        qout[i,j] *= sum", "    length = np.sqrt(sum)+1.0e-35\n    if unitNorm:\n      for j in range(4):\n        qout[i,j] = qout[i,j] / length"),
 ('R01', RLF, "    for j in range(3):\n      qout[i,j+1] = -1.0*qu[i,j+1]", "    qout[i,1:] = -qu[i,1:]"),
 ('R02', RLF, "    q0 = pf * qu[i,0]\n    q03", "    q0 = qu[i,0] if p > 0 else -qu[i,0]\n    q03"),
]
