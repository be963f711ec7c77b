C = 'pyebsdindex/crystallometry.py'; T='pyebsdindex/tripletvote.py'; S='pyebsdindex/crystal_sym.py'
MUT = [
 ('C01', C, 'a*b**2*c*(cg*ca-cb)', 'a*b**2*c*(cg*cb-ca)'),
 ('C01', C, 'self.directStructureMatrix[1,1] = b*sg', 'self.directStructureMatrix[1,1] = b*sa'),
 ('C01', C, '-1.0/(a * tg)', '-1.0/(a * tg * sg)'),
 ('C01', C, 'np.transpose(self.directStructureMatrix)', 'np.transpose(self.invDirectStructureMatrix)'),
 ('C01', T, 'np.matmul(crystalmats.reciprocalStructureMatrix, np.array(pole).T)', 'np.matmul(crystalmats.directStructureMatrix, np.array(pole).T)'),
 ('C01', T, 'dotnum2 = np.sqrt(np.diag(p2.dot(t2)))', 'dotnum2 = np.sqrt(np.diag(p2.dot(p2.T)))'),
 ('C01', T, 'rStructMatrix=crystalmats.reciprocalStructureMatrix', 'rStructMatrix=crystalmats.directStructureMatrix'),
 ('C01', S, 'poles4[:, [0,1,3]]', 'poles4[:, [0,2,3]]'),
 ('C01', S, '- (poles3[:,0] + poles3[:,1])', '- (poles3[:,0] - poles3[:,1])'),
 ('C01', C, 'uvw[1] = uvtw[1] - uvtw[2]', 'uvw[1] = uvtw[1] - uvtw[0]'),
 ('C01', T, 'ang = self._calc_pole_dot_int(polesFlt[i, :], fampoles, rMetricTensor=crystalmats.reciprocalMetricTensor)', 'ang = self._calc_pole_dot_int(polesFlt[i, :], fampoles)'),
]
KEEP = [
 ('C01', C, 'self.metricTensor[1,0] = a*b*cg\n        self.metricTensor[0,1] = self.metricTensor[1,0]', 'self.metricTensor[0,1] = b*cg*a\n        self.metricTensor[1,0] = self.metricTensor[0,1]'),
 ('C01', T, 'polecart = np.matmul(crystalmats.reciprocalStructureMatrix, np.array(pole).T)', 'polecart = crystalmats.reciprocalStructureMatrix.dot(np.array(pole))'),
 ('C01', S, 'poles3 = poles4[:, [0,1,3]]', 'poles3 = np.zeros((npoles,3))\n  poles3[:,0] = poles4[:,0]\n  poles3[:,1] = poles4[:,1]\n  poles3[:,2] = poles4[:,3]'),
]
