I = 'pyebsdindex/EBSDImage/IPFcolor.py'
MUT = [
    ('I01', I, 'xstalv[xstalv[:, 2] < 0, :] *= -1', 'pass'),
    ('I01', I, 'xstalv = np.abs(xstalv)\n', 'pass\n'),
    ('I01', I, 'xstalv = np.sort(xstalv, axis=1)', 'xstalv = xstalv[:, ::-1]'),
    ('I01', I, 'q60 = rotlib.quatnorm(np.array([ np.cos(np.pi/6.0),0, 0, -0.50000000]))', 'q60 = rotlib.quatnorm(np.array([ np.cos(np.pi/4.0),0, 0, -np.sin(np.pi/4.0)]))'),
    ('I01', I, 'xstalv[wh, 1] -= const * ny', 'xstalv[wh, 1] += const * ny'),
    ('I01', I, 'wh = np.where(theta >= np.pi / 6.)[0]', 'wh = np.where(theta >= np.pi / 3.)[0]'),
    ('I01', I, 'nx = -np.sin(np.pi / 6.)', 'nx = np.sin(np.pi / 6.)'),
    ('I01', I, 'return ipf_color_hex(xstalvect).clip(0.0, 1.0)', 'return ipf_color_cubic(xstalvect).clip(0.0, 1.0)'),
    ('I01', I, 'xstalvect = rotlib.quat_vector(quats,vector)\n  return ipf_color_cubic', 'xstalvect = rotlib.quat_vector(rotlib.quatconj(quats),vector)\n  return ipf_color_cubic'),
    ('I01', I, 'xstalvect = rotlib.quat_vector(quats,vector)\n  return ipf_color_hex', 'xstalvect = rotlib.quat_vector(quats,vector,p=-1)\n  return ipf_color_hex'),
    ('I01', I, 'ipfphase[phcount, :, :] = qu2ipf_hex(quat, vector=vector)', 'ipfphase[phcount, :, :] = qu2ipf_hex(quat)'),
    ('I01', I, "quat = ebsddata[phcount]['quat']", "quat = ebsddata[0]['quat']"),
    ('I01', I, "phase = ((ebsddata[-1]['phase']).copy()).clip(0)", "phase = ((ebsddata[0]['phase']).copy()).clip(0)"),
    ('I01', I, 'ipf_out = ipf_out.reshape(ysize, xsize, 3)', 'ipf_out = ipf_out.reshape(xsize, ysize, 3)'),
    ('I01', I, 'npts = min(int(npoints), int(xsize*ysize))', 'npts = min(int(npoints), int(xsize*(ysize-1)))'),
    ('I01', I, 'xsize = indexer.fID.nCols', 'xsize = int(npoints)'),
    ('I01', I, "ph.lauecode == 62", "ph.lauecode == 6"),
    ('I01', I, "xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]\n  xstalv = np.abs", "xstalv = np.abs"),
    ('I01', I, 'xP = (2 * xstalv[:,1]) / (1 + xstalv[:,2])', 'xP = (2 * xstalv[:,0]) / (1 + xstalv[:,2])'),
]
KEEP = [
    ('I01', I, 'H = H % (360.0)\n', 'H = np.abs(H) % 360.0\n'),
    ('I01', I, 'xstalv[xstalv[:, 2] < 0, :] *= -1', 'xstalv[xstalv[:, 2] < 0, 2] *= -1'),
    ('I01', I, 'xstalv = np.sort(xstalv, axis=1)', 'xstalv.sort(axis=1)'),
    ('I01', I, 'xstalv = np.abs(xstalv)\n  xstalv = np.sort(xstalv, axis=1)', 'xstalv = np.sort(np.abs(xstalv), axis=-1)'),
    ('I01', I, 'xP = (2 * xstalv[:,1]) / (1 + xstalv[:,2])', 'z = 1.0 + xstalv[:, 2]\n  xP = xstalv[:, 1] * 2 / z'),
    ('I01', I, "  phcount = 0\n  for ph in indexer.phaseLib:", "  for phcount, ph in enumerate(indexer.phaseLib):"),
    ('I01', I, "    if ph.lauecode == 62:", "    elif ph.lauecode == 62:"),
    ('I01', I, "wh = np.where(theta >= np.pi / 6.)[0]", "wh = np.nonzero(theta > np.pi / 6.)[0]"),
    ('I01', I, "    const = 2. * (nx * xstalv[wh,0] + ny * xstalv[wh, 1])", "    const = (nx * xstalv[wh,0] + ny * xstalv[wh, 1]) * 2"),
    ('I01', I, "  ipf_out = np.zeros((ysize, xsize,3), dtype=np.float32)\n  ipf_out = ipf_out.flatten()", "  ipf_out = np.zeros(ysize * xsize * 3, dtype=np.float32)"),
    ('I01', I, "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "ipfout[np.logical_not(ebsddata[-1]['fit'] <= 179)] = 0"),
    ('I01', I, "  ipf_out[0:npts*3] = ipfout[0:npts,:].flatten()\n  ipf_out = ipf_out.reshape(ysize, xsize, 3)", "  ipf_out = ipf_out.reshape(-1, 3)\n  ipf_out[:npts] = ipfout[:npts]\n  ipf_out = ipf_out.reshape(ysize, xsize, 3)"),
    ('I01', I, '''  theta = np.arctan2(xstalv[:,1], xstalv[:,0])
  wh = np.where(theta >= np.pi/3.)[0]
  q60 = rotlib.quatnorm(np.array([ np.cos(np.pi/6.0),0, 0, -0.50000000]))

  while wh.size > 0:
    xstalv[wh,:] = rotlib.quat_vector(q60,xstalv[wh,:] )
    theta = np.arctan2(xstalv[:, 1], xstalv[:, 0])
    wh = np.where(theta >= np.pi / 3.)[0]
''', '''  theta = np.arctan2(xstalv[:,1], xstalv[:,0])
  turns = np.floor(theta / (np.pi / 3.0)).clip(0)
  r = np.hypot(xstalv[:,0], xstalv[:,1])
  theta = theta - turns * (np.pi / 3.0)
  xstalv[:,0] = r * np.cos(theta)
  xstalv[:,1] = r * np.sin(theta)
'''),
]
MUT += [
 ('I01', 'pyebsdindex/EBSDImage/IPFcolor.py', "    if ph.lauecode == 62:", "    if ph.lauecode in (62, 32):"),
 ('I01', 'pyebsdindex/EBSDImage/IPFcolor.py', "    if ph.lauecode == 43:", "    if ph.lauecode in (43, 23):"),
 ('I01', 'pyebsdindex/EBSDImage/IPFcolor.py', "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "ipfout[ebsddata[0]['fit'] > 179,:] = 0"),
]
KEEP += [
 ('I01', 'pyebsdindex/EBSDImage/IPFcolor.py', "ipfout[ebsddata[-1]['fit'] > 179,:] = 0", "ipfout[ebsddata[-1]['phase'] < 0,:] = 0"),
 ('I01', 'pyebsdindex/EBSDImage/IPFcolor.py', "xstalv /= np.sqrt((xstalv ** 2).sum(-1))[..., np.newaxis]", "xstalv /= np.linalg.norm(xstalv, axis=-1, keepdims=True)"),
]
