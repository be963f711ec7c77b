N = 'pyebsdindex/nlpar_cpu.py'
B = 'pyebsdindex/band_detect.py'
R = 'pyebsdindex/radon_fast.py'
M = 'pyebsdindex/misorientation.py'
RL = 'pyebsdindex/rotlib.py'
DS = '        diff_step = np.zeros(winsz,dtype=np.float32)\n'
MX = '    mxval = np.max(data)\n    if saturation_protect == False:\n      mxval += np.float32(1.0)'
MUT = [
    ('K01', [(N, DS, ''), (N, MX, DS[4:] + MX)]),
    ('K01', [(N, '        weights = np.zeros(winsz,dtype=np.float32)\n', ''), (N, MX, '    weights = np.zeros(winsz,dtype=np.float32)\n' + MX)]),
    ('K01', [(N, '        pindx = np.zeros(winsz,dtype=np.uint64)\n', ''), (N, MX, '    pindx = np.zeros(winsz,dtype=np.uint64)\n' + MX)]),
    ('K01', [(N, '      pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)\n', ''), (N, MX, '    pairdict = numba.typed.Dict.empty(key_type=numba.core.types.uint64,value_type=numba.core.types.float32)\n' + MX)]),
    ('K01', N, 'dataout[indx_0, q] += data[indx_nn, q]*weights[i_nn]', 'dataout[indx_nn, q] += data[indx_0, q]*weights[i_nn]'),
    ('K01', N, 'dataout[indx_0, q] += data[indx_nn, q]*weights[i_nn]', 'dataout[j, q] += data[indx_nn, q]*weights[i_nn]'),
    ('K01', N, 'dataout[indx_0, q] += data[indx_nn, q]*weights[i_nn]', 'dataout[indx_0, q] += dataout[indx_nn, q]*weights[i_nn]'),
    ('K01', [(N, '        counter = 0\n        for j_nn in range(winstart_y', '        for j_nn in range(winstart_y'), (N, '    for i in numba.prange(ncols):\n', '    counter = 0\n    for i in numba.prange(ncols):\n')]),
    ('K01', [(N, '        sum = np.float32(0.0)\n        for i_nn', '        for i_nn'), (N, '    for i in numba.prange(ncols):\n', '    sum = np.float32(0.0)\n    for i in numba.prange(ncols):\n')]),
    ('K01', N, '        sigma[j,i] = np.sqrt(mind)\n', '        sigma[j,i] = np.sqrt(mind)\n        sigma[j_nn,i_nn] = min(sigma[j,i], sigma[j_nn,i_nn])\n'),
    ('K01', N, 'dout[j,i,count] = d2 # want', 'dout[j,i,count] = dout[j_nn,i_nn,count] = d2 # want'),
    ('K01', N, 'nout[j,i,count] = n2\n', 'nout[j_nn,i_nn,count] = n2\n'),
    ('K01', N, 'dij[j,i,count,1] = np.uint64(i_nn)', 'dij[0,i,count,1] = np.uint64(i_nn)'),
    ('K01', [(N, '        mind = np.float32(1e24)\n', ''), (N, '    for j in numba.prange(rowstartcount', '    mind = np.float32(1e24)\n    for j in numba.prange(rowstartcount')]),
    ('K01', N, 'd2[j,i,q] /= s2_12*np.sqrt(2.0*n2[j,i,q])', 'd2[jj,i,q] /= s2_12*np.sqrt(2.0*n2[j,i,q])'),
    ('K01', N, 'd2[j,i,q] -= n2[j,i,q] * s2_12', 'n2[jj,ii,q] = n2[j,i,q]\n              d2[j,i,q] -= n2[j,i,q] * s2_12'),
]
KEEP = [
    ('K01', N, 'for i in numba.prange(ncols):', 'for i in range(ncols):'),
    ('K01', N, 'indx_0 = i + ncols * j\n', 'indx_0 = np.int64(ncols * j) + i\n'),
    ('K01', N, "dataout[indx_0, q] += data[indx_nn, q]*weights[i_nn]", "dataout[i + ncols*j, q] = dataout[indx_0, q] + data[indx_nn, q]*weights[i_nn]"),
    ('K01', N, '              d2[j,i,q] -= n2[j,i,q] * s2_12\n              d2[j,i,q] /= s2_12*np.sqrt(2.0*n2[j,i,q])', '              v = d2[j,i,q] - n2[j,i,q] * s2_12\n              d2[j,i,q] = v / (s2_12*np.sqrt(2.0*n2[j,i,q]))'),
    ('K01', R, '@jit(nopython=True, fastmath=True, cache=True, parallel=False)', '@jit(nopython=True, fastmath=True, cache=True, parallel=True)'),
    ('K01', N, '        for i_nn in range(counter):\n          indx_nn = pindx[i_nn]\n          weights[i_nn] /= sum', '        for w in range(counter):\n          i_nn = w\n          indx_nn = pindx[i_nn]\n          weights[i_nn] /= sum'),
]
