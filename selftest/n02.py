N = 'pyebsdindex/nlpar_cpu.py'
C = 'pyebsdindex/opencl/nlpar_cl.py'
R = 'pyebsdindex/opencl/nlpar_clray.py'
K = 'pyebsdindex/opencl/clnlpar.cl'
MUT = [
    # _calcchunks
    ('N02', N, 'colchunks[-1, 0] = max(0, colchunks[-2, 1] -  2*col_overlap-1)', 'colchunks[-1, 0] = max(0, colchunks[-2, 1] -  col_overlap)'),
    ('N02', N, 'cchunk = [int(c * colstep) - col_overlap, int(c * colstep + colstepov) - col_overlap]', 'cchunk = [int(c * colstep) - col_overlap, int(c * colstep + colstep)]'),
    ('N02', N, 'colchunks[-1, 1] = ncol\n', ''),
    ('N02', N, 'rowstepov = min(rowstep + 2 * row_overlap, nrow)\n    if rowstepov', 'rowstepov = min(rowstep + row_overlap, nrow)\n    if rowstepov'),
    ('N02', N, 'rowstep = max(int(np.round(rowstep)), row_overlap + 1)', 'rowstep = int(np.round(rowstep))'),
    # CPU
    ('N02', N, 'rowstartread = np.int64(max(0, j-sr))\n      rowend = min(max(j + chunksize+sr, 2*sr+1),nrows)', 'rowstartread = np.int64(j)\n      rowend = min(max(j + chunksize+sr, 2*sr+1),nrows)'),
    ('N02', N, 'rowend = min(max(j + chunksize+sr, 2*sr+1),nrows)', 'rowend = min(max(j + chunksize, 2*sr+1),nrows)'),
    ('N02', N, 'dataout = dataout[j-rowstartread:, :, : ]', 'dataout = dataout[0:chunksize, :, : ]'),
    ('N02', N, 'patStartCount = [[0,j], [ncols, shpout[0]]]', 'patStartCount = [[0,rowstartread], [ncols, shpout[0]]]'),
    ('N02', N, 'sigchunk = sigma[rowstartread:rowend,:]\n', 'sigchunk = sigma[j:rowend,:]\n'),
    ('N02', N, 'sigchunk = sigma[rowstartread:rowend,:]\n', 'sigchunk = sigma[0:rowcountread,:]\n'),
    ('N02', N, 'indx_nn = i_nn + ncols * j_nn\n            pindx', 'indx_nn = i_nn + nrows * j_nn\n            pindx'),
    ('N02', N, 'winend_x = min(min((i + sr),(ncols - 1)) + max((sr - i),0) + 1, ncols)', 'winend_x = min(min((i + sr),(nrows - 1)) + max((sr - i),0) + 1, ncols)'),
    ('N02', N, 'sigma1 = sigma[j_nn,i_nn]**2', 'sigma1 = sigma[j_nn - winstart_y,i_nn]**2'),
    ('N02', N, 'for i_nn in range(counter):\n          indx_nn = pindx[i_nn]', 'for i_nn in range(counter - 1):\n          indx_nn = pindx[i_nn]'),
    ('N02', N, 'nn_r_end = (j + nn if (j + nn) < nrows else nrows-1)+1', 'nn_r_end = (j + nn if (j + nn) < nrows else nrows-1)'),
    # GPU host
    ('N02', C, "col_overlap=sr, row_overlap=sr)", "col_overlap=1, row_overlap=0)"),
    ('N02', C, "rstartcalc = sr if (rowchunk > 0) else 0", "rstartcalc = sr"),
    ('N02', C, "cendcalc = ncolchunk - sr if (colchunk < (chunks[0] - 1)) else ncolchunk", "cendcalc = ncolchunk - 2*sr if (colchunk < (chunks[0] - 1)) else ncolchunk"),
    ('N02', C, "patStartCount=[[np.int64(cstart + cstartcalc), np.int64(rstart + rstartcalc)],", "patStartCount=[[np.int64(cstart + cstartcalc), np.int64(rstart)],"),
    ('N02', C, "calclim = np.array([cstartcalc, rstartcalc, ncolchunk, nrowchunk], dtype=np.int64)", "calclim = np.array([cstartcalc, rstartcalc, ncolcalc, nrowcalc], dtype=np.int64)"),
    ('N02', C, "calclim = np.array([cstartcalc, rstartcalc, ncolchunk, nrowchunk], dtype=np.int64)", "calclim = np.array([rstartcalc, cstartcalc, ncolchunk, nrowchunk], dtype=np.int64)"),
    ('N02', C, "sigma[rstart:rend, cstart:cend].astype(np.float32)", "sigma[rstart:rend, :].astype(np.float32)"),
    ('N02', C, "          if j[\"nattempts\"] < 3:", "          if j[\"nattempts\"] > 3:"),
    ('N02', C, 'or (j["nattempts"] >= 3)', 'or (j["nattempts"] > 3)'),
    ('N02', C, "data = data[rstartcalc: rstartcalc + nrowcalc,\n                 cstartcalc:cstartcalc + ncolcalc, :, :]", "data = data[0: nrowcalc,\n                 0:ncolcalc, :, :]"),
    ('N02', C, "sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)", "sigma[rstart:rend, cstart:cend] = sigmachunk"),
    ('N02', C, "col_overlap=nn, row_overlap=nn)", "col_overlap=0, row_overlap=0)"),
    ('N02', C, "for rowchunk in range(chunks[1]):", "for rowchunk in range(chunks[0]):"),
    ('N02', C, "while len(jqueue) > 0:", "while len(jqueue) > 1:"),
    # Ray
    ('N02', R, "patStartCount=[[gpujob.cstart + gpujob.cstartcalc,\n", "patStartCount=[[gpujob.cstart + gpujob.rstartcalc,\n"),
    ('N02', R, "                else: #An error has occured ... hopefully just need a re-process.\n                  jobqueue.append(job)", "                else: #An error has occured ... hopefully just need a re-process.\n                  ndone += 1"),
    ('N02', R, "self.nrowcalc = self.rendcalc - self.rstartcalc", "self.nrowcalc = self.rendcalc"),
    ('N02', R, "self.sigma[rstart:rend, cstart:cend].astype(np.float32)", "self.sigma[rstart:rend, 0:ncolchunk].astype(np.float32)"),
    ('N02', R, "            jobqueue.append( NLPARGPUJob([colchunk, rowchunk],\\\n                    [cstart,cend, rstart, rend],\\", "            jobqueue.append( NLPARGPUJob([colchunk, rowchunk],\\\n                    [rstart,rend, cstart, cend],\\"),
    ('N02', R, "sigma[rstart:rend, cstart:cend] = np.minimum(sigma[rstart:rend, cstart:cend], sigmachunk)", "sigma[rstart:rend, cstart:cend] = sigmachunk"),
    # kernel
    ('N02', K, "const long indx_xy = x+y*ncol;\n  //printf", "const long indx_xy = x+y*nrow;\n  //printf"),
    ('N02', K, "const long y = get_global_id(1)+crlimits[1];", "const long y = get_global_id(1)+crlimits[0];"),
    ('N02', K, "indx_ij =  (indx_ij < ncol) ? (indx_ij): ncol - (indx_ij -ncol +1);\n              indx_ij =  (indx_ij >= 0) ? (indx_ij): 0;\n              \n              indx_ij = (indx_ij + indx_j);\n              \n              indx_ij *= npatpoint;\n              \n              \n", "indx_ij =  (indx_ij < nrow) ? (indx_ij): nrow - (indx_ij -nrow +1);\n              indx_ij =  (indx_ij >= 0) ? (indx_ij): 0;\n              \n              indx_ij = (indx_ij + indx_j);\n              \n              indx_ij *= npatpoint;\n              \n              \n"),
]
KEEP = [
    ('N02', C, "        rstart = j[\"rstart\"]\n        cstart = j[\"cstart\"]\n", "        rstart, cstart = j[\"rstart\"], j[\"cstart\"]\n"),
    ('N02', C, "      rstartcalc = sr if (rowchunk > 0) else 0\n", "      if rowchunk > 0:\n        rstartcalc = sr\n      else:\n        rstartcalc = 0\n"),
    ('N02', N, "      rowcountread = np.int64(rowend-rowstartread)\n      data, xyloc = patternfile.read_data(patStartCount = [[0,rowstartread], [ncols,rowcountread]],", "      rowcountread = np.int64(rowend) - rowstartread\n      block = [[0,rowstartread], [ncols,rowcountread]]\n      data, xyloc = patternfile.read_data(patStartCount = block,"),
    ('N02', N, "dataout[indx_0, q] += data[indx_nn, q]*weights[i_nn]", "dataout[indx_0, q] = weights[i_nn]*data[indx_nn, q] + dataout[indx_0, q]"),
    ('N02', N, "    colchunks = []\n    col_overlap = int(col_overlap)\n    for c in range(ncolchunks):\n      cchunk = [int(c * colstep) - col_overlap, int(c * colstep + colstepov) - col_overlap]\n", "    colchunks = []\n    col_overlap = int(col_overlap)\n    for c in range(ncolchunks):\n      first = int(c * colstep) - col_overlap\n      cchunk = [first, first + int(colstepov)]\n"),
    ('N02', R, "        while ndone < njobs:", "        while not (ndone >= njobs):") if False else ('N02', R, "    njobs = len(jobqueue)\n    ndone = 0\n    while ndone < njobs:\n        if len(jobqueue) > 0:\n            if len(idlewrker) > 0:", "    ndone = 0\n    njobs = len(jobqueue)\n    while not (ndone >= njobs):\n        if len(jobqueue) > 0:\n            if len(idlewrker) > 0:"),
    ('N02', R, "                if message == 'Done':\n                  ndone += 1\n                  if verbose >= 2:\n                    print(\"tiles complete: \", ndone, \"/\", njobs, sep='', end='\\r')\n                else: #An error has occured ... hopefully just need a re-process.\n                  jobqueue.append(job)\n                  print(message)", "                if message != 'Done':\n                  jobqueue.append(job)\n                  print(message)\n                  continue\n                ndone += 1\n                if verbose >= 2:\n                  print(\"tiles complete: \", ndone, \"/\", njobs, sep='', end='\\r')"),
    ('N02', K, "const long indx_xy = x+y*ncol;\n  //printf", "const long indx_xy = ncol*y + x;\n  //printf"),
]
