P = 'pyebsdindex/_ebsd_index_parallel.py'
S = 'pyebsdindex/_ebsd_index_single.py'
JOBS = """    p_indx_start_end = [
        [i * chunksize + patstart, (i + 1) * chunksize + patstart, chunksize]
        for i in range(njobs)
    ]
    p_indx_start_end[-1][1] = npats + patstart
    p_indx_start_end[-1][2] = p_indx_start_end[-1][1] - p_indx_start_end[-1][0]

    gpujobs = []
    cpujobs = []
    jid = 1
    for jb in p_indx_start_end:
        gpujobs.append(CPUGPUJob(jid, jb[0], jb[1]))
        jid += 1
"""
MUT = [
 ('D01', P, "    p_indx_start_end[-1][1] = npats + patstart\n", "    p_indx_start_end[-1][1] = npats\n"),
 ('D01', P, "    p_indx_start_end[-1][1] = npats + patstart\n", "    p_indx_start_end[-1][1] = min(npats + patstart, npatsTotal - 1)\n"),
 ('D01', P, "np.ceil(npats / chunksize)", "1 + np.floor(npats / chunksize)"),
 ('D01', P, "(i + 1) * chunksize + patstart, chunksize]", "(i + 1) * chunksize + patstart - 1, chunksize]"),
 ('D01', P, "patstart = npatsTotal + patstart", "patstart = npatsTotal - patstart"),
 ('D01', P, "    if npats <= 0 or npats > npatsTotal - patstart:\n", "    if npats <= 0 or npats > npatsTotal:\n"),
 ('D01', P, "    if npats <= 0 or npats > npatsTotal - patstart:\n", "    if npats < 0 or npats > npatsTotal - patstart:\n"),
 ('D01', P, "dataout[:, cjob.pstart - patstart: cjob.pend - patstart] = indexdata", "dataout[:, cjob.pstart: cjob.pend] = indexdata"),
 ('D01', P, "banddataout[cjob.pstart - patstart: cjob.pend - patstart, :] = bnddata", "banddataout[gjob.pstart - patstart: gjob.pend - patstart, :] = bnddata"),
 ('D01', P, "dataout[:, cjob.pstart - patstart: cjob.pend - patstart] = indexdata", "dataout[:, (cjob.jobid - 1) * chunksize: cjob.jobid * chunksize] = indexdata\n                        dataout[:, cjob.pstart: cjob.pend] = indexdata"),
 ('D01', P, "banddata = banddataout[cjob.pstart - patstart: cjob.pend - patstart, :]", "banddata = banddataout[cjob.pstart: cjob.pend, :]"),
 ('D01', P, "bandnormsout[gjob.pstart - patstart: gjob.pend - patstart, :,:] = bandnorm", "bandnormsout[gjob.pstart: gjob.pend, :,:] = bandnorm"),
 ('D01', P, "            pats, xyloc = indexer._getpats(\n                patsin=pats,\n                patstart=gpujob.pstart,\n                npats=gpujob.npat", "            pats, xyloc = indexer._getpats(\n                patsin=pats,\n                patstart=gpujob.pstart,\n                npats=gpujob.pend"),
 ('D01', P, "        self.npat = pend - pstart", "        self.npat = pend - pstart + 1"),
 ('D01', P, "            return \"Done\", (indxData,banddata, cpujob)", "            return \"Done\", (banddata, indxData, cpujob)"),
 ('D01', P, "                        gjob = gpujobs.pop(0)\n                        if inputmode == \"filemode\":\n                            gputask[jid] = gpuworkers[jid].findbands.remote(gjob,\n                                    pats=None,\n                                    indexer=remote_indexer\n                            )\n                        else:\n                            gputask[jid] = gpuworkers[jid].findbands.remote(gjob,\n                                pats=pats[gjob.pstart:gjob.pend, :, :],",
   "                        last = gjob\n                        gjob = gpujobs.pop(0)\n                        if inputmode == \"filemode\":\n                            gputask[jid] = gpuworkers[jid].findbands.remote(gjob,\n                                    pats=None,\n                                    indexer=remote_indexer\n                            )\n                        else:\n                            gputask[jid] = gpuworkers[jid].findbands.remote(gjob,\n                                pats=pats[last.pstart:last.pend, :, :],"),
 ('D01', P, "gpuworkers[i].findbands.remote(gjob,\n                                               pats=pats[gjob.pstart:gjob.pend, :, :]", "gpuworkers[i].findbands.remote(gjob,\n                                               pats=pats[gjob.pstart - patstart:gjob.pend - patstart, :, :]"),
 ('D01', P, "cpujobs.append(CPUGPUJob(gjob.jobid, gjob.pstart, gjob.pend, extime=gjob.extime))", "cpujobs.append(CPUGPUJob(gjob.jobid, gjob.pstart, gjob.pstart + chunksize, extime=gjob.extime))"),
 ('D01', P, "dataout = np.zeros((nPhases + 1, npats), dtype", "dataout = np.zeros((nPhases + 1, npatsTotal), dtype"),
 ('D01', S, "                patStartCount=[patstart, npats],\n                convertToFloat=False,", "                patStartCount=[patstart, -1],\n                convertToFloat=False,"),
]
KEEP = [
 ('D01', P, JOBS, """    gpujobs = []
    cpujobs = []
    for k, first in enumerate(range(patstart, patstart + npats, chunksize)):
        gpujobs.append(CPUGPUJob(k + 1, first, min(first + chunksize, patstart + npats)))
"""),
 ('D01', [(P, JOBS, """    gpujobs = _makejobs(patstart, npats, chunksize, njobs)
    cpujobs = []
"""), (P, "def __optimizegpuchunk__(indexer", """def _makejobs(first, count, chunk, njobs):
    out = []
    for i in range(njobs):
        lo = first + i * chunk
        hi = lo + chunk
        if hi > first + count:
            hi = first + count
        out.append(CPUGPUJob(i + 1, lo, hi))
    return out


def __optimizegpuchunk__(indexer""")]),
 ('D01', P, "                        dataout[:, cjob.pstart - patstart: cjob.pend - patstart] = indexdata\n                        banddataout[cjob.pstart - patstart: cjob.pend - patstart, :] = bnddata\n",
  "                        lo = cjob.pstart - patstart\n                        rows = slice(lo, lo + cjob.pend - cjob.pstart)\n                        banddataout[rows] = bnddata\n                        dataout[:, rows] = indexdata\n"),
 ('D01', P, "message, (indexdata,bnddata, cjob) = ray.get(wrker)", "answer = ray.get(wrker)\n                    message = answer[0]\n                    indexdata, bnddata, cjob = answer[1]"),
 ('D01', P, "        self.npat = pend - pstart", "        self.npat = self.pend - self.pstart"),
]
MUT += [
 ('D01', P, "banddataout[cjob.pstart - patstart: cjob.pend - patstart, :] = bnddata", "banddataout[cjob.pstart - patstart: cjob.pend - patstart, :] = banddata"),
 ('D01', P, "njobs = (np.ceil(npats / chunksize)).astype(np.int64)", "njobs = int(npats // chunksize) + 1"),
]
KEEP += [
 ('D01', P, "njobs = (np.ceil(npats / chunksize)).astype(np.int64)", "njobs = int((npats - 1) // chunksize) + 1"),
]
