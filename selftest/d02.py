P = 'pyebsdindex/_ebsd_index_parallel.py'
MUT = [
 ('D02', P, """                    else: # the worker reported a failure: requeue the job below
                        raise Exception("Error in GPU processing patterns")
""", ""),
 ('D02', P, "                    gjob = gpujobs.pop(0)\n                    if inputmode == \"filemode\":\n                        gputask.append(\n                            gpuworkers[0].findbands.remote(gjob,\n                                                           pats=None,", "                    if inputmode == \"filemode\":\n                        gputask.append(\n                            gpuworkers[0].findbands.remote(gjob,\n                                                           pats=None,"),
 ('D02', P, "                    del ctaskindex[jid]\n                    cpujobs.append(cjob)\n", "                    del ctaskindex[jid]\n"),
 ('D02', P, "                    gpujobs.append(gjob)\n                    if len(gpuworkers) == 0:", "                    if len(gpuworkers) == 0:\n                        gpujobs.append(gjob)"),
 ('D02', P, "                gpujobs.append(gjob)\n                if len(gpuworkers) == 0:\n", "                if len(gpuworkers) == 0:\n                    gpujobs.append(gjob)\n"),
 ('D02', P, "                    if message != 'Error':\n                        if ncpudone == njobs:", "                    if message != 'Failed':\n                        if ncpudone == njobs:"),
 ('D02', P, "                        ncpudone += 1\n                        chunkave += cjob.rate\n                        npatdone += cjob.npat\n", "                        chunkave += cjob.rate\n                        npatdone += cjob.npat\n                    ncpudone += 1\n                    if message == 'Done':\n"),
 ('D02', P, "                        gtaskindex[jid] = gjob\n                        ngpusubmit += 1\n", "                        ngpusubmit += 1\n"),
 ('D02', P, "                                ctaskindex[jid] = cjob\n", "                                ctaskindex[jid] = None\n"),
 ('D02', P, "            cpujob.rate = None\n            return \"Error\", (None,None, cpujob)", "            cpujob.rate = None\n            return \"Done\", (None,None, cpujob)"),
 ('D02', P, "    while ncpudone < njobs:\n", "    while ncpudone < njobs - 1:\n"),
 ('D02', P, "                    del gtaskindex[jid]\n                    gpujobs.append(gjob)\n", "                    gpujobs.append(gjob)\n"),
 ('D02', P, "                        ngpudone += 1\n                    else: # the worker reported a failure: requeue the job below\n", "                        ngpudone += 1\n                        gpujobs.append(gjob)\n                    else: # the worker reported a failure: requeue the job below\n"),
 ('D02', P, "                            cjob = cpujobs.pop(0)\n                            if cjob is not None:\n", "                            cjob = cpujobs.pop(0)\n                            if cjob is not None and len(cpuworkers) > 1:\n"),
]
KEEP = [
 ('D02', P, "                    gjob = gtaskindex[jid]\n                    print('A GPU death has occured', gjob.pstart, gjob.pend)\n                    del gpuworkers[jid]\n                    del gputask[jid]\n                    del gtaskindex[jid]\n                    gpujobs.append(gjob)\n",
  "                    gpujobs.append(gtaskindex[jid])\n                    print('A GPU death has occured')\n                    for lst in (gtaskindex, gputask, gpuworkers):\n                        del lst[jid]\n"),
 ('D02', P, "                    if message == 'Done':\n                        banddataout[gjob", "                    ok = message == 'Done'\n                    if ok:\n                        banddataout[gjob"),
 ('D02', P, "                            if cjob is not None:\n                                banddata = banddataout", "                            if not (cjob is None):\n                                banddata = banddataout"),
]
F = "                    if len(gpuworkers) == 0:\n\n                        gpuworkers.append("
G = "                if len(gpuworkers) == 0:\n\n                    gpuworkers.append("
MUT += [
 ('D02', P, "except Exception as e:\n                    print(e)", "except ray.exceptions.RayActorError as e:\n                    print(e)"),
 ('D02', P, "                except:\n                    gjob = gtaskindex[jid]", "                except ray.exceptions.RayError:\n                    gjob = gtaskindex[jid]"),
 ('D02', P, F, F.replace("== 0:", "== 0 and len(gpujobs) > 1:")),
 ('D02', P, G, G.replace("== 0:", "== 0 and len(gpujobs) > 1:")),
 ('D02', P, "        ncpuwrker = njobs\n", "        ncpuwrker = njobs - 1\n"),
]
KEEP += [
 ('D02', P, "cpujobs.append(cjob)\n                    if", "if cjob is not None:\n                        cpujobs.append(cjob)\n                    if"),
 ('D02', P, F, F.replace("== 0:", "== 0 and len(gpujobs) > 0:")),
 ('D02', P, F, F.replace("len(gpuworkers) == 0", "not gpuworkers")),
 ('D02', P, "        ncpuwrker = njobs\n", "        ncpuwrker = max(1, njobs - 1)\n"),
 ('D02', P, "except Exception as e:\n                    print(e)", "except (ray.exceptions.RayError, Exception) as e:\n                    print(e)"),
 ('D02', P, "cjob = cpujobs.pop(0)", "cjob = cpujobs.pop()"),
]
