N = 'pyebsdindex/nlpar_cpu.py'
C = 'pyebsdindex/opencl/nlpar_cl.py'
R = 'pyebsdindex/opencl/nlpar_clray.py'
K = 'pyebsdindex/opencl/clnlpar.cl'
MUT = [
    ('N03', K, "dd -= nn*(sigma_ij+sigma0);", "dd -= nn*sigma_ij;"),
    ('N03', K, "norm = (sigma0 + sigma_ij)*sqrt(2.0*nn);", "norm = (sigma0 + sigma_ij)*sqrt(nn);"),
    ('N03', K, "sigma_ij *= sigma_ij; \n                nn = n[count];", "nn = n[count];"),
    ('N03', K, "  sigma0 *= sigma0; \n", ""),
    ('N03', K, "dd -= dthresh;\n", ""),
    ('N03', K, "dd = exp(-1.0*dd*lam2);", "dd = exp(-1.0*dd*dd*lam2);"),
    ('N03', K, "sum += dd; \n              d[count] = dd;", "d[count] = dd;\n              sum += dd - diff_step[count];"),
    ('N03', K, "mask0 =  (mask0 > (float16) 1.e-3) ? (float16) 1.0 : (float16) 0.0; \n      mask0 =  d0 <", "mask0 =  d0 <") if False else ('N03', K, "      mask0 =  d0 < (float16) (maxlim) ? mask0 : (float16) (0.0);\n", ""),
    ('N03', K, "mask1 =  d1 < (float16) (maxlim) ? mask1 : (float16) (0.0);\n              //mask1 = select((float16) (1.0), (float16) (0.0), isgreater(mask0, (float16)(1e-6)) && isgreater(mask1,(float16)(1e-6)));\n              //printf(\"%*s\\n\", 'here');\n              \n              d1 = (d0-d1);\n              d1 *= d1 ; \n              d1 *= mask1; \n\n              dd = sum16(&d1);\n              if", "d1 = (d0-d1);\n              d1 *= d1 ; \n              d1 *= mask1; \n\n              dd = sum16(&d1);\n              if"),
    ('N03', C, "np.float32(1.0/lam**2)", "np.float32(1.0/lam)"),
    ('N03', R, "np.float32(1.0 / lam ** 2)", "np.float32(lam ** 2)"),
    ('N03', R, "np.float32(dthresh),\n                  np.float32(diff_offset))", "np.float32(diff_offset),\n                  np.float32(dthresh))"),
    ('N03', N, "lam2 = 1.0 / lam**2", "lam2 = 1.0 / lam"),
    ('N03', N, "d2 -= n2*(sigma0+sigma1)", "d2 -= n2*(sigma0+sigma0)"),
    ('N03', N, "sigma0 = sigma[j,i]**2", "sigma0 = sigma[j,i]"),
    ('N03', N, "weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))", "weights[i_nn] = np.maximum(weights[i_nn], numba.float32(0.0)) - dthresh"),
    ('N03', N, "dnorm = (sigma1 + sigma0)*np.sqrt(np.float32(2.0)*n2)", "dnorm = (sigma1 + sigma0)*np.sqrt(np.float32(2.0))*n2"),
    ('N03', N, "if (d1 < mxval) and (d0 < mxval):\n                    n2 += np.float32(1.0)", "if (d1 < mxval):\n                    n2 += np.float32(1.0)"),
    ('N03', N, "          weights[i_nn] += diff_step[i_nn]\n          sum += weights[i_nn]", "          sum += weights[i_nn]\n          weights[i_nn] += diff_step[i_nn]"),
    ('N03', [(N, "pairid = idx0_t + (idx1_t << 32)", "pairid = idx0_t + idx1_t"), (N, "pairid = idx1_t + (idx0_t << 32)", "pairid = idx1_t + idx0_t")]),
    ('N03', N, "s0 = d2 / np.float32(n2 * 2.0)", "s0 = d2 / np.float32(n2)"),
    ('N03', K, "s0 = d[j]/(2.0*n[j]);", "s0 = d[j]/n[j];"),
    ('N03', K, "if (s0<mind){", "if (s0>mind || mind > 1e23){"),
    ('N03', K, "mask0 =  maskchunk > (float16) 1.e-3 ? mask0 : (float16) 0.0; \n", ""),
    ('N03', C, "                               np.int64(nn), np.int64(npatsteps), np.int64(npat_point),", "                               np.int64(nn), np.int64(npatsteps-1), np.int64(npat_point),"),
    ('N03', C, "          mxval *= 0.9961\n\n        filldatain", "          mxval *= 1.9961\n\n        filldatain"),
]
KEEP = [
    ('N03', K, "dd -= nn*(sigma_ij+sigma0);", "dd = dd - nn*sigma0 - sigma_ij*nn;"),
    ('N03', K, "dd = exp(-1.0*dd*lam2); \n              dd += diff_step[count]; ", "dd = diff_step[count] + exp(-lam2*dd);"),
    ('N03', N, "lam2 = 1.0 / lam**2", "lam2 = (1.0 / lam)**2"),
    ('N03', N, "d2 -= n2*(sigma0+sigma1)\n", "both = sigma0+sigma1\n                d2 = d2 - n2*both\n"),
    ('N03', N, "          weights[i_nn] = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))\n          weights[i_nn] = np.exp(-1.0 * weights[i_nn] * lam2)\n          weights[i_nn] += diff_step[i_nn]\n", "          w = np.maximum(weights[i_nn]-dthresh, numba.float32(0.0))\n          weights[i_nn] = np.exp(-(w * lam2)) + diff_step[i_nn]\n"),
    ('N03', C, "np.float32(1.0/lam**2)", "np.float32(1.0/(lam*lam))"),
    ('N03', K, "  for (j =0;j<nnn;j++){d[j] *= 1.0/sum; }", "  for (j =0;j<nnn;j++){d[j] /= sum; }"),
    ('N03', N, "if (d1 < mxval) and (d0 < mxval):\n                    n2 += np.float32(1.0)", "if not ((d1 >= mxval) or (d0 >= mxval)):\n                    n2 += np.float32(1.0)"),
]
