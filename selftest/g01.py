B = 'pyebsdindex/opencl/band_detect_cl.py'
D = 'pyebsdindex/opencl/radon_fast_cl.py'
C = 'pyebsdindex/opencl/nlpar_cl.py'
R = 'pyebsdindex/opencl/nlpar_clray.py'
K = 'pyebsdindex/opencl/clkernels.cl'
L = 'pyebsdindex/opencl/clnlpar.cl'
MUT = [
    ('G01', B, "indxstep = np.uint64(", "indxstep = np.uint32("),
    ('G01', B, "padTheta = np.uint64(padding[1])", "padTheta = padding[1].astype(np.int32)" if False else "padTheta = np.int32(padding[1])"),
    ('G01', B, "imstep, indxstep,\n                 shpRdn[0], shpRdn[1],", "imstep, indxstep,\n                 shpRdn[1], shpRdn[0],"),
    ('G01', B, "padRho, padTheta, np.uint64(self.nTheta))", "padTheta, padRho, np.uint64(self.nTheta))"),
    ('G01', B, "padRho, padTheta, np.uint64(self.nTheta))", "padRho, padTheta)"),
    ('G01', B, "np.uint32(shp[1]),np.uint32(shp[0]),\n                 np.uint32(self.padding[1]),np.uint32(self.padding[0]))", "np.uint64(shp[1]),np.uint64(shp[0]),\n                 np.uint64(self.padding[1]),np.uint64(self.padding[0]))"),
    ('G01', B, "rdnConv_gpu, mns, ave, np.uint32(shp[1]),np.uint32(shp[0]),\n                 np.uint32(self.padding[1])", "rdnConv_gpu, mns, ave, np.uint32(shp[0]),np.uint32(shp[1]),\n                 np.uint32(self.padding[1])"),
    ('G01', B, "mns = cl.Buffer(ctx,mf.READ_WRITE,size=nImCL * 4)", "mns = cl.Buffer(ctx,mf.READ_WRITE,size=int(nImChunk) * 4)"),
    ('G01', B, "maxloc = np.zeros((nIm, self.nBands),dtype=np.int64)", "maxloc = np.zeros((nIm, self.nBands),dtype=np.int32)"),
    ('G01', B, "aveloc = np.zeros((nIm,self.nBands,2),dtype=np.float32)", "aveloc = np.zeros((nIm,self.nBands),dtype=np.float32)"),
    ('G01', B, "maxloc_gpu, maxval_gpu,\n", "maxval_gpu, maxloc_gpu,\n"),
    ('G01', B, "prg.im1EQim2(queue,(np.uint32(nT),np.uint32(nR),nImCL)", "prg.im1EQim2(queue,(np.uint32(nTp),np.uint32(nR),nImCL)"),
    ('G01', B, "prg.maxmask(queue, (np.uint32(nT), np.uint32(nR))", "prg.maxmask(queue, (np.uint32(nR), np.uint32(nT))"),
    ('G01', B, "maskrnd_gpu,\n                 np.uint64(shp[1]), np.uint64(nImChunk),\n                 np.uint64(self.padding[1]), np.uint64(self.padding[0]))\n\n    queue.flush()", "maskrnd_gpu,\n                 np.uint64(shp[1]), np.uint64(nImCL),\n                 np.uint64(self.padding[1]), np.uint64(self.padding[0]))\n\n    queue.flush()"),
    ('G01', B, "maskrnd = maskrnd.astype(np.ubyte)\n    maskrnd_gpu = cl.Buffer(ctx, mf.READ_ONLY | mf.COPY_HOST_PTR, hostbuf=maskrnd)\n\n    prg.maxmask", "maskrnd = maskrnd.astype(np.float32)\n    maskrnd_gpu = cl.Buffer(ctx, mf.READ_ONLY | mf.COPY_HOST_PTR, hostbuf=maskrnd)\n\n    prg.maxmask"),
    ('G01', B, "lmaxX = cl.Buffer(ctx, mf.READ_WRITE, size=rdn_gpu.size)", "lmaxX = cl.Buffer(ctx, mf.READ_WRITE, size=rdn_gpu.size//4)"),
    ('G01', B, "        rdnConv.release()\n        rdnConv = None\n", "") if False else ('G01', B, "        bandDataChunk = self.band_labelCL(rdnConv, lMaxRdn, clparams=clparams)\n        lMaxRdn.release()", "        lMaxRdn.release()\n        bandDataChunk = self.band_labelCL(rdnConv, lMaxRdn, clparams=clparams)"),
    ('G01', B, "        rdnNorm.release()\n", "        rdnNorm.release()\n        rdnConv.release()\n"),
    ('G01', B, "prg.loaduint16(queue", "prg.loadubyte8(queue"),
    ('G01', B, "image_gpuflt = cl.Buffer(ctx, mf.READ_WRITE, size=int(int(shapeIm[1])*int(shapeIm[2])*int(nImCL) * int(4)))", "image_gpuflt = cl.Buffer(ctx, mf.READ_WRITE, size=int(int(shapeIm[1])*int(shapeIm[2])*int(nIm) * int(4)))"),
    ('G01', B, "hostbuf=background.astype(np.float32)", "hostbuf=background"),
    ('G01', K, "const unsigned long int imstep, const unsigned long int indxstep,", "const unsigned int imstep, const unsigned long int indxstep,"),
    ('G01', K, "const long int jend = ((y-kszy2) < 0) ? y+kszy2+1: kszy;", "const long int jend = ((y-kszy2) < 0) ? y+kszy2+1: kszy+1;"),
    ('G01', K, "gid_rdn2 = ((nTheta* (nRho-1-rhoPad+i)) + gid_theta)*nImChunk + z;", "gid_rdn2 = ((nTheta* (nRho-rhoPad+i)) + gid_theta)*nImChunk + z;"),
    ('G01', L, "float d[512]; // taking", "float d[256]; // taking"),
    ('G01', L, "float diff_step[512];", "float diff_step[400];"),
    ('G01', L, "  float n[256];\n \n  \n  for", "  float n[128];\n \n  \n  for") if False else ('G01', L, "float d[256];\n", "float d[200];\n"),
    ('G01', C, "if self.searchradius > 10:", "if self.searchradius > 12:") if False else ('G01', C, "      searchradius = 10\n      self.searchradius = searchradius\n", "      searchradius = 10\n"),
    ('G01', C, "    if searchradius is not None:\n      self.searchradius = searchradius\n", "") if False else ('G01', R, "      searchradius = 10\n      self.searchradius = searchradius\n", "      searchradius = 12\n      self.searchradius = searchradius\n"),
    ('G01', C, "kfile ='clnlpar.cl'", "kfile ='clkernels.cl'"),
    ('G01', C, "np.int64(sr),\n                                 np.int64(npatsteps),", "np.int32(sr),\n                                 np.int64(npatsteps),"),
    ('G01', R, "np.float32(1.0 / lam ** 2)", "np.float64(1.0 / lam ** 2)"),
    ('G01', D, "image_align = np.ones((shapeIm[1], shapeIm[2], nImCL), dtype = np.float32)", "image_align = np.ones((shapeIm[1], shapeIm[2], nImCL), dtype = np.float64)"),
    ('G01', D, "prg.backSub(queue,(imstep, 1, 1)", "prg.backSub(queue,(imstep*16, 1, 1)"),
    ('G01', B, "prg.radonPadRho2(queue, (shp[2], shp[1], 1), None, rdn_gpu,\n                 np.uint64(shp[0]),np.uint64(shp[1]),", "prg.radonPadRho2(queue, (shp[2], shp[1], 1), None, rdn_gpu,\n                 np.uint64(shp[1]),np.uint64(shp[0]),"),
]
KEEP = [
    ('G01', B, "    padRho = np.uint64(padding[0])\n    padTheta = np.uint64(padding[1])\n", "    padTheta = np.uint64(padding[1])\n    padRho = np.uint64(padding[0])\n"),
    ('G01', B, "indxstep = np.uint64(self.radonPlan.indexPlan.shape[-1])", "indxstep = np.uint64(self.radonPlan.indexPlan.shape[2])"),
    ('G01', B, "np.int64(self.padding[1]),rhoMaskTrim,np.int64(self.nBands) )", "np.int64(self.padding[1]),np.int64(self.padding[0]),np.int64(self.nBands) )"),
    ('G01', B, "mns = cl.Buffer(ctx,mf.READ_WRITE,size=nImCL * 4)", "mns = cl.Buffer(ctx,mf.READ_WRITE,size=nImCL * 8)"),
    ('G01', B, "tempConvbuff = cl.Buffer(ctx,mf.HOST_NO_ACCESS,size=(shp[0]*shp[1]*shp[2]*4))", "nb = shp[0]*shp[1]*shp[2]*4\n      tempConvbuff = cl.Buffer(ctx,mf.HOST_NO_ACCESS,size=nb)"),
    ('G01', K, "const unsigned long int imstep, const unsigned long int indxstep,", "const ulong imstep, const ulong indxstep,"),
    ('G01', L, "float d[512]; // taking", "float d[441]; // taking"),
    ('G01', L, "float d[256];\n", "float d[225];\n"),
    ('G01', C, "if self.searchradius > 10:", "if self.searchradius >= 11:"),
    ('G01', K, "__kernel void im1EQim2( __global const float *im1, __global const float *im2, __global uchar *out,\n                        const unsigned long imszx", "__kernel void im1EQim2( __global const float *im1, __global const float *im2, __global uchar *res,\n                        const unsigned long imszx") if False else ('G01', B, "    lmaxX = cl.Buffer(ctx, mf.READ_WRITE, size=rdn_gpu.size)\n    lmaxXY = cl.Buffer(ctx, mf.READ_WRITE, size=rdn_gpu.size)\n", "    nbytes = rdn_gpu.size\n    lmaxX, lmaxXY = [cl.Buffer(ctx, mf.READ_WRITE, size=nbytes) for _ in range(2)]\n"),
    ('G01', B, "    queue.finish()\n    cl.enqueue_copy(queue,maxval,maxval_gpu,is_blocking=False)\n    cl.enqueue_copy(queue,maxloc,maxloc_gpu,is_blocking=False)\n", "    queue.finish()\n    for dst, src in ((maxval, maxval_gpu), (maxloc, maxloc_gpu)):\n      cl.enqueue_copy(queue,dst,src,is_blocking=False)\n"),
]
