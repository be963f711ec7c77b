D = 'pyebsdindex/opencl/band_detect_cl.py'
O = 'pyebsdindex/opencl/openclparam.py'
I = 'pyebsdindex/__init__.py'
S = 'pyebsdindex/_ebsd_index_single.py'
W = 'pyebsdindex/_ebsd_index_parallel.py'
N = 'pyebsdindex/nlpar.py'
X = 'pyebsdindex/ebsd_index.py'
P = 'pyebsdindex/pcopt.py'
B = 'pyebsdindex/band_detect.py'
H = """    except Exception as e: # something went wrong - try the CPU
      print(e)
      bandData = band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)
"""
USE = """    if useCPU == True:
      return band_detect.BandDetect.find_bands(self, patternsIn, verbose=verbose, chunksize=-1, **kwargs)

"""
LAB = """    queue.finish()
    cl.enqueue_copy(queue,maxval,maxval_gpu,is_blocking=False)
"""
INIT = """    import pyopencl as cl
    try:
        platform = cl.get_platforms()
        for p in platform:
            gpu = p.get_devices(device_type=cl.device_type.GPU)
            if len(gpu) > 0:
                _pyopencl_installed = True
    except:
        _pyopencl_installed = False
"""
MUT = [
    ('G02', D, H, H.replace('patternsIn, verbose', 'patterns, verbose')),
    ('G02', D, "        patterns = (patternsIn).copy()\n", "        patterns = patternsIn\n"),
    ('G02', D, "        patterns = (np.expand_dims(patternsIn, axis=0)).copy()\n", "        patterns = np.expand_dims(patternsIn, axis=0)\n"),
    ('G02', D, "except Exception as e: # something", "except cl.Error as e: # something"),
    ('G02', D, "except Exception as e: # something", "except RuntimeError as e: # something"),
    ('G02', D, H, "    except Exception as e:\n      print(e)\n      bandData = np.zeros((patternsIn.shape[0], self.nBands), dtype=self.dataType)\n"),
    ('G02', D, LAB, "    try:\n      queue.finish()\n    except Exception:\n      pass\n    cl.enqueue_copy(queue,maxval,maxval_gpu,is_blocking=False)\n"),
    ('G02', D, "    cl.enqueue_copy(queue, width, width_gpu, is_blocking=True)\n", "    try:\n      cl.enqueue_copy(queue, width, width_gpu, is_blocking=True)\n      queue.finish()\n      maxval_gpu.release()\n    except Exception:\n      return (maxval,aveval,np.zeros((nIm, self.nBands, 2)),aveloc,np.zeros((nIm, self.nBands)), width)\n"),
    ('G02', D, "    if background is not None:\n      back_gpu", "    if background is not None:\n      self.backgroundsub = None\n      back_gpu"),
    ('G02', D, "    try:\n      if clparams is None:\n", "    if clparams is None:\n      clparams = openclparam.OpenClParam()\n      clparams.get_queue(gpu_id=gpu_id)\n    try:\n      if clparams is None:\n"),
    ('G02', D, USE, "    if clparams is None:\n      try:\n        clparams = openclparam.OpenClParam()\n      except Exception:\n        useCPU = True\n" + USE),
    ('G02', D, "  def radon_fasterCL(self", "  def rdn_conv(self, radonIn):\n    conv, ave, p = self.rdn_convCL2(radonIn, returnBuff=False)\n    clp = openclparam.OpenClParam()\n    return conv\n\n  def radon_fasterCL(self"),
    ('G02', D, "      nPats = shape[0]\n", "      nPats = shape[0]\n      self.nBands = min(self.nBands, 32)\n"),
    ('G02', S, "import h5py\n", "import h5py\nfrom pyebsdindex.opencl import openclparam\n"),
    ('G02', N, "if _ray_installed and gpuisthere:\n", "if _ray_installed:\n"),
    ('G02', N, "elif gpuisthere and not _ray_installed:", "elif _pyopencl_installed is not None and not _ray_installed:"),
    ('G02', P, "import numpy as np\n", "import numpy as np\nimport ray\n"),
    ('G02', I, INIT, INIT.replace("    except:\n", "    except IndexError:\n")),
    ('G02', I, INIT, "    import pyopencl as cl\n    platform = cl.get_platforms()\n    for p in platform:\n        if len(p.get_devices(device_type=cl.device_type.GPU)) > 0:\n            _pyopencl_installed = True\n"),
    ('G02', X, "if _ray_installed:\n    __all__", "if True:\n    __all__"),
    ('G02', X, "if _ray_installed:\n    from", "if True:\n    from"),
    ('G02', N, "class DIFF_NLPAR(NLPAR):\n  def __init__(self, **kwargs):\n", "class DIFF_NLPAR(NLPAR):\n  def __init__(self, **kwargs):\n    n = len(cl.get_platforms())\n"),
    ('G02', W, "            except:\n                self.openCLParams = None\n", "            except:\n                self.useGPU = False\n"),
    ('G02', W, "            if self.openCLParams is not None:\n                self.openCLParams.queue.finish()\n", "            if True:\n                self.openCLParams.queue.finish()\n"),
    ('G02', W, "            except:\n                self.openCLParams = None\n", "            except IndexError:\n                self.openCLParams = None\n"),
    ('G02', B, "import numpy as np\n", "import numpy as np\nimport pyopencl\n"),
]
KEEP = [
    ('G02', N, "  import pyopencl as cl\n  try:\n", "  try:\n    import pyopencl as cl\n    from pyebsdindex.opencl.nlpar_clray import NLPAR as _n\n  except ImportError:\n    _n = None\n  try:\n"),
    ('G02', D, H, "    except Exception as e:\n      print(e)\n      bandData = self.find_bands(patternsIn, verbose=verbose, useCPU=True, **kwargs)\n"),
    ('G02', D, H, "    except Exception as e:\n      print(e)\n      bandData = None\n    if bandData is None:\n      bandData = super().find_bands(patternsIn, verbose=verbose, **kwargs)\n"),
    ('G02', D, H, "    except:\n      bandData = self._oncpu(patternsIn, verbose)\n".replace('except:', 'except Exception:') , ),
    ('G02', D, "        rdnConv.release()\n        rdnConv = None\n", "        try:\n          rdnConv.release()\n        except cl.Error:\n          pass\n        rdnConv = None\n"),
    ('G02', I, INIT, INIT.replace("    except:\n", "    except Exception:\n")),
    ('G02', I, "try:\n    import ray\n    _ray_installed = True\nexcept ImportError:\n    _ray_installed = False\n", "import importlib.util\n_ray_installed = importlib.util.find_spec('ray') is not None\n"),
    ('G02', I, INIT, "    import pyopencl as cl\n\n    def _hasgpu():\n        try:\n            for p in cl.get_platforms():\n                if len(p.get_devices(device_type=cl.device_type.GPU)) > 0:\n                    return True\n        except Exception:\n            pass\n        return False\n    _pyopencl_installed = _hasgpu()\n"),
    ('G02', X, "if _ray_installed:\n    from pyebsdindex._ebsd_index_parallel import index_pats_distributed\n", "try:\n    from pyebsdindex._ebsd_index_parallel import index_pats_distributed\nexcept ImportError:\n    pass\n"),
    ('G02', N, "if _ray_installed and gpuisthere:\n  from pyebsdindex.opencl.nlpar_clray import NLPAR\nelif gpuisthere and not _ray_installed:\n  from pyebsdindex.opencl.nlpar_cl import NLPAR\n", "if gpuisthere:\n  if _ray_installed:\n    from pyebsdindex.opencl.nlpar_clray import NLPAR\n  else:\n    from pyebsdindex.opencl.nlpar_cl import NLPAR\n"),
    ('G02', W, "            if self.openCLParams is not None:\n                self.openCLParams.get_queue()\n", "            if self.useGPU:\n                self.openCLParams.get_queue()\n"),
    ('G02', D, "      ndim = patternsIn.ndim\n      if ndim == 2:\n        patterns = (np.expand_dims(patternsIn, axis=0)).copy()\n      else:\n        patterns = (patternsIn).copy()\n", "      patterns = patternsIn.copy()\n      if patterns.ndim == 2:\n        patterns = patterns.reshape((1,) + patterns.shape)\n"),
]
KEEP[3] = ('G02', [(D, H, "    except Exception as e:\n      print(e)\n      bandData = self._oncpu(patternsIn, verbose, **kwargs)\n"), (D, "  def radon_fasterCL(self", "  def _oncpu(self, pats, verbose, **kw):\n    return band_detect.BandDetect.find_bands(self, pats, verbose=verbose, chunksize=-1, **kw)\n\n  def radon_fasterCL(self")])
