X = 'pyebsdindex/_ebsd_index_parallel.py'
N = 'pyebsdindex/opencl/nlpar_clray.py'
REST = '    if cudagpuvis0 is not None:\n        os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis0\n    else:\n        os.environ.pop("CUDA_VISIBLE_DEVICES", None)\n'
MUT = [
    ('E01', X, REST, '    if cudagpuvis0 is not None:\n        os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis0\n'),
    ('E01', X, REST, '    os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis0 or "0"\n'),
    ('E01', X, REST, '    os.environ.pop("CUDA_VISIBLE_DEVICES", None)\n'),
    ('E01', X, REST, '    if cudagpuvis0:\n        os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis0\n    else:\n        os.environ.pop("CUDA_VISIBLE_DEVICES", None)\n'),
    ('E01', X, REST, '    if cudagpuvis0 is not None:\n        os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis\n    else:\n        os.environ.pop("CUDA_VISIBLE_DEVICES", None)\n'),
    ('E01', X, '    cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES")\n    os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis\n', '    os.environ["CUDA_VISIBLE_DEVICES"] = cudagpuvis\n    cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES")\n'),
    ('E01', X, "    if verbose > 0:\n        print('\\n...')\n    ray.shutdown()\n", "    if verbose > 0:\n        print('\\n...')\n        ray.shutdown()\n"),
    ('E01', X, '    if return_indexer_obj:\n        return dataout, banddataout, indexer\n    else:\n', '    else_ = 0\n    if return_indexer_obj:\n        ray.init()\n        return dataout, banddataout, indexer\n    else:\n'),
    ('E01', X, 'cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES")', 'cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES", "0")'),
    ('E01', X, '    rayclust = ray.init(', '    os.environ["OMP_NUM_THREADS"] = "1"\n    rayclust = ray.init('),
    ('E01', N, "    nlpar_remote = ray.put(self)\n\n    nnn", "    os.environ['PYOPENCL_CTX'] = '0'\n    nlpar_remote = ray.put(self)\n\n    nnn"),
]
KEEP = [
    ('E01', X, REST, '    if cudagpuvis0 is None:\n        del os.environ["CUDA_VISIBLE_DEVICES"]\n    else:\n        os.environ.update({"CUDA_VISIBLE_DEVICES": cudagpuvis0})\n'),
    ('E01', [(X, REST, '    _restorecuda(cudagpuvis0)\n'), (X, '\ndef __optimizegpuchunk__', '\ndef _restorecuda(old):\n    if old is not None:\n        os.environ["CUDA_VISIBLE_DEVICES"] = old\n        return\n    if "CUDA_VISIBLE_DEVICES" in os.environ:\n        os.environ.pop("CUDA_VISIBLE_DEVICES")\n\n\ndef __optimizegpuchunk__')]),
    ('E01', X, 'cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES")', 'cudagpuvis0 = os.environ["CUDA_VISIBLE_DEVICES"] if "CUDA_VISIBLE_DEVICES" in os.environ else None'),
    ('E01', X, 'cudagpuvis0 = os.getenv("CUDA_VISIBLE_DEVICES")', 'cudagpuvis0 = os.environ.get("CUDA_VISIBLE_DEVICES", None)'),
    ('E01', X, "    ray.shutdown()\n\n    if cudagpuvis0", "    if ray.is_initialized():\n        ray.shutdown()\n\n    if cudagpuvis0"),
    ('E01', N, "    ray.shutdown()\n    if verbose >= 2:\n      print('\\n', end='')\n    return sigma", "    if verbose >= 2:\n      print('\\n', end='')\n    ray.shutdown()\n    return sigma"),
]
