"""A stand-in for pyopencl without a device: kernels are compiled by clang for this machine and run one work item after another.
install() puts it (and a stand-in for ray that runs tasks at once) in sys.modules.  Memory past the end of a buffer is a guard area:
guards() tells whether it was written."""
import sys, os, re, types, ctypes, subprocess, tempfile, numpy as np

C_SHIM = '''
#include <math.h>
#include <stdlib.h>
long gid_[3], gsz_[3];
long _Z13get_global_idj(unsigned d){ return gid_[d]; }
long _Z15get_global_sizej(unsigned d){ return gsz_[d]; }
float _Z13convert_floath(unsigned char x){ return x; }
float _Z13convert_floatt(unsigned short x){ return x; }
long _Z3absl(long x){ return x < 0 ? -x : x; }
float _Z4sqrtf(float x){ return sqrtf(x); }
double _Z4sqrtd(double x){ return sqrt(x); }
float _Z3expf(float x){ return expf(x); }
double _Z3expd(double x){ return exp(x); }
float _Z4fabsf(float x){ return fabsf(x); }
'''
CL_SHIM = '''
float16 __attribute__((overloadable)) max(float16 a, float16 b){ float16 r; for (int i=0;i<16;++i) ((float*)&r)[i] = ((float*)&a)[i] > ((float*)&b)[i] ? ((float*)&a)[i] : ((float*)&b)[i]; return r; }
float16 __attribute__((overloadable)) select(float16 a, float16 b, int16 c){ float16 r; for (int i=0;i<16;++i) ((float*)&r)[i] = ((int*)&c)[i] < 0 ? ((float*)&b)[i] : ((float*)&a)[i]; return r; }
'''
PRE = '''typedef unsigned char uchar; typedef unsigned short ushort; typedef unsigned int uint; typedef unsigned long ulong;
typedef float float2 __attribute__((ext_vector_type(2))); typedef float float4 __attribute__((ext_vector_type(4)));
typedef float float8 __attribute__((ext_vector_type(8))); typedef float float16 __attribute__((ext_vector_type(16)));
typedef int int16 __attribute__((ext_vector_type(16)));
'''
GUARD = 4096


class Lib:
    def __init__(self, src):
        d = self.d = tempfile.mkdtemp()
        open(d + '/k.cl', 'w').write(src)
        open(d + '/s.cl', 'w').write(PRE + CL_SHIM)
        open(d + '/h.c', 'w').write(C_SHIM)
        base = ['clang', '-x', 'cl', '-cl-std=CL1.2', '-target', 'x86_64-linux-gnu', '-O1', '-fPIC', '-w', '-S', '-emit-llvm']
        subprocess.run(base + ['-Xclang', '-finclude-default-header', '-o', d + '/k.ll', d + '/k.cl'], check=True, capture_output=True)
        subprocess.run(base + ['-o', d + '/s.ll', d + '/s.cl'], check=True, capture_output=True)
        for n in ('k', 's'):
            t = open(d + '/%s.ll' % n).read().replace('spir_kernel ', '').replace('spir_func ', '')
            t = re.sub(r'align (64|32|16|8)\b', 'align 4', t)
            open(d + '/%s.ll' % n, 'w').write(t)
        self.meta = {}
        t = open(d + '/k.ll').read()
        for m in re.finditer(r'define [^@\n]*@(\w+)\([^\n]*!kernel_arg_type !(\d+)', t):
            types_ = re.search(r'^!%s = !\{(.*)\}' % m.group(2), t, re.M).group(1)
            self.meta[m.group(1)] = re.findall(r'!"([^"]*)"', types_)
        subprocess.run(['clang', '-w', '-O1', '-fPIC', '-shared', '-o', d + '/k.so', d + '/k.ll', d + '/s.ll', d + '/h.c', '-lm'], check=True, capture_output=True)
        self.so = ctypes.CDLL(d + '/k.so')
        self.gid = (ctypes.c_long * 3).in_dll(self.so, 'gid_')
        self.gsz = (ctypes.c_long * 3).in_dll(self.so, 'gsz_')


LIBS = {}
CT = {'long': ctypes.c_long, 'ulong': ctypes.c_ulong, 'int': ctypes.c_int, 'uint': ctypes.c_uint, 'float': ctypes.c_float}
WIDTH = {'long': 8, 'ulong': 8, 'int': 4, 'uint': 4, 'float': 4}
ALL = []
DEVICE = types.SimpleNamespace(host_unified_memory=False, max_mem_alloc_size=10 ** 9, global_mem_size=4 * 10 ** 9, name='fake', fail=None)


class Kernel:
    def __init__(self, lib, name):
        self.lib, self.name, self.types = lib, name, lib.meta[name]

    def __call__(self, queue, gsize, lsize, *args, wait_for=None, global_offset=None, g_times_l=False):
        check('launch ' + self.name)
        if len(args) != len(self.types):
            raise TypeError('%s takes %d arguments, %d given' % (self.name, len(self.types), len(args)))
        f = getattr(self.lib.so, self.name)
        ca = []
        for t, a in zip(self.types, args):
            if t.endswith('*'):
                if not isinstance(a, Buffer):
                    raise TypeError('%s: a buffer is expected, got %r' % (self.name, a))
                ca.append(ctypes.c_void_p(a.mem.ctypes.data + GUARD))
            else:
                if not isinstance(a, np.generic) or a.dtype.itemsize != WIDTH[t]:
                    raise TypeError('%s: %s expected, got %r' % (self.name, t, a))
                ca.append(CT[t](a.item()))
        g = [int(x) for x in gsize]
        sz = g + [1] * (3 - len(g))
        for i in range(3):
            self.lib.gsz[i] = sz[i]
        for z in range(sz[2]):
            for y in range(sz[1]):
                for x in range(sz[0]):
                    self.lib.gid[0], self.lib.gid[1], self.lib.gid[2] = x, y, z
                    f(*ca)
        return Event()


class Event:
    command_execution_status = 0

    def wait(self):
        pass


COUNT = [0]


def check(what):
    COUNT[0] += 1
    if DEVICE.fail is not None and COUNT[0] > DEVICE.fail:
        raise RuntimeError('the device failed at ' + what)


class Buffer:
    def __init__(self, ctx, flags, size=0, hostbuf=None):
        check('buffer')
        if hostbuf is not None:
            h = np.ascontiguousarray(hostbuf).view(np.uint8).reshape(-1)
            size = h.size
        self.size = int(size)
        self.mem = np.full(self.size + 2 * GUARD, 0xA5, np.uint8)
        if hostbuf is not None:
            self.mem[GUARD:GUARD + size] = h
        ALL.append(self)

    @property
    def data(self):
        return self.mem[GUARD:GUARD + self.size]

    def release(self):
        pass


def guards():
    """number of buffers written outside"""
    return sum(1 for b in ALL if (b.mem[:GUARD] != 0xA5).any() or (b.mem[GUARD + b.size:] != 0xA5).any())


def enqueue_copy(queue, dest, src, is_blocking=True, **k):
    check('copy')
    if isinstance(src, Buffer) and isinstance(dest, np.ndarray):
        if dest.nbytes > src.size or not dest.flags.c_contiguous:
            raise ValueError('copy of %d from %d bytes' % (dest.nbytes, src.size))
        dest.reshape(-1).view(np.uint8)[:] = src.data[:dest.nbytes]
    elif isinstance(dest, Buffer) and isinstance(src, np.ndarray):
        s = np.ascontiguousarray(src).reshape(-1).view(np.uint8)
        dest.data[:s.size] = s
    else:
        raise TypeError('copy')
    return Event()


def enqueue_fill_buffer(queue, mem, pattern, offset, size, wait_for=None):
    check('fill')
    p = np.atleast_1d(pattern).view(np.uint8)
    offset, size = int(offset), int(size)
    if offset + size > mem.size:
        raise ValueError('fill past the end')
    mem.data[offset:offset + size] = np.tile(p, size // p.size)
    return Event()


class Program:
    def __init__(self, ctx, src):
        self.src = src

    def build(self, options=None, **k):
        check('build')
        if self.src not in LIBS:
            LIBS[self.src] = Lib(self.src)
        self.lib = LIBS[self.src]
        return self

    def __getattr__(self, n):
        lib = self.__dict__.get('lib')
        if lib is None or n not in lib.meta:
            raise AttributeError(n)
        return Kernel(lib, n)


class Queue:
    def __init__(self, ctx=None, *a, **k):
        check('queue')
        self.device = DEVICE

    def finish(self):
        check('finish')

    def flush(self):
        check('flush')


def install(ray=True):
    cl = types.ModuleType('pyopencl')
    cl.__path__ = []
    plat = types.SimpleNamespace(get_devices=lambda device_type=None: [DEVICE])
    cl.get_platforms = lambda: [plat]
    cl.device_type = types.SimpleNamespace(GPU=4, ALL=7, CPU=2)
    cl.device_info = types.SimpleNamespace(MAX_WORK_GROUP_SIZE=1)
    DEVICE.get_info = lambda k: 256
    cl.mem_flags = types.SimpleNamespace(READ_ONLY=1, WRITE_ONLY=2, READ_WRITE=4, COPY_HOST_PTR=8, HOST_WRITE_ONLY=16, HOST_READ_ONLY=32, USE_HOST_PTR=64, ALLOC_HOST_PTR=128)
    cl.Context = lambda *a, **k: (check('context'), types.SimpleNamespace(devices=[DEVICE]))[1]
    cl.CommandQueue, cl.Program, cl.Buffer = Queue, Program, Buffer
    cl.enqueue_copy, cl.enqueue_fill_buffer, cl.enqueue_barrier = enqueue_copy, enqueue_fill_buffer, lambda *a, **k: Event()
    cl.LocalMemory = lambda n: Buffer(None, 0, size=n)
    cl.Error = RuntimeError
    sys.modules['pyopencl'] = cl
    arr = types.ModuleType('pyopencl.array')
    sys.modules['pyopencl.array'] = arr
    cl.array = arr
    if ray:
        sys.modules['ray'] = fakeray()
    return cl


def fakeray(fail=()):
    """tasks run when they are submitted; submissions whose number is in ray.fail raise inside the task's method call and answer 'Error'"""
    r = types.ModuleType('ray')
    r.count, r.fail = [0], set(fail)

    class Method:
        def __init__(self, o, n):
            self.o, self.n = o, n

        def remote(self, *a, **k):
            i = r.count[0]
            r.count[0] += 1
            if i in r.fail:
                return [('Error', a[0], 'planned failure')]
            return [getattr(self.o, self.n)(*a, **k)]

    class Handle:
        def __init__(self, o):
            self.__dict__['o'] = o

        def __getattr__(self, n):
            return Method(self.o, n)

    def remote(c):
        class Actor:
            wrapped = c

            @staticmethod
            def remote(*a, **k):
                return Handle(c(*a, **k))

            @staticmethod
            def options(**k):
                return Actor
        return Actor

    class Ref(list):
        pass
    r.remote = remote
    r.put = lambda x: x
    r.get = lambda x: x[0] if isinstance(x, list) else x
    r.wait = lambda tasks, num_returns=1, timeout=None: (list(tasks[-1:]), list(tasks[:-1]))
    r.init = lambda *a, **k: None
    r.shutdown = lambda: None
    r.is_initialized = lambda: False
    return r
