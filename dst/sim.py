"""Child-side environment: imports the code under test next to the simulated
allocator, storage and stub plotting library, and reads object contents through
the public interface."""
import _thread
import contextlib
import ctypes
import gc
import io
import os
import random
import sys
import types
import warnings

import numpy as np

from . import kernel

L = None           # the shim (ctypes)
npsim = None
sp = None          # the package under test
core = None        # its module object holding the backend switch
REPO = None
SCRATCH = None

ID_CSPHI, ID_FFT, ID_NP = 0, 1, 2
SC_NAMES = ['open', 'read', 'write', 'close', 'fstat', 'lseek', 'fsync', 'ftruncate', 'rename', 'unlink']
A_ERRNO, A_SHORT, A_KILL, A_KILL_PARTIAL = 0, 1, 2, 3


class HarnessError(Exception):
    pass


class _Any(object):
    """A plotting object that accepts everything."""

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __iter__(self):
        return iter((_Any(), _Any()))


def stub_plotting():
    for name in ('matplotlib', 'matplotlib.pyplot', 'mpl_toolkits', 'mpl_toolkits.mplot3d'):
        m = types.ModuleType(name)
        m.__path__ = []
        sys.modules[name] = m
    plt = sys.modules['matplotlib.pyplot']
    a = _Any()
    plt.__getattr__ = lambda name: getattr(a, name)
    sys.modules['mpl_toolkits.mplot3d'].Axes3D = _Any
    sys.modules['matplotlib'].pyplot = plt


def prepare(repo, scratch, case):
    """In a fresh child: the shim, the stub plotting library, the package."""
    global L, npsim, REPO, SCRATCH
    REPO, SCRATCH = repo, scratch
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    ext = os.path.join(scratch, 'ext' if case.get('ext', 'plain') == 'plain' else 'ext_hard')
    sys.path[:0] = [ext, os.path.join(scratch, 'lib'), repo]
    L = ctypes.PyDLL(os.path.join(scratch, 'shim.so'))
    L.sim_check.restype = ctypes.c_char_p
    for f in ('sim_live', 'sim_livebytes', 'sim_total', 'sim_req', 'sim_fired', 'sim_fired_me', 'sim_io_count',
              'sim_io_calls', 'sim_io_fired', 'sim_io_stat'):
        getattr(L, f).restype = ctypes.c_long
    L.sim_range.argtypes = [ctypes.c_ulong, ctypes.c_ulong, ctypes.c_int]
    L.sim_fail.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int]
    L.sim_io_hard.restype = ctypes.c_long
    L.sim_io_fault.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    L.sim_io_budget.argtypes = [ctypes.c_long]
    L.sim_io_killbytes.argtypes = [ctypes.c_long]
    L.sim_io_chunk.argtypes = [ctypes.c_ulong, ctypes.c_long]
    import npsim as _n
    npsim = _n
    kernel.TRACED_PREFIX = os.path.join(repo, 'spherepy') + os.sep
    if not case.get('bare'):
        if case.get('plotting', 'stub') == 'stub':
            stub_plotting()
        load_package(ext)


def load_package(ext=None):
    global sp, core
    kernel.patch_locks()
    import spherepy
    sp = spherepy
    core = sys.modules['spherepy.spherepy']
    if ext is not None:
        import _csphi
        if not os.path.realpath(_csphi.__file__).startswith(os.path.realpath(ext)):
            raise HarnessError('wrong extension: %s' % _csphi.__file__)
        register_ranges()
    if not os.path.realpath(spherepy.__file__).startswith(os.path.realpath(REPO)):
        raise HarnessError('wrong package: %s' % spherepy.__file__)


def register_ranges():
    with open('/proc/self/maps') as f:
        for line in f:
            p = line.split()
            if len(p) < 6 or 'x' not in p[1]:
                continue
            lo, hi = (int(v, 16) for v in p[0].split('-'))
            base = os.path.basename(p[5])
            if base.startswith('_csphi'):
                L.sim_range(lo, hi, ID_CSPHI)
            elif base.startswith('_pocketfft_internal'):
                L.sim_range(lo, hi, ID_FFT)


def alloc_on(mode=0, poison=0xA5):
    L.sim_alloc_mode(1, mode, poison)


def backend(v=None):
    if v is not None:
        core.use_cext = bool(v)
    return core.use_cext


# ------------------------------------------------------------------ contents
class SC(object):
    """Contents of a ScalarCoefs: one array per m."""
    kind = 'sc'

    def __init__(self, nmax, mmax, cols):
        self.nmax, self.mmax, self.cols = nmax, mmax, cols

    def vals(self):
        return {(abs(m) + i, m): c[i] for m, c in self.cols.items() for i in range(len(c))}

    def same(self, o):
        return o is not None and o.kind == 'sc' and (self.nmax, self.mmax) == (o.nmax, o.mmax) and \
            all(same_bits(c, o.cols[m]) for m, c in self.cols.items())

    def flat(self):
        return np.concatenate([self.cols[m] for m in ms(self.mmax)])

    def copy(self):
        return SC(self.nmax, self.mmax, {m: c.copy() for m, c in self.cols.items()})

    def brief(self):
        return 'coefs(%d,%d)' % (self.nmax, self.mmax)


class VC(object):
    kind = 'vc'

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.nmax, self.mmax = a.nmax, a.mmax

    def same(self, o):
        return o is not None and o.kind == 'vc' and self.a.same(o.a) and self.b.same(o.b)

    def copy(self):
        return VC(self.a.copy(), self.b.copy())

    def brief(self):
        return 'vcoefs(%d,%d)' % (self.nmax, self.mmax)


class SP(object):
    kind = 'sp'

    def __init__(self, D):
        self.D = D

    nrows = property(lambda s: s.D.shape[0] // 2 + 1)
    ncols = property(lambda s: s.D.shape[1])

    def single(self):
        return self.D[:self.nrows]

    def same(self, o):
        return o is not None and o.kind == 'sp' and same_bits(self.D, o.D)

    def copy(self):
        return SP(self.D.copy('K'))

    def brief(self):
        return 'patt(%d,%d)' % (self.nrows, self.ncols)


class VP(object):
    kind = 'vp'

    def __init__(self, T, P):
        self.T, self.P = T, P

    nrows = property(lambda s: s.T.shape[0] // 2 + 1)
    ncols = property(lambda s: s.T.shape[1])

    def same(self, o):
        return o is not None and o.kind == 'vp' and same_bits(self.T, o.T) and same_bits(self.P, o.P)

    def copy(self):
        return VP(self.T.copy('K'), self.P.copy('K'))

    def brief(self):
        return 'vpatt(%d,%d)' % (self.nrows, self.ncols)


def same_bits(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def ms(mmax):
    return list(range(-mmax, mmax + 1))


def kind_of(o):
    if isinstance(o, sp.ScalarCoefs):
        return 'sc'
    if isinstance(o, sp.VectorCoefs):
        return 'vc'
    if isinstance(o, sp.ScalarPatternUniform):
        return 'sp'
    if isinstance(o, sp.TransversePatternUniform):
        return 'vp'
    return None


READS = [0]         # the order of reading varies, lest it hides what was read last


def content(o):
    """Reads an object through its public interface."""
    k = kind_of(o)
    if k == 'sc':
        nmax, mmax = o.nmax, o.mmax
        order = ms(mmax)
        READS[0] += 1
        if READS[0] % 3 == 0:
            order.reverse()
        got = {m: np.array(o[:, m]) for m in order}
        return SC(nmax, mmax, {m: got[m] for m in ms(mmax)})
    if k == 'vc':
        return VC(content(o.scoef1), content(o.scoef2))
    if k == 'sp':
        return SP(np.copy(o.doublesphere, order='K'))
    if k == 'vp':
        t, p = o.doublesphere
        return VP(np.copy(t, order='K'), np.copy(p, order='K'))
    return None


def storage_order(mmax):
    out = [0]
    for m in range(1, mmax + 1):
        out += [-m, m]
    return out


def rebuild(c):
    """A fresh object with the given contents."""
    if c.kind == 'sc':
        o = sp.ScalarCoefs(np.zeros(sum(len(v) for v in c.cols.values()),
                                    dtype=c.cols[0].dtype), c.nmax, c.mmax)
        for m in ms(c.mmax):
            o[:, m] = c.cols[m]
        return o
    if c.kind == 'vc':
        a, b = rebuild(c.a), rebuild(c.b)
        o = sp.VectorCoefs(np.zeros(a.size, dtype=np.complex128),
                           np.zeros(a.size, dtype=np.complex128), c.nmax, c.mmax)
        o.scoef1, o.scoef2 = a, b
        return o
    if c.kind == 'sp':
        return sp.ScalarPatternUniform(np.copy(c.D, order='K'), doublesphere=True)
    if c.kind == 'vp':
        return sp.TransversePatternUniform(np.copy(c.T, order='K'), np.copy(c.P, order='K'),
                                           doublesphere=True)
    raise HarnessError('rebuild')


# -------------------------------------------------------------------- data
def data(seed, n, kind='normal'):
    """n complex numbers from a private generator."""
    r = random.Random(seed * 7919 + 13)
    g = r.gauss
    if kind == 'normal':
        v = [complex(g(0, 1), g(0, 1)) for _ in range(n)]
    elif kind == 'real':
        v = [complex(g(0, 1), 0.0) for _ in range(n)]
    elif kind == 'int':
        v = [complex(r.randint(-3, 3), r.randint(-3, 3)) for _ in range(n)]
    elif kind == 'single':
        v = [0j] * n
        if n:
            v[r.randrange(n)] = complex(r.choice([1.0, -2.0, 0.5]), r.choice([0.0, 1.0]))
    elif kind == 'few':        # mostly near the end: orders near mmax
        v = [0j] * n
        for _ in range(r.randint(1, 4)):
            i = n - 1 - min(n - 1, int(4 ** r.uniform(0, 7))) if r.random() < 0.75 else r.randrange(n)
            v[max(i, 0)] = complex(g(0, 1), g(0, 1))
    elif kind == 'sparse':
        v = [complex(g(0, 1), g(0, 1)) if r.random() < 0.3 else 0j for _ in range(n)]
    elif kind == 'tiny':
        v = [complex(g(0, 1) * 1e-170, g(0, 1) * 1e-170) for _ in range(n)]
    elif kind == 'sub':        # at and below the smallest normal numbers
        def low():
            x = r.random()
            return 0.0 if x < 0.15 else r.randint(-9, 9) * 5e-324 if x < 0.4 else g(0, 1) * 10.0 ** r.randint(-314, -292)
        v = [complex(low(), low()) for _ in range(n)]
    elif kind == 'big':
        v = [complex(g(0, 1) * 1e120, g(0, 1) * 1e120) for _ in range(n)]
    elif kind == 'mixed':
        v = [complex(g(0, 1) * 10.0 ** r.randint(-12, 6), g(0, 1) * 10.0 ** r.randint(-12, 6)) for _ in range(n)]
    elif kind == 'wild':
        v = [complex(g(0, 1), g(0, 1)) * 10.0 ** r.choice([0, 0, -17, -30, 5]) for _ in range(n)]
    elif kind == 'zero':
        v = [0j] * n
    elif kind == 'pos':
        v = [complex(abs(g(0, 1)) + 0.5, abs(g(0, 1)) + 0.5) for _ in range(n)]
    elif kind == 'special':
        pool = [0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
                -1.7976931348623157e308, float('inf'), float('-inf'), 1.0, -1.0, 1e22, 1e23, 0.1,
                1 / 3.0, 123456789.12345678, 9007199254740993.0, 1e-310, 1e16, 4.35, 1e-5, 1.5e300]

        def one():
            x = r.random()
            if x < 0.5:
                return r.choice(pool)
            if x < 0.8:
                return g(0, 1) * 10.0 ** r.randint(-300, 300)
            import struct
            while True:
                f = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
                if f == f:
                    return f
        v = [complex(one(), one()) for _ in range(n)]
    elif kind == 'finite':
        v = data(seed, n, 'special').tolist()
        v = [complex(z.real if abs(z.real) < 1e300 else 1.25, z.imag if abs(z.imag) < 1e300 else -0.0) for z in v]
    else:
        raise HarnessError('data kind %r' % kind)
    out = np.empty(n, dtype=np.complex128)
    for i, z in enumerate(v):
        out[i] = z
    return out


def ncoef(nmax, mmax):
    return nmax + 1 + mmax * (2 * nmax - mmax + 1)


def nm(spec):
    if 'i' in spec:
        return num({spec['i']: spec['n']}), num({spec['i']: spec['m']})
    return spec['n'], spec['m']


def make(spec):
    """Builds an object from a JSON description."""
    t = spec['t']
    k = spec.get('k', 'normal')
    s = spec['d']
    if t == 'sc':
        return sp.ScalarCoefs(data(s, ncoef(spec['n'], spec['m']), k), *nm(spec))
    if t == 'vc':
        n = ncoef(spec['n'], spec['m'])
        return sp.VectorCoefs(data(s, n, k), data(s + 1000003, n, k), *nm(spec))
    if t == 'sp':     # arbitrary single-sphere data
        return sp.ScalarPatternUniform(data(s, spec['r'] * spec['c'], k).reshape(spec['r'], spec['c']))
    if t == 'vp':
        n = spec['r'] * spec['c']
        return sp.TransversePatternUniform(data(s, n, k).reshape(spec['r'], spec['c']),
                                           data(s + 1000003, n, k).reshape(spec['r'], spec['c']))
    if t == 'bsp':    # band-limited pattern, synthesised by the reference model
        from . import refmodel as R
        c = data(s, ncoef(spec['n'], spec['m']), k)
        vals = dict(zip(R.modes(spec['n'], spec['m']), c))
        return sp.ScalarPatternUniform(R.synth(vals, spec['n'], spec['m'], spec['r'], spec['c']))
    if t == 'bvp':
        from . import refmodel as R
        n = ncoef(spec['n'], spec['m'])
        mo = R.modes(spec['n'], spec['m'])
        v1, v2 = dict(zip(mo, data(s, n, k))), dict(zip(mo, data(s + 1000003, n, k)))
        a, b = R.vsynth(v1, v2, spec['n'], spec['m'], spec['r'], spec['c'])
        return sp.TransversePatternUniform(a, b)
    raise HarnessError('make %r' % (spec,))


def shape_of(spec):
    """(kind, dims) of the object a spec makes."""
    t = spec['t']
    if t in ('sc', 'vc'):
        return (t, spec['n'], spec['m'])
    return (t[-2:], spec['r'], spec['c'])


class ThreadOut(object):
    """Standard output of the simulated callers: one text per caller."""

    def __init__(self):
        self.text = {}

    def write(self, s):
        i = _thread.get_ident()
        if i in self.text:
            self.text[i].write(s)
        return len(s)

    def flush(self):
        pass


@contextlib.contextmanager
def quiet():
    if not isinstance(sys.stdout, ThreadOut):
        sys.stdout = ThreadOut()
    out, i = sys.stdout, _thread.get_ident()
    out.text[i] = io.StringIO()
    try:
        yield out.text[i]
    finally:
        del out.text[i]


def notnum(k):
    return {'word': 'x', 'list': [5.0, 6.0], 'dict': {}, 'type': complex, 'pair': (1.0, 2.0)}[k]


def num(x):
    """Decodes a number from JSON."""
    if isinstance(x, dict):
        if 'c' in x:
            return complex(x['c'][0], x['c'][1])
        if 'f64' in x:
            return np.float64(x['f64'])
        if 'c128' in x:
            return np.complex128(complex(*x['c128']))
        for k, t in (('i64', np.int64), ('i32', np.int32), ('f32', np.float32), ('u8', np.uint8), ('i8', np.int8)):
            if k in x:
                return t(x[k])
        if 'c64' in x:
            return np.complex64(complex(*x['c64']))
        if 'nn' in x:
            return notnum(x['nn'])
        if 'F' in x:
            return float(x['F'])
        if 'x' in x:
            return {'None': None, 'list': [1.0, 2.0], 'dict': {}, 'text': '2', 'set': {2}, 'type': complex}[x['x']]
    return x
