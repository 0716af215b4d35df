"""Plotting engine: the plotting library is a stub whose import passes a number of
points, any of which can be made to fail; then a seeded battery of calls.

Case: a world case with "bare": true, "lib": "absent" | "present" | "failing",
"fail": [[point, exception], ...].  Extra ops: {"f": "draw", "name", "a"},
{"f": "file", "a": [object]}, {"f": "verify"}.
"""
import builtins
import importlib.abc
import importlib.machinery
import os
import shutil
import sys
import tempfile
import types

import numpy as np

from . import base, kernel, ops, refmodel as R, sim, world

# module -> what importing it does: other modules it imports, in order
CHAIN = {
    'matplotlib': ['matplotlib._version', 'matplotlib.rcsetup'],
    'matplotlib._version': [],
    'matplotlib.rcsetup': ['matplotlib.colors'],
    'matplotlib.colors': [],
    'matplotlib.backends': ['matplotlib.backends.backend_agg'],
    'matplotlib.backends.backend_agg': [],
    'matplotlib.cm': [],
    'matplotlib.figure': [],
    'matplotlib.pyplot': ['matplotlib.figure', 'matplotlib.backends', 'matplotlib.cm'],
    'mpl_toolkits': [],
    'mpl_toolkits.mplot3d': ['matplotlib', 'mpl_toolkits.mplot3d.axes3d'],
    'mpl_toolkits.mplot3d.axes3d': ['matplotlib.cm'],
}
POINTS = ['find:' + m for m in CHAIN] + ['start:' + m for m in CHAIN] + ['end:' + m for m in CHAIN] + \
    ['attr:Axes3D', 'attr:pyplot']


class StubError(Exception):
    pass


class StubExit(BaseException):
    pass


class OddError(Exception):
    def __str__(self):
        raise ValueError('no text')


EXC = {
    'ImportError': lambda: ImportError('cannot import a thing'), 'ModuleNotFoundError': lambda: ModuleNotFoundError('No module named x'),
    'AttributeError': lambda: AttributeError('_ARRAY_API not found'), 'RuntimeError': lambda: RuntimeError('backend'),
    'OSError': lambda: OSError(24, 'Too many open files'), 'FileNotFoundError': lambda: FileNotFoundError(2, 'matplotlibrc'),
    'PermissionError': lambda: PermissionError(13, 'cache'), 'ValueError': lambda: ValueError('rc'), 'KeyError': lambda: KeyError('backend'),
    'TypeError': lambda: TypeError('x'), 'SyntaxError': lambda: SyntaxError('python 2'), 'MemoryError': lambda: MemoryError(),
    'UnicodeDecodeError': lambda: UnicodeDecodeError('utf8', b'\xff', 0, 1, 'bad'), 'RecursionError': lambda: RecursionError('deep'),
    'NameError': lambda: NameError('unicode'), 'IndexError': lambda: IndexError('3'), 'AssertionError': lambda: AssertionError(),
    'ZeroDivisionError': lambda: ZeroDivisionError(), 'NotImplementedError': lambda: NotImplementedError(),
    'UserWarning': lambda: UserWarning('font cache'), 'StopIteration': lambda: StopIteration(), 'EOFError': lambda: EOFError(),
    'SystemError': lambda: SystemError('null'), 'StubError': lambda: StubError('own'), 'OddError': lambda: OddError(),
}
# these end an import as well, though they are no Exceptions
BASE = {'SystemExit': lambda: SystemExit(3), 'KeyboardInterrupt': lambda: KeyboardInterrupt(),
        'GeneratorExit': lambda: GeneratorExit(), 'StubExit': lambda: StubExit('outcome')}
ANY = dict(EXC, **BASE)


class Recorder(object):
    """A drawing object that accepts everything and records it."""

    def __init__(self, path, log):
        self.__dict__['_p'] = (path, log)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        p, log = self._p
        return Recorder(p + '.' + name, log)

    def __setattr__(self, name, v):
        pass

    def __call__(self, *a, **k):
        p, log = self._p
        log.record(p, a, k)
        return Recorder(p + '()', log)

    def __getitem__(self, i):
        p, log = self._p
        return Recorder(p + '[]', log)

    def __iter__(self):
        return iter((self[0], self[1]))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Drawn(list):
    """What was drawn, by whom; a drawing call can be made to fail."""
    kernel = None
    fail = None         # {thread: [calls left, exception]}

    def tid(self):
        return self.kernel.k.cur.tid if self.kernel is not None and self.kernel.k is not None and self.kernel.k.cur else None

    def record(self, p, a, k):
        t = self.tid()
        f = (self.fail or {}).get(t)
        if f is not None:
            f[0] -= 1
            if f[0] == 0:
                self.kernel.count('fault:drawing call fails')
                raise EXC[f[1]]()
        cp = lambda v: v.copy() if isinstance(v, np.ndarray) else v     # noqa
        self.append((p, tuple(cp(v) for v in a), {n: cp(v) for n, v in k.items()}, t))

    def by(self, t, n0):
        return [c for c in self[n0:] if c[3] == t]


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, eng):
        self.e = eng

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in ('matplotlib', 'mpl_toolkits'):
            return None
        self.e.point('find:' + name)
        if self.e.lib == 'absent':
            self.e.fired += 1
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        if name not in CHAIN and (name.split('.')[0] == 'mpl_toolkits' or name != name.lower()):
            return None
        return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        e, name = self.e, m.__name__
        e.point('start:' + name)
        for x in CHAIN.get(name, ()):
            __import__(x)
        log = e.drawn
        if name == 'mpl_toolkits.mplot3d':
            m.__getattr__ = lambda a: self.attr(name, a, 'Axes3D')
        elif name == 'matplotlib':
            m.__getattr__ = lambda a: self.attr(name, a, None)
            m.__version__ = '3.0'
            m.use = lambda *a, **k: None
            m.rcParams = {}
        else:
            m.__getattr__ = lambda a: self.attr(name, a, None)
        e.point('end:' + name)

    def attr(self, mod, a, special):
        if a.startswith('__'):
            raise AttributeError(a)
        if mod + '.' + a in CHAIN:
            if mod + '.' + a not in sys.modules:
                raise AttributeError(a)
            return sys.modules[mod + '.' + a]
        if a == 'Axes3D':
            self.e.point('attr:Axes3D')
        return Recorder(mod.split('.')[-1] + '.' + a, self.e.drawn)


class PlotWorld(world.World):
    """Runs a world case next to the stub library; every value rule counts."""

    def __init__(self, case):
        world.World.__init__(self, case)
        self.lib = case['lib']
        self.fail = dict((a, b) for a, b in case.get('fail', ()))
        self.fired = 0
        self.drawn = Drawn()
        self.drawn.kernel = self
        self.drawn.fail = {}
        self.passed = set()
        self.importing = False

    def point(self, name):
        self.passed.add(name)
        x = self.fail.get(name)
        if x is not None:
            self.fired += 1
            self.count('fault:import point fails with ' + x)
            raise ANY[x]()

    def run(self):
        sys.meta_path.insert(0, Finder(self))
        for n in list(sys.modules):
            if n.split('.')[0] in ('matplotlib', 'mpl_toolkits'):
                del sys.modules[n]
        self.count('library ' + self.lib)
        if self.lib == 'absent':
            self.count('fault:library not installed')
        if self.case.get('optimize'):
            pass
        try:
            sim.load_package(os.path.join(sim.SCRATCH, 'ext'))
        except sim.HarnessError:
            raise
        except BaseException as e:
            if not isinstance(e, Exception) and not self.fired:
                raise
            self.trap('plot:import', 'importing the package raised %s: %s' % (type(e).__name__, text(e)))
            self.count('runs')
            return {'st': self.st, 'digest': '', 'taken': [], 'pairs': [], 'other': {}, 'violation': self.violation}
        self.dir = tempfile.mkdtemp(prefix='plot', dir=sim.SCRATCH)
        try:
            return world.World.run(self)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def step(self, ti, t, tracer, own, conts, i, op):
        f = op['f']
        if f not in ('draw', 'file', 'verify', 'rnd'):
            return world.World.step(self, ti, t, tracer, own, conts, i, op)
        self.count('op:' + f)

        def bad(tag, s):
            self.report(tag, s, ti, op, i)
        if f == 'draw':
            self.draw(t, tracer, op, own, conts, bad)
        elif f == 'rnd':
            sp = sim.sp
            try:
                for g, a in (('random_coefs', (3, 2)), ('random_patt_uniform', (4, 6))):
                    x = getattr(sim.sp, g)(*a)
                    if sim.kind_of(x) not in ('sc', 'sp'):
                        bad('plot:other', '%s returned a %s' % (g, type(x).__name__))
                z = op['z']
                j = sp.sbesselj(z, 4)
                if abs(j[0] - np.sin(z) / z) > 1e-12 or len(sp.sbesselh1(z, 3)) != 3 or len(sp.sbessely(z, 3)) != 3:
                    bad('plot:other', 'the spherical Bessel functions are wrong')
                if sp.sph_harmonic_tp(4, 6, 2, 1).shape != (4, 6):
                    bad('plot:other', 'the harmonic table has the wrong shape')
            except world.Found:
                raise
            except Exception as e:
                bad('plot:other', 'a random factory raised %r' % (e,))
        else:
            self.filing(ti, op, own, bad)

    def draw(self, t, tracer, op, own, conts, bad):
        sp = sim.sp
        a = []
        for x in op.get('a', ()):
            if isinstance(x, str):
                o = own[x[1:]] if x[1:] in own else self.shared[x[1:]]
                a.append(np.abs(o.array) if op['name'] == 'plot_mag_on_sphere' else o)
            else:
                a.append(x)
        n0 = len(self.drawn)
        before = {n: sim.content(o) for n, o in own.items()}
        if self.fired:
            self.count('plots without the library')
        me = self.drawn.tid()
        try:
            if op.get('drawfail'):
                self.drawn.fail[me] = list(op['drawfail'])
            how, r = base.traced_call(t, tracer, op, lambda: getattr(sp, op['name'])(*a))
            hit = op.get('drawfail') and self.drawn.fail[me][0] <= 0
            self.drawn.fail.pop(me, None)
            if how == 'irq':
                self.count('fault:interrupt')
                return
            if how == 'exc' and (hit or t.irq_fired):
                r.__traceback__ = None
                return
            if how == 'exc':
                raise r
        except Exception as e:
            self.log.update(('draw %s' % type(e).__name__).encode())
            if not self.fired:
                bad('plot:draw', '%s raised %s with the plotting library present: %s' % (op['name'], type(e).__name__, text(e)))
            elif not isinstance(e, ImportError):
                bad('plot:error', '%s without the plotting library (%s) raised %s instead of an import error: %s' % (
                    op['name'], self.why(), type(e).__name__, text(e)))
            elif 'matplotlib' not in text(e).lower():
                bad('plot:error', 'the import error of %s does not name the library (%s): %s' % (op['name'], self.why(), text(e)))
            return
        calls = self.drawn.by(me, n0)
        self.log.update(('drawn %d' % len(calls)).encode())
        if self.fired:
            bad('plot:error', '%s returned although the plotting library could not be imported (%s)' % (op['name'], self.why()))
        data = [c for c in calls if any(isinstance(v, (np.ndarray, list, tuple)) and np.size(v) > 1
                                        for v in list(c[1]) + list(c[2].values()))]
        if not data:
            bad('plot:draw', '%s drew nothing with the plotting library' % op['name'])
        if not any(c[0].split('.')[-1] in ('show', 'draw', 'savefig') for c in calls):
            bad('plot:draw', '%s never showed its figure' % op['name'])
        self.count('plots drawn')
        if not hit and not t.irq_fired:
            e = geometry(op['name'], a, calls, self.count)
            if e:
                bad('geom', '%s%s: %s' % (op['name'], tuple(op['a']), e))
        for n, o in own.items():
            if not sim.content(o).same(before[n]):
                bad('mutated:' + before[n].kind, '%s changed %s' % (op['name'], n))

    def why(self):
        return 'not installed' if self.lib == 'absent' else ', '.join('%s at %s' % (b, a) for a, b in self.fail.items())

    def filing(self, ti, op, own, bad):
        sp = sim.sp
        try:
            if op['f'] == 'verify':
                c = sim.make({'t': 'sc', 'n': 3, 'm': 3, 'd': op['d']})
                p = sp.ispht(c, 6, 8)
                a, b = os.path.join(self.dir, 'p%d' % ti), os.path.join(self.dir, 'c%d' % ti)
                sp.file.save_patt(p, a)
                sp.file.save_coef(c, b)
                v = list(sp.verify.verify_spht(a, b)) + list(sp.verify.verify_ispht(a, b))
                if max(v) > 1e-12:
                    bad('plot:other', 'verification gives %r' % (v,))
                return
            o = own[op['a'][0][1:]] if op['a'][0][1:] in own else self.shared[op['a'][0][1:]]
            k = sim.kind_of(o)
            if k not in ('sc', 'sp'):
                return
            path = os.path.join(self.dir, 'f%d' % ti)
            if k == 'sc':
                if sim.content(o).cols[0].dtype != np.complex128:
                    return
                sp.file.save_coef(o, path)
                r = sp.file.load_coef(path)
            else:
                if not o.is_symmetric:
                    return
                sp.file.save_patt(o, path)
                r = sp.file.load_patt(path)
            if not ops.content_close(sim.content(r), sim.content(o), 1e-13):
                bad('plot:other', 'a saved object loads back different')
        except world.Found:
            raise
        except Exception as e:
            bad('plot:other', '%s raised %r' % (op['f'], e))


def near(got, want, what):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return '%s has shape %s instead of %s' % (what, got.shape, want.shape)
    if got.size and not np.max(np.abs(got - want)) <= 1e-11 * max(1e-290, np.max(np.abs(want))):
        i = np.unravel_index(int(np.argmax(np.abs(got - want))), got.shape)
        return '%s at %s is %r instead of %r' % (what, tuple(int(x) for x in i), got[i], want[i])
    return None


def geometry(name, a, calls, count):
    """Complaint about the arrays handed to the plotting library."""
    def grab(names, n):
        for c in calls:
            if c[0].split('.')[-1] in names:
                v = [np.asarray(x) for x in c[1][:n]]
                if len(v) == n:
                    yield v
    if name in ('simple_plot', 'plot_mag_on_sphere', 'plot_sphere_mag'):
        if name == 'simple_plot':
            n, m = a
            v = {x: 0j for x in R.modes(n, abs(m))}
            v[(n, m)] = 1.0
            T = np.abs(R.synth(v, n, abs(m), 100, 100))
        elif name == 'plot_mag_on_sphere':
            T = np.asarray(a[0])
        else:
            c = sim.content(a[0])
            k = c.nrows
            T = np.abs(c.D[:k]) if c.kind == 'sp' else np.sqrt(np.abs(c.T[:k]) ** 2 + np.abs(c.P[:k]) ** 2)
        if not ops.ranged(ops.scale_of(T)):
            return None
        T = np.concatenate([T, T[:, :1]], axis=1)
        th = np.pi * np.arange(T.shape[0])[:, None] / (T.shape[0] - 1.0)
        ph = 2 * np.pi * np.arange(T.shape[1])[None, :] / (T.shape[1] - 1.0)
        want = [T * np.sin(th) * np.cos(ph), T * np.sin(th) * np.sin(ph), T * np.cos(th)]
        n = 0
        for v in grab(('plot_surface', 'plot_wireframe'), 3):
            n += 1
            for x, w, ax in zip(v, want, 'XYZ'):
                d = np.max(np.abs(T)) if T.size else 0
                if x.shape != w.shape:
                    return '%s has shape %s instead of %s' % (ax, x.shape, w.shape)
                if not np.max(np.abs(x - w)) <= 1e-11 * max(d, 1e-290):
                    i = np.unravel_index(int(np.argmax(np.abs(x - w))), w.shape)
                    return '%s of the surface at %s is %r instead of %r' % (ax, tuple(int(q) for q in i), float(x[i]), float(w[i]))
        count('surfaces checked', n)
    elif name in ('pcolor_coefs', 'plot_coefs'):
        c = sim.content(a[0])
        if not ops.ranged(ops._total(c)):
            return None
        if name == 'pcolor_coefs':
            for x, y, z in grab(('pcolormesh', 'pcolor'), 3):
                if x.ndim != 2 or x.shape != y.shape:
                    continue
                count('meshes checked')
                for n in range(c.nmax + 1):
                    for m in sim.ms(c.mmax):
                        w = abs(c.cols[m][n - abs(m)]) if n >= abs(m) else 0.0
                        i = np.argwhere((np.abs(x[:-1, :-1] - (m - 0.5)) < 1e-9) & (np.abs(y[:-1, :-1] - (n - 0.5)) < 1e-9) &
                                        (np.abs(x[1:, 1:] - (m + 0.5)) < 1e-9) & (np.abs(y[1:, 1:] - (n + 0.5)) < 1e-9))
                        if len(i) != 1:
                            return '%d cells for (n, m) = (%d, %d)' % (len(i), n, m)
                        if not abs(z[tuple(i[0])] - w) <= 1e-12 * w:
                            return 'the cell of (n, m) = (%d, %d) shows %r instead of %r' % (n, m, float(z[tuple(i[0])]), w)
        else:
            lines = [v for v in grab(('plot',), 2) if v[0].ndim == 1 and len(v[0]) > c.nmax]
            if not lines:
                return None
            count('line plots checked')
            left = sim.ms(c.mmax)
            for x, y in lines:
                at = {float(q): float(w) for q, w in zip(x, y) if np.isfinite(w)}
                for m in left:
                    if all(n in at and abs(at[n] - abs(v)) <= 1e-12 * abs(v) for n, v in enumerate(c.cols[m], abs(m))) and \
                            not any(n in at for n in range(abs(m))):
                        left.remove(m)
                        break
                else:
                    return 'a line shows %r, which is no column of the coefficients' % (at,)
            if left:
                return 'no line for m = %s' % left
    return None


def text(e):
    try:
        return str(e)
    except Exception:
        return ''


def run(case):
    return PlotWorld(case).run()
