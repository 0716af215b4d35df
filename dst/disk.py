"""Storage engine: callers saving and loading named files on simulated storage.

Case: {"engine": "disk", "objects": {name: spec}, "threads": [{"ops": [...]}],
 "sched": {...}, "script": [[thread, call, nth, to], ...], "hold": bool}
Ops:
 {"f": "save", "o": object, "part": 0|1|2, "n": file, "io": {...}, "irq": k, "fork": 1}
 {"f": "load", "n": file, "how": "coef"|"patt"|"fdata"|"vpatt"|"vcoef", "n2": file, ...}
 {"f": "tear", "n": file, "kind": ..., "x": fraction, "y": fraction}
 {"f": "vcoef", "n": file, "o": object}     complete file written outside the package
"io": {"chunk": [seed, max], "blk": n, "budget": bytes, "kill": bytes,
       "faults": [[call, nth, action, argument, persist], ...]}
"""
import ctypes
import os
import pathlib
import pickle
import shutil
import sys
import tempfile

import numpy as np

from . import base, kernel, sim, world
from .base import set_io, hard, traced_call, SC

OOM_SITE = {'array': sim.ID_NP}
HOOK_T = ctypes.CFUNCTYPE(None, ctypes.c_int)


def as_bits(a):
    a = np.ascontiguousarray(np.asarray(a), dtype=np.complex128)
    return a


def equal(a, b):
    """Bit-for-bit, except that a value holding a NaN only has to stay a NaN."""
    a, b = as_bits(a), as_bits(b)
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    x, y = a.view(np.float64).view(np.int64), b.view(np.float64).view(np.int64)
    d = x != y
    if not d.any():
        return None
    dd = (d.reshape(a.shape + (2,))).any(axis=-1) & ~(np.isnan(a) & np.isnan(b))
    if not dd.any():
        return None
    i = tuple(int(v) for v in np.argwhere(dd)[0])
    return 'value %s is %r instead of %r' % (i, a[i], b[i])


class Stored(object):
    """What a complete file holds: kind 'coef', 'patt' or 'vcoef'."""

    def __init__(self, kind, key, arrays, vec=False):
        self.vec = vec          # one component of a vector pattern
        self.kind, self.key, self.arrays = kind, key, arrays


class Name(object):
    def __init__(self):
        self.complete = []      # every object completely saved (or attempted)
        self.acked = None
        self.dirty = True
        self.active = 0         # saves in progress
        self.opened = 0         # how often a save opened the file
        self.loading = 0        # loads in progress
        self.overlap = False    # two saves were in progress together


class Disk(base.Base):
    def run(self):
        case = self.case
        if case.get('frozen'):
            self.count('fault:coarse time stamps')
        self.dir = tempfile.mkdtemp(prefix='store', dir=sim.SCRATCH)
        os.chdir(self.dir)
        sim.L.sim_io_prefix(os.path.join(self.dir, '').encode())
        self.hook = HOOK_T(self.on_call)
        sim.L.sim_io_hook(self.hook)
        self.names = {}
        self.byte = {}
        sim.alloc_on(0, 0xA5)
        sim.npsim.install()
        self.objs = {n: sim.make(s) for n, s in case['objects'].items()}
        self.conts = {n: sim.content(o) for n, o in self.objs.items()}
        self.calls = {}
        self.loaded = []
        self.cur = {}
        self.script = [tuple(x) for x in case.get('script', ())]
        try:
            self.simulate([('T%d' % i, self.body(i, th)) for i, th in enumerate(case['threads'])], case['sched'])
        finally:
            self.held = []
            os.chdir(sim.SCRATCH)
            shutil.rmtree(self.dir, ignore_errors=True)
        return self.result()

    # -------------------------------------------------------- system calls
    def on_call(self, sc):
        try:
            t = self.k.cur
            n = self.calls[(t.tid, sc)] = self.calls.get((t.tid, sc), 0) + 1
            self.k.iopoint()
            for tid, call, nth, to in self.script:
                if tid == t.tid and SC[call] == sc and nth == n:
                    self.k.handover(to)
            if sc == SC['open']:
                c = self.cur.get(t.tid)
                if c is not None:
                    if c['f'] == 'save':
                        self.names[c['n']].opened += 1
                    elif c.get('at') is None:
                        c['at'] = True
                        for nm in c['e']:
                            c['e'][nm] = self.names[nm].opened
        except BaseException as e:      # cannot propagate through C
            self.held.append(e)
            self.violation = self.violation or {'tag': 'harness', 'text': repr(e)}

    def body(self, ti, th):
        def body(t):
            sim.npsim.install()
            tracer = kernel.make_tracer(self.k, t)
            for i, op in enumerate(th['ops']):
                if self.violation:
                    return
                self.k.point()
                try:
                    self.step(ti, t, tracer, i, op)
                except base.Found:
                    return
        return body

    def path(self, n, form=None):
        p = self.path0(n)
        if form == 'path':
            return pathlib.Path(p)
        return os.fsencode(p) if form == 'bytes' else p

    def path0(self, n):
        if self.case.get('abs'):
            return os.path.join(self.dir, n)
        return n

    def name(self, n):
        return self.names.setdefault(n, Name())

    # ---------------------------------------------------------------- steps
    def step(self, ti, t, tracer, i, op):
        f = op['f']

        def bad(tags, text):
            self.report(tags, text, ti, op, i)
        self.count('op:' + f)
        if f == 'save':
            self.save(ti, t, tracer, op, bad)
        elif f == 'load':
            self.load(ti, t, tracer, op, bad)
        elif f == 'tear':
            self.tear(op)
        elif f == 'vcoef':
            self.vcoef(op)
        elif f == 'edit':
            self.edit(op)
        self.note(ti, i, f)

    def target(self, op):
        """(save function, object to save, what the file will hold)"""
        sp = sim.sp
        vec = False
        o, c, part = self.objs[op['o']], self.conts[op['o']], op.get('part', 0)
        if c.kind == 'vc':
            o, c = (o.scoef1, c.a) if part != 2 else (o.scoef2, c.b)
        elif c.kind == 'vp':
            D = c.T if part != 2 else c.P
            vec = True
            o, c = sp.ScalarPatternUniform(np.copy(D), doublesphere=True), sim.SP(D)
        if c.kind == 'sc':
            return sp.file.save_coef, o, Stored('coef', (c.nmax, c.mmax), [c.flat()])
        return sp.file.save_patt, o, Stored('patt', (c.nrows, c.ncols), [c.single().copy()], vec)

    def edit(self, op):
        """An in-place edit between saves."""
        o, c = self.objs[op['o']], self.conts[op['o']]
        v = sim.data(op['d'], 1, 'special')[0]
        if c.kind == 'sc':
            n = op['d'] % (c.nmax + 1)
            if c.cols[0].dtype == np.complex128:
                o[n, 0] = v
        elif c.kind == 'sp' and c.nrows > 2:
            o.cdata[1 + op['d'] % (c.nrows - 2), op['d'] % c.ncols] = v
        self.conts[op['o']] = sim.content(o)

    def perform(self, ti, t, tracer, op, f):
        """One call under its storage faults.  -> how, value, {fault: count}"""
        L = sim.L
        fd0 = L.sim_io_open_me()
        set_io(op.get('io'))
        oom0 = L.sim_fired_me()
        if op.get('oom'):
            site, k, p = op['oom']
            L.sim_fail(OOM_SITE[site], k, p)
        L.sim_io_hooked(1)
        try:
            how, r = traced_call(t, tracer, op, f)
        finally:
            L.sim_io_hooked(0)
            L.sim_fail_clear()
        fired = {n: L.sim_io_hard(i) for n, i in SC.items() if L.sim_io_hard(i)}
        if L.sim_fired_me() > oom0:
            fired['oom'] = L.sim_fired_me() - oom0
        left = L.sim_io_open_me() - fd0
        if how == 'irq':
            # what a caught interrupt still refers to is closed when it is dropped
            r.__traceback__ = None
            r = None
            left = L.sim_io_open_me() - fd0
            if left > 0:        # nor can a program prevent one at the very statement after the call of open
                left = max(0, left - L.sim_io_bare_me())
            self.count('fault:interrupt')
        set_io(None)
        for k, v in fired.items():
            self.count('fault:failing ' + ('allocation' if k == 'oom' else k), v)
        io = op.get('io') or {}
        if io.get('chunk'):
            self.count('fault:partial transfers')
        for x in io.get('faults', ()):
            if x[3] == base.EINTR:
                self.count('fault:interrupted system call')
        self.count('out:' + how)
        self.note(op['f'], how, type(r).__name__, sorted(fired.items()), left)
        return how, r, fired, left

    def keep(self, e):
        """Callers may keep the exception they caught."""
        if self.case.get('hold'):
            self.held.append(e)
        else:
            e.__traceback__ = None

    def stamp(self, path):
        """Coarse clocks: every change of a file happens within one tick."""
        if self.case.get('frozen'):
            try:
                os.utime(path, ns=(10 ** 18, 10 ** 18))
            except OSError:
                pass

    def save(self, ti, t, tracer, op, bad):
        path = self.path(op['n'])
        try:
            self.save0(ti, t, tracer, op, bad)
        finally:
            self.stamp(path)

    def save0(self, ti, t, tracer, op, bad):
        fn, obj, st = self.target(op)
        N = self.name(op['n'])
        path = self.path(op['n'], op.get('as'))
        before = sim.content(obj)
        over = N.active > 0
        N.overlap = over
        N.active += 1
        N.complete.append(st)
        prev, N.acked = N.acked, None
        N.dirty = True
        if op.get('fork'):
            N.opened += 1
            ok = self.forked(op, fn, obj, path)
            N.active -= 1
            self.count('fault:writer killed')
            if ok and not N.overlap:
                N.acked, N.dirty = st, False
            return
        self.cur[t.tid] = op
        how, r, fired, left = self.perform(ti, t, tracer, op, lambda: fn(obj, path))
        self.cur.pop(t.tid, None)
        N.active -= 1
        if N.active:
            N.overlap = True
        if over:
            N.overlap = True
        what = 'save of %s to %r' % (before.brief(), op['n'])
        now = sim.content(obj)
        if not now.same(before):
            bad(['io:object', 'mutated:' + before.kind], '%s changed the object: %s' % (what, world.where_diff(now, before)))
        if left:
            bad(['io:leak'], '%s (%s, %s) left a file open' % (what, how, fired))
        if how == 'exc':
            if not fired and not t.irq_fired:
                bad(['store:raise'], '%s raised %r on working storage' % (what, r))
            elif 'oom' in fired and len(fired) == 1 and not isinstance(r, MemoryError):
                bad(['oom'], '%s with a failing allocation raised %r' % (what, r))
            self.keep(r)
        elif how == 'ret':
            lost = [x for x in ('open', 'write', 'close', 'fsync', 'rename', 'ftruncate') if x in fired]
            if lost:
                bad(['io:silent'], '%s returned although %s failed' % (what, ', '.join(lost)))
            if not N.overlap:
                N.acked, N.dirty = st, False
        if (fired or how == 'irq') and not over:
            self.count('retries')
            N.active += 1
            self.cur[t.tid] = op
            h2, r2, f2, l2 = self.perform(ti, t, tracer, dict(op, io=None, irq=None, oom=None, tr='no'), lambda: fn(obj, path))
            self.cur.pop(t.tid, None)
            N.active -= 1
            if h2 != 'ret':
                bad(['io:retry', 'oom'] if 'oom' in fired else ['io:retry'],
                    '%s repeated on working storage raised %r' % (what, r2))
            elif not N.overlap:
                N.acked, N.dirty = st, False
                self.stamp(path)
                self.reload(st, path, what, bad)

    def reload(self, st, path, what, bad):
        how = 'coef' if st.kind == 'coef' else 'fdata' if st.vec else 'patt'
        try:
            r = self.fetch(how, [path])
            e = self.differs(how, r, [st])
        except Exception as x:
            e = 'loading raised %r' % (x,)
        if e:
            bad(['io:retry', 'store:lost'], '%s repeated: %s' % (what, e))

    def forked(self, op, fn, obj, path):
        """The save in a process of its own, killed as planned or right after the
        save returned.  True if it was acknowledged."""
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a)
                set_io(op.get('io'))
                try:
                    fn(obj, path)
                except Exception:
                    os._exit(3)
                os.write(b, b'k')
            finally:
                sim.L.sim_io_clear()
                os.kill(os.getpid(), 9)
        os.close(b)
        got = os.read(a, 1)
        os.close(a)
        os.waitpid(pid, 0)
        return got == b'k'

    def vcoef(self, op):
        c = self.conts[op['o']]
        v1, v2 = c.a.flat(), c.b.flat()
        order = sim.storage_order(c.mmax)
        w1, w2 = (np.concatenate([x.cols[m] for m in order]) for x in (c.a, c.b))
        N = self.name(op['n'])
        if N.loading or N.active:
            return
        st = Stored('vcoef', (c.nmax, c.mmax), [v1, v2, np.array(complex(1.5 + op.get('d', 0)))])
        with open(self.path(op['n']), 'w') as f:
            f.write('%d,%d,%.16e\n' % (c.nmax, c.mmax, 1.5 + op.get('d', 0)))
            for z in w1:
                f.write('%.16e,%.16e\n' % (z.real, z.imag))
            f.write('break\n')
            for z in w2:
                f.write('%.16e,%.16e\n' % (z.real, z.imag))
        self.stamp(self.path(op['n']))
        N.complete.append(st)
        N.acked, N.dirty = st, False

    def fetch(self, how, paths):
        F = sim.sp.file
        if how == 'coef':
            return F.load_coef(paths[0])
        if how == 'patt':
            return F.load_patt(paths[0])
        if how == 'fdata':
            return F.load_fdata(paths[0])
        if how == 'vcoef':
            return F.load_vcoef(paths[0])
        return F.load_vpatt(paths[0], paths[1])

    def got(self, how, r):
        """(kind, key, arrays) of a loaded result, one entry per file."""
        if how == 'coef':
            if sim.kind_of(r) != 'sc':
                raise ValueError('load_coef returned a %s' % type(r).__name__)
            c = sim.content(r)
            return [((c.nmax, c.mmax), [c.flat()])]
        if how == 'patt':
            if sim.kind_of(r) != 'sp':
                raise ValueError('load_patt returned a %s' % type(r).__name__)
            c = sim.content(r)
            return [((c.nrows, c.ncols), [c.single()])]
        if how == 'fdata':
            r = np.asarray(r)
            return [(r.shape, [r])]
        if how == 'vcoef':
            v, d = r
            if sim.kind_of(v) != 'vc':
                raise ValueError('load_vcoef returned a %s' % type(v).__name__)
            c = sim.content(v)
            return [((c.nmax, c.mmax), [c.a.flat(), c.b.flat(), np.array(complex(d))])]
        if sim.kind_of(r) != 'vp':
            raise ValueError('load_vpatt returned a %s' % type(r).__name__)
        c = sim.content(r)
        n = c.nrows
        return [((c.nrows, c.ncols), [c.T[:n]]), ((c.nrows, c.ncols), [c.P[:n]])]

    def differs(self, how, r, want, single=True):
        """Complaint, or None if the result equals the stored objects."""
        try:
            g = self.got(how, r)
        except Exception as e:
            return 'result cannot be read: %r' % (e,)
        for (key, arrs), st in zip(g, want):
            if tuple(key) != tuple(st.key):
                return 'size %s instead of %s' % (key, st.key)
            for x, y in zip(arrs, st.arrays):
                e = equal(x, y)
                if e:
                    return e
        return None

    def load(self, ti, t, tracer, op, bad):
        how = op['how']
        ns = [op['n']] + ([op['n2']] if how == 'vpatt' else [])
        Ns = [self.name(n) for n in ns]
        kind = {'coef': 'coef', 'patt': 'patt', 'fdata': 'patt', 'vpatt': 'patt', 'vcoef': 'vcoef'}[how]
        if any(c.kind != kind for N in Ns for c in N.complete):
            return
        vec = {s.vec for N in Ns for s in N.complete}
        if how == 'patt' and True in vec:
            how = 'fdata'       # the poles of a component have the other symmetry
        if how == 'vpatt' and vec != {True}:
            return
        if how == 'vpatt' and len({s.key for N in Ns for s in N.complete}) > 1:
            return
        paths = [self.path(n, op.get('as')) for n in ns]
        busy0 = any(N.active for N in Ns)
        rec = {'f': 'load', 'e': {n: self.names[n].opened for n in ns}}
        self.cur[t.tid] = rec
        acked0 = [N.acked for N in Ns]
        sets0 = [list(N.complete) for N in Ns]
        epoch0 = [N.opened for N in Ns]
        for N in Ns:
            N.loading += 1
        h, r, fired, left = self.perform(ti, t, tracer, op, lambda: self.fetch(how, paths))
        for N in Ns:
            N.loading -= 1
        self.cur.pop(t.tid, None)
        what = 'load_%s of %s' % (how, ' and '.join(repr(n) for n in ns))
        if left:
            bad(['io:leak'], '%s (%s, %s) left a file open' % (what, h, fired))
        quiet = not busy0 and not any(N.active for N in Ns) and epoch0 == [N.opened for N in Ns] and \
            acked0 == [N.acked for N in Ns]
        begun_later = any(self.names[n].opened != e for n, e in rec['e'].items())
        overl = any(N.overlap for N in Ns)
        clean = quiet and all(N.acked is not None and not N.dirty for N in Ns)
        e = None
        if h == 'ret':
            # equals an acknowledged or otherwise completely saved object?
            if clean:
                e = self.differs(how, r, [N.acked for N in Ns])
                if e:
                    tags = ['io:wrong', 'store:lost'] if fired else ['store:lost']
                    if all(N.complete for N in Ns) and not self.any_complete(how, r, Ns):
                        tags.append('torn')
                    bad(tags, '%s (%s): %s' % (what, fired or 'no faults', e))
            elif not self.any_complete(how, r, Ns):
                e = 'the result equals no object ever saved there'
                if begun_later and not fired:
                    self.findings.append('overlap-load')
                    self.count('loads overtaken by a save')
                elif overl:
                    self.findings.append('overlap-save')
                    self.count('loads after overlapping saves')
                else:
                    bad(['torn', 'io:wrong'] if fired else ['torn'], '%s of an incomplete file: %s' % (what, e))
            if clean and not e:
                self.count('loads of saved data')
            elif not clean and not e:
                self.count('loads equal to a complete save')
            self.note(str(e), world.digest(self.flat(how, r)))
        elif h == 'exc':
            self.count('loads refused')
            if clean and not fired and not t.irq_fired:
                bad(['store:raise'], '%s raised %r' % (what, r))
            if 'oom' in fired and len(fired) == 1 and clean and not isinstance(r, MemoryError):
                bad(['oom'], '%s with a failing allocation raised %r' % (what, r))
            self.keep(r)
        if (fired or h == 'irq') and clean:
            self.count('retries')
            h2, r2, f2, l2 = self.perform(ti, t, tracer, dict(op, io=None, irq=None, oom=None, tr='no'),
                                          lambda: self.fetch(how, paths))
            e = 'raised %r' % (r2,) if h2 != 'ret' else self.differs(how, r2, acked0)
            if e and not any(N.active for N in Ns) and epoch0 == [N.opened for N in Ns] and acked0 == [N.acked for N in Ns]:
                bad(['io:retry', 'oom'] if 'oom' in fired else ['io:retry'], '%s repeated on working storage: %s' % (what, e))

        if h == 'ret' and op.get('poke') and clean and not e and \
                epoch0 == [N.opened for N in Ns] and acked0 == [N.acked for N in Ns]:
            self.poke(how, r, paths, Ns, what, bad)

    def poke(self, how, r, paths, Ns, what, bad):
        """Overwrites the loaded values: neither the file, nor a later load, nor a
        result loaded earlier may show it."""
        now = [N.opened for N in Ns]
        acked = [N.acked for N in Ns]
        old = [(o, c) for h, o, c in self.loaded]
        val = -7.25
        for o in (r if isinstance(r, tuple) else (r,)):
            k = sim.kind_of(o)
            if k == 'vc':
                for q in (o.scoef1, o.scoef2):
                    for m in sim.ms(q.mmax):
                        q[:, m] = np.full(q.nmax - abs(m) + 1, val, dtype=np.complex128)
            elif k == 'sc':
                for m in sim.ms(o.mmax):
                    o[:, m] = np.full(o.nmax - abs(m) + 1, val, dtype=np.complex128)
            elif k == 'sp':
                if o.doublesphere.flags.writeable:
                    o.doublesphere[...] = val
            elif k == 'vp':
                o.doublesphere[0][...] = val
                o.doublesphere[1][...] = val
            elif isinstance(o, np.ndarray) and o.flags.writeable:
                o[...] = val
        self.count('results edited')
        for o, c in old:
            if world.digest(o) != c:
                bad(['alias'], 'editing the result of %s changed the result of an earlier load' % what)
        for nm, (o, c) in self.objs_now():
            if not sim.content(o).same(c):
                bad(['alias', 'mutated:' + c.kind], 'editing the result of %s changed %s' % (what, nm))
        try:
            r2 = self.fetch(how, paths)
        except Exception as x:
            if now == [N.opened for N in Ns] and acked == [N.acked for N in Ns] and not any(N.active for N in Ns):
                bad(['alias', 'store:lost'], '%s after its result was edited raised %r' % (what, x))
            return
        if now == [N.opened for N in Ns] and acked == [N.acked for N in Ns] and not any(N.active for N in Ns):
            e = self.differs(how, r2, acked) if all(a is not None for a in acked) else None
            if e:
                bad(['alias', 'store:lost'], '%s after its result was edited: %s' % (what, e))
            self.loaded.append((how, r2, world.digest(r2)))

    def objs_now(self):
        return [(n, (self.objs[n], self.conts[n])) for n in sorted(self.objs)]

    def flat(self, how, r):
        try:
            return [a for _, arrs in self.got(how, r) for a in arrs]
        except Exception:
            return []

    def any_complete(self, how, r, Ns):
        try:
            g = self.got(how, r)
        except Exception:
            return False
        for (key, arrs), N in zip(g, Ns):
            for st in N.complete:
                if tuple(st.key) == tuple(key) and all(equal(x, y) is None for x, y in zip(arrs, st.arrays)):
                    break
            else:
                return False
        return True

    def tear(self, op):
        """What unreliable storage may leave of a file."""
        p = self.path(op['n'])
        if not os.path.exists(p) or self.name(op['n']).active or self.name(op['n']).loading:
            return
        b = open(p, 'rb').read()
        n = len(b)
        x = min(n, int(op['x'] * (n + 1)))
        k = op['kind']
        if 'abs' in op:         # counted from either end
            x = max(0, min(n, op['abs'] if op['abs'] >= 0 else n + op['abs']))
        if k == 'trunc':
            c = b[:x]
        elif k == 'zero':
            y = min(n, x + max(1, int(op['y'] * n)))
            c = b[:x] + b'\0' * (y - x) + b[y:]
        elif k == 'zerotail':
            c = b[:x] + b'\0' * (n - x)
        elif k == 'block':      # lost in units of blocks
            s = op['size']
            y = x // s * s
            c = b[:y] + b'\0' * (min(n, y + s) - y) + b[y + s:]
        elif k == 'lines':
            ls = b.splitlines(True)
            i = int(op['x'] * len(ls))
            del ls[i:i + 1 + int(op['y'] * 3)]
            c = b''.join(ls)
        else:
            c = b''
        if c == b:
            return
        with open(p, 'wb') as f:
            f.write(c)
        self.stamp(p)
        N = self.name(op['n'])
        N.dirty = True
        N.acked = None
        self.count('fault:torn file (%s)' % k)


def run(case):
    return Disk(case).run()
