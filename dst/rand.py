"""Random engine: the factories drawing from numpy's global generator, which is put
into seeded, saved and crafted states, while other callers work, calls are
interrupted and allocations fail.

Case: {"engine": "rand", "calls": [factory call, ...], "threads": [{"ops": [...]}], "sched": ...}
A factory call: {"f": "random_coefs"|"random_patt_uniform", "a": [...], "kw": {...}}
Ops: {"f": "run", "seed": s, "via": "seed"|"state"}   the calls, after (re)seeding
     {"f": "craft", "d": seed, "kind": ...}           a generator state with chosen outputs
     a factory call, possibly with irq/oom; any operation of dst/ops.py on own objects
"""
import math
import os
import pickle

import numpy as np

from . import base, kernel, ops, refmodel as R, sim, world
from .base import traced_call


def untemper(y):
    def unright(y, s):
        r = y
        for _ in range(32 // s + 1):
            r = y ^ (r >> s)
        return r & 0xffffffff

    def unleft(y, s, m):
        r = y
        for _ in range(32 // s + 1):
            r = y ^ ((r << s) & m)
        return r & 0xffffffff
    y = unright(y, 18)
    y = unleft(y, 15, 0xefc60000)
    y = unleft(y, 7, 0x9d2c5680)
    return unright(y, 11)


def words(u):
    """The two generator outputs that make the uniform u in [0, 1)."""
    n = int(u * 9007199254740992.0)
    return [(n >> 26) << 5, (n & 0x3ffffff) << 6]


def crafted(d, kind):
    """A state whose next outputs are extreme."""
    import random
    r = random.Random(d)
    out = []
    while len(out) < 624:
        if kind == 'tiny':          # both coordinates next to the centre: values of about +-12
            u = [0.5 + r.choice([-1, 1]) * r.randrange(1, 8) * 2.0 ** -53 for _ in range(2)]
        elif kind == 'zero':        # one coordinate exactly zero
            u = [0.5, r.random()] if r.random() < 0.5 else [r.random(), 0.5]
        elif kind == 'edge':        # just inside and outside the unit circle
            a = r.random() * 2 * math.pi
            q = 1 + r.choice([-1, 1]) * 10.0 ** -r.randint(1, 15)
            u = [min(max((1 + q * math.cos(a)) / 2, 0), 1 - 2.0 ** -53), min(max((1 + q * math.sin(a)) / 2, 0), 1 - 2.0 ** -53)]
        else:                       # a mixture, with the centre (rejected) as well
            u = [r.choice([0.5, r.random(), 0.0, 1 - 2.0 ** -53, 0.5 + 2.0 ** -53]) for _ in range(2)]
        out += words(u[0]) + words(u[1])
    key = np.array([untemper(x) for x in out[:624]], dtype=np.uint32)
    return ('MT19937', key, 0, r.randint(0, 1), 0.0 if r.random() < 0.5 else r.choice([12.1, -11.9, 0.5]))


def call(c):
    return getattr(sim.sp, c['f'])(*c['a'], **c.get('kw', {}))


def refused(c):
    kw = c.get('kw', {})
    if c['f'] == 'random_coefs':
        n, m = c['a'][:2]
        return m > n or kw.get('coef_type', 0) not in (0, 1)
    return c['a'][1] % 2 == 1 or kw.get('patt_type', 0) not in (0, 1)


class Rand(base.Base):
    def run(self):
        case = self.case
        self.pristine = None
        seeds = sorted({op['seed'] for th in case['threads'] for op in th['ops'] if op['f'] == 'run'})
        want = self.elsewhere(seeds) if seeds else {}
        sim.alloc_on(0, 0xA5)
        sim.npsim.install()
        self.first = dict(want)
        self.seen = {}
        self.pool = {'re1': [], 'im1': [], 're2': [], 'im2': []}
        self.const = {}
        import random
        random.seed(case['seed'])
        self.simulate([('T%d' % i, self.body(i, th)) for i, th in enumerate(case['threads'])], case['sched'])
        if self.violation is None:
            self.trap(self.statistics)
            self.trap(self.differ)
        return self.result()

    # --------------------------------------------------------------- process
    def elsewhere(self, seeds):
        """What the calls give in a fresh process, per seed."""
        a, b = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(a)
                sim.alloc_on(0, 0x5A)
                sim.npsim.install()
                out = {s: self.sequence(s, 'seed', None) for s in seeds}
                w = os.fdopen(b, 'wb')
                pickle.dump(out, w)
                w.close()
            finally:
                os._exit(0)
        os.close(b)
        r = os.fdopen(a, 'rb')
        try:
            out = pickle.load(r)
        except EOFError:
            raise sim.HarnessError('reference process died')
        os.waitpid(pid, 0)
        return out

    def sequence(self, seed, via, state):
        if via == 'state' and state is not None:
            np.random.set_state(state)
        else:
            np.random.seed(seed)
        out = []
        for c in self.case['calls']:
            try:
                out.append(world.digest(call(c)))
            except Exception as e:
                out.append('raised ' + type(e).__name__)
        return out, world.digest([np.frombuffer(x, np.uint8) if isinstance(x, bytes) else x for x in world.rng_state()])

    # ---------------------------------------------------------------- callers
    def body(self, ti, th):
        def body(t):
            sim.npsim.install()
            own = {n: sim.make(s) for n, s in th.get('own', {}).items()}
            tracer = kernel.make_tracer(self.k, t)
            for i, op in enumerate(th['ops']):
                if self.violation:
                    return
                self.k.point()
                try:
                    self.step(ti, t, tracer, own, i, op)
                except base.Found:
                    return
        return body

    def step(self, ti, t, tracer, own, i, op):
        f = op['f']

        def bad(tags, text):
            self.report(tags, text, ti, op, i)
        self.count('op:' + f)
        if f == 'run':
            state = None
            if op['via'] == 'state':
                np.random.seed(op['seed'])
                state = np.random.get_state()
                np.random.random(7)
            how, r = traced_call(t, tracer, op, lambda: self.sequence(op['seed'], op['via'], state))
            if how == 'irq':
                self.count('fault:interrupt')
                return
            if how == 'exc':
                raise r
            if op.get('oom'):
                return
            self.note(r)
            w = self.first[op['seed']]
            if r[0] != w[0]:
                k = [x != y for x, y in zip(r[0], w[0])].index(True)
                c = self.case['calls'][k]
                bad('rand:repeat', '%s(%s) as call %d after seeding with %d gives another object here than in a fresh '
                    'process' % (c['f'], c['a'], k, op['seed']))
            if r[1] != w[1]:
                bad('rand:repeat', 'the generator ends in another state after the same seed and calls')
            return
        if f == 'craft':
            if not any(o['f'] == 'run' for th in self.case['threads'] for o in th['ops']):
                np.random.set_state(crafted(op['d'], op['kind']))
                self.crafted = True
                self.count('fault:crafted generator state')
            return
        if f not in ops.RANDOM:
            how, r = traced_call(t, tracer, op, lambda: ops.call(op, own.__getitem__))
            self.count('out:' + how)
            return
        L = sim.L
        f0 = L.sim_fired_me()
        if op.get('oom'):
            L.sim_fail(sim.ID_NP, op['oom'][1], op['oom'][2])
        try:
            how, r = traced_call(t, tracer, op, lambda: call(op))
        finally:
            L.sim_fail_clear()
        oom = L.sim_fired_me() - f0
        if oom:
            self.count('fault:failing allocation', oom)
        if how == 'irq':
            self.count('fault:interrupt')
        self.count('out:' + how)
        self.note(ti, i, f, how)
        if how == 'exc':
            if refused(op) or oom or t.irq_fired:
                return
            bad('rand:raise', '%s(%s, %s) raised %r' % (f, op['a'], op.get('kw', {}), r))
        elif how == 'ret':
            if refused(op):
                bad('rand:accept', '%s(%s, %s) answered arguments it must refuse' % (f, op['a'], op.get('kw', {})))
            else:
                e = self.wellformed(op, r)
                if e:
                    bad('rand:form', '%s(%s, %s): %s' % (f, op['a'], op.get('kw', {}), e))

    # ------------------------------------------------------------ one object
    def wellformed(self, op, o):
        kw = op.get('kw', {})
        k = sim.kind_of(o)
        # after reseeding or crafting, the same values may come again
        crafted = getattr(self, 'crafted', False) or bool(self.first)
        if op['f'] == 'random_coefs':
            n, m = op['a'][:2]
            vec = kw.get('coef_type', 0)
            mu, sg = kw.get('mu', 0.0), kw.get('sigma', 1.0)
            if len(op['a']) > 2:
                mu = op['a'][2]
            if len(op['a']) > 3:
                sg = op['a'][3]
            if k != ('sc', 'vc')[vec]:
                return 'result is a %s' % type(o).__name__
            if (o.nmax, o.mmax) != (n, m):
                return 'result has size (%r, %r)' % (o.nmax, o.mmax)
            c = sim.content(o)
            comps = [c.flat()] if not vec else [c.a.flat(), c.b.flat()]
            if vec:
                for s in (c.a, c.b):
                    if s.cols[0][0] != 0:
                        return 'the monopole is %r' % (s.cols[0][0],)
                i0 = sum(len(c.a.cols[q]) for q in range(-m, 0))
                comps = [np.delete(x, i0) for x in comps]
            extra = [x[:0] for x in comps]
        else:
            nr, nc = op['a'][:2]
            vec = kw.get('patt_type', 0)
            mu, sg = 0.0, 1.0
            if k != ('sp', 'vp')[vec]:
                return 'result is a %s' % type(o).__name__
            if (o.nrows, o.ncols) != (nr, nc):
                return 'result has size (%r, %r)' % (o.nrows, o.ncols)
            if not o.is_symmetric:
                return 'result is reported as not symmetric'
            c = sim.content(o)
            Ds = [(c.D, 1)] if not vec else [(c.T, -1), (c.P, -1)]
            for D, s in Ds:
                if D.shape != (2 * nr - 2, nc):
                    return 'double sphere of shape %s' % (D.shape,)
                if R.asymmetry(D, s) != 0:
                    return 'result is not symmetric'
            comps = [D[1:nr - 1].ravel() for D, _ in Ds]
            extra = [np.concatenate([D[0, :nc // 2], D[nr - 1, :nc // 2]]) for D, _ in Ds]
        for x in comps + extra:
            if x.size and not np.all(np.isfinite(x)):
                return 'a value is not finite'
            if x.dtype != np.complex128:
                return 'values of type %s' % x.dtype
        if sg == 0:
            for x in comps:
                if np.any(x != complex(mu, mu)):
                    return 'spread zero, but a value is %r' % (x[x != complex(mu, mu)][0],)
            return None
        if not crafted:
            for j, x in enumerate(comps):
                self.pool['re%d' % (j + 1)].append((x.real - mu) / sg)
                self.pool['im%d' % (j + 1)].append((x.imag - mu) / sg)
            v = np.concatenate([y for x in comps + extra for y in (x.real, x.imag)])
            if abs(mu) < 1e3 * sg:
                for a in np.abs(v - mu).round(17) if mu else np.abs(v):
                    a = float(a)
                    if a in self.seen:
                        return 'a value of magnitude %r was drawn before (%s)' % (a, self.seen[a])
                    self.seen[a] = '%s(%s)' % (op['f'], op['a'])
            self.count('values drawn', int(v.size))
        return None

    # --------------------------------------------------------------- at the end
    def statistics(self):
        """Mean, spread, shape and independence of everything drawn, at 6 sigma."""
        P = {k: np.concatenate(v) if v else np.zeros(0) for k, v in self.pool.items()}
        for k, x in P.items():
            n = x.size
            if n < 300:
                continue
            self.count('statistics')
            if abs(x.mean()) > 6 / math.sqrt(n):
                self.report('rand:stat', 'mean of the %s parts off by %.4f of the requested spread (%d values)' % (k, x.mean(), n))
            v = float(np.mean(x ** 2))
            if abs(v - 1) > (6 if n > 5000 else 8) * math.sqrt(2.0 / n):
                self.report('rand:stat', 'spread of the %s parts is %.4f of the requested one (%d values)' % (k, math.sqrt(v), n))
            for lim, p in ((0.5, 0.38292492), (1.0, 0.68268949), (2.0, 0.95449974), (3.0, 0.9973002)):
                q = float(np.mean(np.abs(x) < lim))
                if abs(q - p) > (6 if n > 5000 else 9) * math.sqrt(p * (1 - p) / n):
                    self.report('rand:stat', '%.4f of the %s parts lie within %.1f spreads instead of %.4f' % (q, k, lim, p))
            if n > 400000 and np.abs(x).max() < 4:
                self.report('rand:stat', 'no value beyond 4 spreads among %d' % n)
            y = x[:-1] * x[1:]
            if abs(y.mean()) > 7 / math.sqrt(n):
                self.report('rand:stat', 'neighbouring %s parts are correlated (%.4f)' % (k, y.mean()))
        for a, b in (('re1', 'im1'), ('re2', 'im2'), ('re1', 're2'), ('im1', 'im2'), ('re1', 'im2'), ('im1', 're2')):
            if '1' in a and '2' in b:
                # only objects with two components have both
                x = [(p, q) for p, q in zip(*self.both(a, b))]
                if not x:
                    continue
                x, y = np.concatenate([p for p, _ in x]), np.concatenate([q for _, q in x])
            else:
                x, y = P[a], P[b]
            n = x.size
            if n < 300:
                continue
            c = float(np.mean(x * y))
            if abs(c) > 7 / math.sqrt(n):
                self.report('rand:stat', '%s and %s are correlated (%.4f)' % (a, b, c))

    def both(self, a, b):
        A, B = self.pool[a], self.pool[b]
        if len(A) != len(B):
            return [], []
        return A, B

    def differ(self):
        """Other seeds give other objects."""
        ks = sorted(self.first)
        for i, c in enumerate(self.case['calls']):
            if refused(c):
                continue
            kw = c.get('kw', {})
            if kw.get('sigma', 1.0) == 0 or (c['f'] == 'random_coefs' and kw.get('coef_type') == 1 and c['a'][0] == 0):
                continue
            for a in ks:
                for b in ks:
                    if a < b and self.first[a][0][i] == self.first[b][0][i]:
                        self.report('rand:seed', '%s(%s) gives the same object for the seeds %d and %d' % (c['f'], c['a'], a, b))
            for j in range(i):
                for a in ks:
                    if self.first[a][0][i] == self.first[a][0][j]:
                        self.report('rand:seed', 'calls %d and %d in a row give the same object' % (j, i))


def run(case):
    return Rand(case).run()
