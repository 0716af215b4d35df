"""World engine: caller threads working on shared and private objects under the
simulated scheduler, with interrupts, failing allocations and backend switches.

A case is JSON:
 {"engine": "world", "prop": "C01", "seed": 1, "ext": "plain"|"hard",
  "alloc": {"mode": 0, "poison": 165}, "backend": true,
  "sched": {"seed": 1, "gap": 0.01} | {"switches": [[step, tid], ...]},
  "shared": {"S0": spec}, "threads": [{"own": {"A0": spec}, "ops": [op, ...]}],
  "toggle": 0, "probe": {...}}
An op: {"f", "a", "kw", ..., "out": slot, "irq": k, "oom": [site, k, persist],
        "tr": "line" | "op" | "no", "retry": true}
"""
import gc
import hashlib
import os
import pickle
import random
import struct
import sys

import numpy as np

from . import kernel, ops, sim

SITE = {'native': sim.ID_CSPHI, 'fft': sim.ID_FFT, 'array': sim.ID_NP}


class Found(Exception):
    """A violation that ends the run."""


def fam(f):
    return ops.FAMILY.get(f, 'misc')


# ------------------------------------------------------------------ digests
def digest(r, h=None):
    """Bits of a result."""
    top = h is None
    if top:
        h = hashlib.blake2b(digest_size=16)
    k = sim.kind_of(r)
    if k:
        h.update(k.encode())
        dcontent(sim.content(r), h)
    elif isinstance(r, np.ndarray):
        h.update(b'A%s%s' % (str(r.dtype).encode(), str(r.shape).encode()))
        h.update(r.tobytes())
    elif isinstance(r, (tuple, list)):
        h.update(b'T%d' % len(r))
        for x in r:
            digest(x, h)
    elif isinstance(r, (float, np.floating)):
        h.update(b'F' + struct.pack('<d', float(r)))
    elif isinstance(r, (complex, np.complexfloating)):
        h.update(b'C' + struct.pack('<dd', r.real, r.imag))
    elif isinstance(r, str):
        h.update(b'S' + r.encode())
    else:
        h.update(repr(r).encode())
    return h.hexdigest() if top else None


def dcontent(c, h):
    if c.kind == 'sc':
        h.update(b'%d,%d' % (c.nmax, c.mmax))
        for m in sim.ms(c.mmax):
            h.update(str(c.cols[m].dtype).encode())
            h.update(c.cols[m].tobytes())
    elif c.kind == 'vc':
        dcontent(c.a, h)
        dcontent(c.b, h)
    elif c.kind == 'sp':
        h.update(str(c.D.shape).encode() + c.D.tobytes())
    else:
        h.update(str(c.T.shape).encode() + c.T.tobytes() + c.P.tobytes())


def rng_state():
    s = np.random.get_state()
    return (s[1].tobytes(), s[2], s[3], s[4])


# ------------------------------------------------------------ pristine server
class Pristine(object):
    """A process forked before anything ran; every request is answered by a fresh
    fork of it."""

    def __init__(self, poison):
        a, b = os.pipe(), os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(a[1])
            os.close(b[0])
            try:
                self._serve(os.fdopen(a[0], 'rb'), os.fdopen(b[1], 'wb'), poison)
            finally:
                os._exit(0)
        os.close(a[0])
        os.close(b[1])
        self.w = os.fdopen(a[1], 'wb')
        self.r = os.fdopen(b[0], 'rb')

    def _serve(self, r, w, poison):
        while True:
            try:
                op, conts, backend = pickle.load(r)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    sim.alloc_on(0, poison)
                    sim.npsim.install()
                    sim.backend(backend)
                    objs = {k: sim.rebuild(c) for k, c in conts.items()}
                    d = outcome_digest(op, objs)
                except BaseException as e:
                    d = 'harness %s: %s' % (type(e).__name__, e)
                pickle.dump(d, w)
                w.flush()
                os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                pickle.dump('died %d' % st, w)
                w.flush()

    def ask(self, op, conts, backend):
        pickle.dump((op, conts, backend), self.w)
        self.w.flush()
        return pickle.load(self.r)

    def close(self):
        self.w.close()
        os.waitpid(self.pid, 0)


def outcome_digest(op, objs):
    try:
        r = ops.call(op, objs.__getitem__)
    except Exception as e:
        return 'raised ' + type(e).__name__
    return digest(r)


# --------------------------------------------------------------------- world
class World(object):
    def __init__(self, case):
        self.case = case
        self.prop = case['prop']
        self.relevant = RELEVANT[self.prop]
        self.violation = None
        self.other = {}
        self.st = {}
        self.log = hashlib.blake2b(digest_size=16)
        self.shared, self.sconts = {}, {}
        self.recs = []
        self.truth = {}
        self.probe = case.get('probe', {})
        self.live_ops = 0
        self.nviews = 0
        self.kths = {}

    def count(self, k, n=1):
        self.st[k] = self.st.get(k, 0) + n

    def report(self, tag, text, t=None, op=None, i=None):
        if tag not in self.relevant and tag.split(':')[0] not in self.relevant:
            self.other[tag] = self.other.get(tag, 0) + 1
            return
        if self.violation is None:
            self.violation = {'tag': tag, 'text': text, 'thread': t, 'index': i,
                              'op': op and op.get('f')}
        raise Found()

    # ------------------------------------------------------------------ run
    def run(self):
        case = self.case
        al = case.get('alloc', {})
        self.poison = al.get('poison', 0xA5)
        sim.backend(case.get('backend', True))
        sch = case['sched']
        self.k = kernel.Kernel(seed=sch.get('seed', 0), gap=sch.get('gap', 0.0),
                               switches=sch.get('switches'), max_steps=case.get('max_steps', 3000000))
        pristine = None
        if self.probe.get('pristine'):
            pristine = Pristine(self.probe.get('poison2', 0x5A))
        sim.alloc_on(al.get('mode', 0), self.poison)
        sim.npsim.install()
        for name, spec in case['shared'].items():
            o = sim.make(spec)
            self.shared[name], self.sconts[name] = o, sim.content(o)
            self.remember(name, spec)
        self.common = None
        if case.get('common'):
            self.common = sim.make(case['common'])
            self.places = {k: [v] for k, v in places(sim.content(self.common)).items()}
        for i, th in enumerate(case['threads']):
            self.k.spawn(self.body(i, th), 'T%d' % i)
        if case.get('toggle'):
            self.k.spawn(self.toggler(case['toggle']), 'toggler')
        if case.get('fpert'):
            np.seterr(all='ignore')
        try:
            self.k.run()
        except Found:
            pass
        except kernel.SimDeadlock:
            self.trap('hang', 'all callers wait for each other')
        except kernel.SimStepLimit:
            self.trap('hang', 'no end after %d steps' % self.k.step)
        if self.violation is None:
            self.trapcall(self.final, pristine)
        if pristine:
            pristine.close()
        self.count('steps', self.k.step)
        self.count('switches', len(self.k.taken))
        self.count('runs')
        self.count('threads', len(case['threads']))
        out = {'st': self.st, 'digest': self.log.hexdigest(), 'taken': self.k.taken,
               'pairs': [hash_pair(p) for p in sorted(self.k.pairs, key=repr)], 'other': self.other}
        if self.violation:
            out['violation'] = self.violation
        return out

    def remember(self, name, spec):
        if spec['t'] in ('bsp', 'bvp'):
            from . import refmodel as R
            n = sim.ncoef(spec['n'], spec['m'])
            mo = R.modes(spec['n'], spec['m'])
            k = spec.get('k', 'normal')
            v1 = dict(zip(mo, sim.data(spec['d'], n, k)))
            if spec['t'] == 'bsp':
                self.truth[name] = v1
            else:
                v2 = dict(zip(mo, sim.data(spec['d'] + 1000003, n, k)))
                v1[(0, 0)] = v2[(0, 0)] = 0j
                self.truth[name] = (v1, v2)

    def trap(self, tag, text):
        try:
            self.report(tag, text)
        except Found:
            pass

    def trapcall(self, f, *a):
        try:
            f(*a)
        except Found:
            pass

    def flip(self):
        sim.backend(not sim.backend())
        self.count('fault:backend switch')

    def toggler(self, n):
        def body(t):
            for i in range(n):
                sim.backend(not sim.backend())
                self.count('fault:backend switch')
                self.k.step += 1
                # stay out of the way until preempted back in
                for _ in range(3):
                    self.k.point()
        return body

    def body(self, ti, th):
        def body(t):
            sim.npsim.install()
            own, conts = {}, {}
            for name, spec in th.get('own', {}).items():
                o = sim.make(spec)
                own[name], conts[name] = o, sim.content(o)
                self.remember('%d.%s' % (ti, name), spec)
            tracer = kernel.make_tracer(self.k, t)
            for i, op in enumerate(th['ops']):
                if self.violation:
                    return
                self.k.point()
                try:
                    self.step(ti, t, tracer, own, conts, i, op)
                except Found:
                    return
        return body

    # ------------------------------------------------------------- one call
    def invoke(self, t, tracer, op, get, faults=True):
        """-> (outcome, value): 'ret', 'exc', 'irq', 'oom'."""
        L = sim.L
        f0 = L.sim_fired_me()
        t.irq_fired = False
        if faults and op.get('oom'):
            site, k, p = op['oom']
            L.sim_fail(SITE[site], self.kth(op, get), p)
        mode = op.get('tr', 'line')
        if faults and op.get('irq'):
            t.irq_at = t.lines + op['irq']
        # an exception raised from an opcode event is not safe in CPython 3.12
        t.opcodes = mode == 'op' and not t.irq_at
        t.top, t.toplines, t.at_top = None, 0, None
        if faults and op.get('top') and mode != 'no':
            t.at_top = {k: self.flip if a == 'tog' else a for k, a in op['top'] if a != 'irq' or mode != 'op'}
        try:
            if mode != 'no':
                sys.settrace(tracer)
            try:
                r = ops.call(op, get)
            finally:
                sys.settrace(None)
                L.sim_fail_clear()
                t.irq_at = t.top = t.at_top = None
        except kernel.SimInterrupt:
            self.count('fault:interrupt')
            return 'irq', None
        except (kernel.SimStepLimit, kernel.SimDeadlock, sim.HarnessError):
            raise
        except Exception as e:
            oom = L.sim_fired_me() - f0
            if oom:
                self.count('fault:allocation (%s)' % op['oom'][0], oom)
            e.__traceback__ = None
            return ('oom' if oom else 'exc'), e
        oom = L.sim_fired_me() - f0
        if oom:
            self.count('fault:allocation (%s)' % op['oom'][0], oom)
            return 'oomret', r
        if t.irq_fired:
            return 'irqret', r
        return 'ret', r

    def step(self, ti, t, tracer, own, conts, i, op):
        f = op['f']
        if f == 'backend':
            sim.backend(op['v'])
            return
        if f == 'common':
            return self.common_step(ti, t, tracer, i, op)
        names = [x[1:] for x in op.get('a', ()) if isinstance(x, str) and x.startswith('$')]
        A = []
        for x in op.get('a', ()):
            if isinstance(x, str) and x.startswith('$'):
                n = x[1:]
                c = conts.get(n) or self.sconts.get(n)
                if c is None:
                    return          # operand never came to be
                A.append(c)
            else:
                A.append(sim.num(x))
        if op.get('ks') and op['ks'] != [c.kind for c in A if hasattr(c, 'kind')]:
            return
        if f in ops.MUTATORS and (not names or names[0] not in own):
            return

        def get(n):
            return own[n] if n in own else self.shared[n]
        mop = op
        if f in ('spht', 'vspht', 'spht_slow'):
            n0 = names[0]
            tr = self.truth.get('%d.%s' % (ti, n0)) if n0 in own else self.truth.get(n0)
            if tr is not None:
                mop = dict(op)
                mop['_truth'] = tr
        exp = ops.expect(mop, A)
        if f in ops.RANDOM:
            np.random.seed(op['d'])
        rs = rng_state()
        if self.probe.get('leak'):
            live0 = (sim.L.sim_live(sim.ID_CSPHI),)
        be = sim.backend()
        how, r = self.invoke(t, tracer, op, get)
        self.count('op:' + f)
        self.count('out:' + how)
        ctx = (ti, op, i)

        def bad(tag, text):
            self.report(tag, text, *ctx)
        F = fam(f)
        self.log.update(('%d %d %s %s;' % (ti, i, f, how)).encode())
        if how == 'ret' and r is not None:
            try:
                self.log.update(digest(r).encode())
            except Exception:
                pass
        if f not in ops.RANDOM and rng_state() != rs:
            bad('rng', '%s changed the state of the random generator' % f)
        # ---- outcome
        res_c = None
        if how in ('ret', 'oomret', 'irqret'):
            if isinstance(r, BaseException):
                bad('value:' + F, '%s returned the exception %r' % (f, r))
            k = sim.kind_of(r)
            if k:
                try:
                    res_c = sim.content(r)
                except Exception as e:
                    bad('value:' + F, 'result of %s cannot be read: %r' % (f, e))
                    r = None
            if exp.refuse:
                bad('accept:' + F, '%s answered arguments it must refuse: %s' % (f, show(op, A)))
            elif exp.check is not None and r is not None:
                try:
                    e = exp.check(r)
                except sim.HarnessError:
                    raise
                except Exception as x:
                    e = 'result cannot be read: %r' % (x,)
                if e:
                    tag = 'value:' + F
                    if how == 'oomret':
                        bad('oom', '%s with a failing allocation returned a wrong result: %s' % (f, e))
                    bad(tag, '%s: %s; %s' % (show(op, A), e, 'after a failed call' if op.get('retry') else ''))
        elif isinstance(r, ops.OperandChanged):
            bad('argmod', str(r))
        elif how == 'exc':
            if not (exp.refuse or exp.may_refuse or exp.free):
                if not t.irq_fired:
                    bad('raise:' + F, '%s raised %s: %s' % (show(op, A), type(r).__name__, r))
            elif exp.refuse and isinstance(r, MemoryError):
                bad('raise:' + F, '%s ran out of memory instead of refusing' % show(op, A))
        elif how == 'oom':
            if not isinstance(r, MemoryError) and not exp.refuse and not exp.free:
                bad('oom', '%s with a failing %s allocation raised %s: %s' % (
                    show(op, A), op['oom'][0], type(r).__name__, r))
        # ---- the target of an in-place operation
        tgt = None
        if f in ops.MUTATORS:
            tgt = names[0]
            try:
                now = sim.content(own[tgt])
            except Exception as e:
                bad('value:' + F, '%s left its target unreadable: %r' % (f, e))
                del own[tgt], conts[tgt]
                now = None
            if now is not None:
                old = conts[tgt]
                if how == 'ret' and exp.new is not None:
                    if not inplace_ok(f, now, exp.new):
                        bad('value:' + F, '%s: %s' % (show(op, A), where_diff(now, exp.new)))
                elif how in ('irq', 'irqret', 'oom', 'oomret') and exp.new is not None:
                    e = partial(old, now, exp.new)
                    if e:
                        bad('value:' + F, 'interrupted %s: %s' % (show(op, A), e))
                elif (how == 'exc' or exp.refuse) and not exp.free:
                    if not now.same(old):
                        bad('value:' + F, 'refused %s changed the object: %s' % (show(op, A), where_diff(now, old)))
                conts[tgt] = now
                self.truth.pop('%d.%s' % (ti, tgt), None)
        # ---- nothing else may have changed
        self.unchanged(own, conts, tgt, 'in %s%s' % (f, '' if how == 'ret' else ' (%s)' % how), bad,
                       oom=how in ('oom', 'oomret'))
        # ---- probes
        if self.probe.get('views') and (self.nviews % 3 or tgt):
            n = tgt if tgt in own else names[0] if names and names[0] in own else None
            if n is not None:
                self.views(own[n], conts[n], 'after %s%s' % (f, '' if how == 'ret' else ' (%s)' % how), bad)
        self.nviews += 1
        if how == 'ret' and k_or_array(r) and self.probe.get('poke') and not ops.exempt(f):
            self.poke(r, own, conts, f, bad)
        if self.probe.get('leak'):
            if sim.L.sim_live(sim.ID_CSPHI) != live0[0] or how in ('oom', 'oomret') or op.get('leak'):
                self.leak(op, get, bad, how)
                if tgt in own:
                    conts[tgt] = sim.content(own[tgt])
        if how in ('oom', 'oomret') and f not in ops.MUTATORS and self.probe.get('leak'):
            h2, r2 = self.invoke(t, tracer, dict(op, tr='no'), get, faults=False)
            self.count('retries')
            if h2 != 'ret':
                if not (exp.refuse or exp.may_refuse or exp.free):
                    bad('oom', '%s repeated with memory available raised %r' % (show(op, A), r2))
            elif exp.check is not None:
                e = exp.check(r2)
                if e:
                    bad('oom', '%s repeated with memory available: %s' % (show(op, A), e))
        if self.probe.get('twice') and how in ('ret', 'exc') and f in ops.TRANSFORMS:
            got = []
            for p in (self.poison, self.poison ^ 0xFF):
                sim.alloc_on(self.case['alloc'].get('mode', 0), p)
                h2, r2 = self.invoke(t, tracer, dict(op, tr='no'), get, faults=False)
                got.append((h2, digest(r2) if h2 == 'ret' else None))
            sim.alloc_on(self.case['alloc'].get('mode', 0), self.poison)
            if got[0] != got[1]:
                bad('mem', '%s: the result depends on what fresh memory contains' % show(op, A))
        if self.probe.get('backends') and f in ops.TRANSFORMS and how in ('ret', 'exc'):
            self.backends(t, tracer, op, A, get, how, r, bad)
        if self.probe.get('memcheck'):
            e = sim.L.sim_check().decode()
            if e:
                bad('mem', '%s: %s' % (show(op, A), e))
        if self.probe.get('pristine') and how in ('ret', 'exc') and f not in ops.MUTATORS and be == sim.backend():
            if op.get('tr') != 'no' or len(self.recs) < 40:
                cs = {n: c for n, c in zip(names, [a for a in A if hasattr(a, 'kind')])}
                self.recs.append((op, cs, be, digest(r) if how == 'ret' else 'raised ' + type(r).__name__))
        # ---- keep the result
        if op.get('out') and r is not None and how in ('ret', 'irqret', 'oomret'):
            if sim.kind_of(r):
                own[op['out']] = r
                conts[op['out']] = sim.content(r)
                self.truth.pop('%d.%s' % (ti, op['out']), None)

    def unchanged(self, own, conts, tgt, when, bad, oom=False):
        for pool, cs in ((self.shared, self.sconts), (own, conts)):
            for n in list(pool):
                if pool is own and n == tgt:
                    continue
                try:
                    now = sim.content(pool[n])
                    same = now.same(cs[n])
                    e = None if same else where_diff(now, cs[n])
                except sim.HarnessError:
                    raise
                except Exception as x:
                    same, e, now = False, 'cannot be read: %r' % (x,), None
                if not same:
                    if oom:
                        bad('oom', '%s %s changed %s: %s' % (cs[n].brief(), n, when, e))
                    bad('mutated:' + cs[n].kind, '%s %s changed %s: %s' % (cs[n].brief(), n, when, e))
                    if now is not None:
                        cs[n] = now
                    else:
                        del pool[n], cs[n]

    def views(self, o, c, when, bad):
        """Rows, columns and single values of one object must all show its contents."""
        if c.kind not in ('sc', 'vc') or c.nmax > 12:
            return
        self.count('views')
        comps = [(c, lambda *a: o[a])] if c.kind == 'sc' else [
            (c.a, lambda *a: o[a][0]), (c.b, lambda *a: o[a][1])]
        forth = range(c.nmax + 1) if self.nviews % 2 else range(c.nmax, -1, -1)
        try:
            for k, (x, get) in enumerate(comps):
                for n in forth:
                    if c.kind == 'vc' and n == 0:
                        continue
                    mm = min(n, x.mmax)
                    ref = [x.cols[m][n - abs(m)] for m in range(-mm, mm + 1)]
                    row = get(n, slice(None))
                    if not same_list(row, ref):
                        bad('value:cont', 'row %d of %s read %s is %s instead of %s' % (n, c.brief(), when, list(row), ref))
                    one = [get(n, m) for m in range(-mm, mm + 1)] if (n + k + self.nviews) % 3 == 0 else ref
                    if not same_list(one, ref):
                        bad('value:cont', 'values of degree %d of %s read %s are %s instead of %s' % (n, c.brief(), when, one, ref))
        except (Found, sim.HarnessError):
            raise
        except Exception as e:
            bad('value:cont', '%s cannot be read %s: %r' % (c.brief(), when, e))

    def poke(self, r, own, conts, f, bad):
        """Overwrites the whole result and looks whether anything else shows it."""
        self.count('pokes')
        k = sim.kind_of(r)
        val = -7.25
        if k == 'sc':
            keep = sim.content(r)
            for m in sim.ms(r.mmax):
                r[:, m] = np.full(len(keep.cols[m]), val, dtype=keep.cols[m].dtype)
        elif k == 'vc':
            keep = sim.content(r)
            for s, c in ((r.scoef1, keep.a), (r.scoef2, keep.b)):
                for m in sim.ms(r.mmax):
                    s[:, m] = np.full(len(c.cols[m]), val, dtype=c.cols[m].dtype)
            # the two components of one object
            d = sim.content(r)
            for m in sim.ms(r.mmax):
                r.scoef1[:, m] = keep.a.cols[m]
            if not sim.content(r.scoef2).same(d.b):
                bad('alias', 'the two coefficient sets of the result of %s share storage' % f)
            for m in sim.ms(r.mmax):
                r.scoef1[:, m] = d.a.cols[m]
        elif k == 'sp':
            keep = sim.content(r)
            if r.doublesphere.flags.writeable:
                r.doublesphere[...] = val
        elif k == 'vp':
            keep = sim.content(r)
            a, b = r.doublesphere
            a[...] = val
            if np.any(b == val) and not np.array_equal(b, keep.P, equal_nan=True):
                bad('alias', 'the two components of the result of %s share storage' % f)
            b[...] = val
        else:
            keep = r.copy()
            if r.flags.writeable:
                r[...] = val
        try:
            self.unchanged(own, conts, None, 'by editing the result of %s' % f,
                           lambda tag, text: bad('alias', text))
        finally:
            if k == 'sc':
                for m in sim.ms(r.mmax):
                    r[:, m] = keep.cols[m]
            elif k == 'vc':
                for s, c in ((r.scoef1, keep.a), (r.scoef2, keep.b)):
                    for m in sim.ms(r.mmax):
                        s[:, m] = c.cols[m]
            elif k == 'sp':
                r.doublesphere[...] = keep.D
            elif k == 'vp':
                r.doublesphere[0][...] = keep.T
                r.doublesphere[1][...] = keep.P
            elif r.flags.writeable:
                r[...] = keep

    def leak(self, op, get, bad, how):
        """Repeats the call (with its fault) and watches live memory."""
        L = sim.L
        self.count('leak probes')
        seen = []
        for _ in range(4):
            self.again(op, get)
            gc.collect()
            seen.append((L.sim_live(0), L.sim_live(1), L.sim_live(2)))
        for j, nm in enumerate(('native work areas', 'FFT work areas', 'arrays')):
            s = [x[j] for x in seen]
            if s[3] > s[2] > s[1] > s[0]:
                text = '%s%s leaves %d %s allocated at every call' % (
                    op['f'], ' (failing allocation)' if op.get('oom') else '', s[3] - s[2], nm)
                if op.get('oom') and how in ('oom', 'oomret'):
                    bad('oom', text)
                bad('mem', text)

    def again(self, op, get):
        L = sim.L
        if op.get('oom'):
            L.sim_fail(SITE[op['oom'][0]], self.kth(op, get), op['oom'][2])
        try:
            ops.call(op, get)
        except Exception as e:
            e.__traceback__ = None
        finally:
            L.sim_fail_clear()

    def kth(self, op, get):
        """Which allocation of the call fails; a fraction means at that point of
        all the allocations of an undisturbed call, which is made first."""
        site, k, _ = op['oom']
        if not isinstance(k, float):
            return k
        if op['f'] in ops.MUTATORS:
            return max(1, int(k * 12))
        if id(op) not in self.kths:
            rs = np.random.get_state()
            L = sim.L
            n0 = L.sim_req(SITE[site])
            try:
                ops.call(op, get)
            except Exception as e:
                e.__traceback__ = None
            n = L.sim_req(SITE[site]) - n0
            np.random.set_state(rs)
            self.kths[id(op)] = (op, 1 + int(k * n))
        return self.kths[id(op)][1]

    def backends(self, t, tracer, op, A, get, how, r, bad):
        self.count('backend pairs')
        keep = sim.backend()
        res = []
        try:
            for v in (True, False):
                sim.backend(v)
                res.append(self.invoke(t, tracer, dict(op, tr='no'), get, faults=False))
            f2 = {'spht': 'spht_slow', 'ispht': 'ispht_slow'}.get(op['f'])
            if f2 and how == 'ret':
                if f2 == 'spht_slow':
                    a = [op['a'][0], r.nmax, r.mmax]
                else:
                    a = [op['a'][0], r.nrows, r.ncols]
                res.append(self.invoke(t, tracer, {'f': f2, 'a': a, 'tr': 'no'}, get, faults=False))
            elif f2 and not isinstance(r, MemoryError) and len(op['a']) == 3 and None not in op['a']:
                res.append(self.invoke(t, tracer, {'f': f2, 'a': op['a'], 'tr': 'no'}, get, faults=False))
            elif op['f'].endswith('_slow') and not isinstance(r, MemoryError):
                res.append(self.invoke(t, tracer, dict(op, f=op['f'][:-5], tr='no'), get, faults=False))
        finally:
            sim.backend(keep)
        names = ('native', 'Python', 'default' if op['f'].endswith('_slow') else 'explicitly Python')
        res = [(how, r)] + res
        for i in range(1, len(res)):
            h, v = res[i]
            if (h == 'ret') != (how == 'ret'):
                bad('backend', '%s: %s, but the %s backend %s' % (
                    show(op, A), 'returned' if how == 'ret' else 'refused (%r)' % (r,), names[i - 1],
                    'returned' if h == 'ret' else 'raised %r' % (v,)))
                return
            if h == 'ret':
                e = ops.same_values(op, A, r, v)
                if e:
                    bad('backend', '%s: differs from the %s backend: %s' % (show(op, A), names[i - 1], e))

    # ------------------------------------------------------------ at the end
    def common_step(self, ti, t, tracer, i, op):
        """One caller assigns places of the common object that nobody else assigns."""
        def bad(text):
            self.report('value:cont', 'set filled by several callers: ' + text, ti, op, i)
        o, k, d = self.common, op['k'], None
        vec = sim.kind_of(o) == 'vc'
        n, m = op['n'], op.get('m')
        if k == 'set':
            v = sim.data(op['d'], 2)
            new = {(n, m, 0): v[0], (n, m, 1): v[1]} if vec else {(n, m, 0): v[0]}
            key, val = (n, m), (v[0], v[1]) if vec else v[0]
        elif k == 'row':
            mm = sim.ms(min(n, o.mmax))
            val = sim.data(op['d'], len(mm))
            new = {(n, a, 0): x for a, x in zip(mm, val)}
            key = (n, slice(None))
        else:
            nn = range(abs(m), o.nmax + 1)
            val = sim.data(op['d'], len(nn))
            new = {(a, m, 0): x for a, x in zip(nn, val)}
            key = (slice(None), m)

        how, r = self.invoke(t, tracer, dict(op, key=key, val=val), lambda n: o)
        self.count('op:common')
        self.log.update(('%d %d common %s;' % (ti, i, how)).encode())
        for p, x in new.items():
            if how == 'ret':
                self.places[p] = [x]
            else:
                self.places[p] = self.places[p] + [x]
        if how == 'exc':
            bad('assignment to %r raised %r' % (key, r))
        # what is there now was put there by this caller
        now = places(sim.content(o))
        for p in new:
            if now[p] not in self.places[p]:
                bad('%r reads %r, assigned was %r' % (p, now[p], self.places[p][-1]))

    def final(self, pristine):
        def bad(tag, text):
            self.report(tag, text)
        if self.common is not None:
            now = places(sim.content(self.common))
            for p, v in now.items():
                if v not in self.places[p]:
                    bad('value:cont', 'set filled by several callers: in the end %r holds %r, assigned was %r' % (
                        p, v, self.places[p][-1]))
        self.unchanged({}, {}, None, 'by the end of the run', bad)
        e = sim.L.sim_check().decode()
        if e:
            bad('mem', e)
        if pristine and self.recs:
            r = random.Random(self.case['seed'] * 31 + 5)
            recs = list(self.recs)
            r.shuffle(recs)
            for op, cs, be, d in recs[:self.probe['pristine']]:
                self.count('pristine re-executions')
                clean = {k: v for k, v in op.items() if k not in ('irq', 'oom', 'tr')}
                w = pristine.ask(clean, cs, be)
                if w.startswith('harness'):
                    raise sim.HarnessError(w)
                if w != d:
                    self.report('nondet', '%s gives %s here and %s in a fresh process' % (
                        show(op, list(cs.values())), d, w), op=op)


def places(c):
    """{(n, m, component): value} of a coefficient content."""
    out = {}
    for i, s in enumerate((c.a, c.b) if c.kind == 'vc' else (c,)):
        for m, col in s.cols.items():
            for j, v in enumerate(col):
                out[(abs(m) + j, m, i)] = complex(v)
    return out


def same_list(a, b):
    return len(a) == len(b) and all(x == y or (x != x and y != y) for x, y in zip(a, b))


def k_or_array(r):
    return sim.kind_of(r) is not None or isinstance(r, np.ndarray)


def hash_pair(p):
    return hashlib.blake2b(repr(p).encode(), digest_size=6).hexdigest()


def show(op, A):
    out = []
    it = iter(A)
    for x in op.get('a', ()):
        if isinstance(x, str) and x.startswith('$'):
            c = next(it, None)
            while c is not None and not hasattr(c, 'brief'):
                c = next(it, None)
            out.append(c.brief() if c is not None else x)
        else:
            out.append(repr(sim.num(x)))
    out += ['%s=%r' % kv for kv in op.get('kw', {}).items()]
    return '%s(%s)' % (op['f'], ', '.join(out))


def inplace_ok(f, now, new):
    if f == 'window':
        return ops.content_close(now, new, 1e-14) and True
    return ops.content_eq(now, new)


def arrays_of(c):
    if c.kind == 'sc':
        return [('m=%d' % m, c.cols[m]) for m in sim.ms(c.mmax)]
    if c.kind == 'vc':
        return [('1 ' + a, b) for a, b in arrays_of(c.a)] + [('2 ' + a, b) for a, b in arrays_of(c.b)]
    if c.kind == 'sp':
        return [('', c.D)]
    return [('theta', c.T), ('phi', c.P)]


def where_diff(now, ref):
    if now.kind != ref.kind:
        return 'became a %s' % now.kind
    for (n, a), (_, b) in zip(arrays_of(now), arrays_of(ref)):
        if a.shape != b.shape:
            return '%s changed shape' % n
        d = ~((a == b) | ((a != a) & (b != b)))
        if np.any(d):
            i = np.argwhere(d)[0]
            return 'value %s %s is %r instead of %r' % (
                n, tuple(int(x) for x in i), a[tuple(i)], b[tuple(i)])
    if now.brief() != ref.brief():
        return 'size %s instead of %s' % (now.brief(), ref.brief())
    return 'bits differ (dtype or sign of zero)'


def partial(old, now, new):
    """Every element old or new."""
    if now.kind != old.kind:
        return 'changed kind'
    for (n, a), (_, b), (_, c) in zip(arrays_of(now), arrays_of(old), arrays_of(new)):
        if a.shape != b.shape:
            return 'changed shape'
        with np.errstate(all='ignore'):
            ok = (a == b) | (a == c) | ((a != a) & ((b != b) | (c != c))) | \
                (np.abs(a - c) <= 1e-13 * np.abs(c))
        if not np.all(ok):
            i = tuple(np.argwhere(~ok)[0])
            return 'element %s %s is %r, neither the old %r nor the new %r' % (
                n, tuple(int(x) for x in i), a[i], b[i], c[i])
    return None


ALWAYS = {'hang'}
RELEVANT = {
    'C01': {'value:st', 'accept:st', 'raise:st'},
    'C02': {'value:vt', 'accept:vt', 'raise:vt'},
    'C03': {'nondet', 'rng'},
    'C04': {'mutated', 'alias', 'argmod'},
    'C05': {'backend', 'value:nat', 'accept:nat', 'raise:nat'},
    'C06': {'store'},
    'C07': {'io'},
    'C08': {'torn'},
    'C09': {'oom'},
    'C10': {'mem', 'accept:nat', 'raise:nat'},
    'C11': {'value:cont', 'accept:cont', 'raise:cont', 'mutated:sc', 'mutated:vc'},
    'C12': {'value:arith', 'value:norm', 'accept:arith', 'accept:norm', 'raise:arith', 'raise:norm'},
    'C14': {'rand'},
    'C15': {'plot', 'value', 'accept', 'raise', 'rng', 'mutated'},
    'C16': {'verify'},
    'C19': {'geom', 'plot:draw'},
    'C17': {'value:bess', 'raise:bess'},
    'C18': {'value:tab', 'raise:tab'},
    'C13': {'value:patt', 'accept:patt', 'raise:patt', 'mutated:sp', 'mutated:vp', 'symm'},
}
for _v in RELEVANT.values():
    _v |= ALWAYS


def run(case):
    return World(case).run()
