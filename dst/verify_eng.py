"""Verification engine: callers comparing stored coefficient and pattern files, which
other steps replace, alter or tear, on simulated storage.

Ops: {"f": "put", "n": file, "src": spec, "what": "coef"|"patt"|"c1"|"c2"|"th"|"ph"|"fdata"}
     {"f": "alter", "n": file, "x": fraction, "v": [re, im], "mtime": 1}
     {"f": "tear", ...}  as in dst/disk.py
     {"f": "check", "w": "spht"|"ispht"|"vspht"|"vispht"|"fdata", "n": [files], "io", "irq", "oom"}
"""
import os

import numpy as np

from . import base, disk, ops, refmodel as R, sim


class File(object):
    def __init__(self, kind, shape, data, truth=None):
        self.kind = kind            # coef, patt
        self.shape = shape
        self.data = data            # in the order of the records
        self.truth = truth          # the band-limited data it came from
        self.bytes = b''


def order(nmax, mmax):
    """(n, m) of each record of a coefficient file."""
    out = []
    for m in sim.storage_order(mmax):
        out += [(n, m) for n in range(abs(m), nmax + 1)]
    return out


def text(f):
    out = ['%d,%d\n' % f.shape]
    if f.kind == 'coef':
        for z in f.data:
            out.append('%.16e,%.16e\n' % (z.real, z.imag))
    else:
        c = f.shape[1]
        for i, z in enumerate(f.data):
            out.append('%d,%d,%.16e,%.16e\n' % (i // c, i % c, z.real, z.imag))
    return ''.join(out).encode()


def parse(kind, b):
    """The data of a complete file, or None."""
    try:
        ls = b.decode().split('\n')
        a, c = (int(x) for x in ls[0].split(','))
        recs = [x for x in ls[1:] if x]
        if kind == 'coef':
            if not 0 <= c <= a or len(recs) != sim.ncoef(a, c):
                return None
            return (a, c), np.array([complex(*(float(y) for y in x.split(','))) for x in recs])
        D = np.full(a * c, np.nan, dtype=np.complex128)
        if len(recs) != a * c:
            return None
        for x in recs:
            i, j, re, im = x.split(',')
            D[int(i) * c + int(j)] = complex(float(re), float(im))
        return (a, c), D
    except (ValueError, TypeError, IndexError, UnicodeDecodeError):
        return None


def whole(f, sym):
    """Double-sphere data of a pattern whose pole rows are consistent."""
    D = R.double(f, sym)
    h = f.shape[1] // 2
    for n in (0, f.shape[0] - 1):
        D[n] = (f[n] + sym * np.roll(f[n], -h)) / 2
    return D


class Verify(disk.Disk):
    def run(self):
        self.files = {}
        return disk.Disk.run(self)

    def step(self, ti, t, tracer, i, op):
        f = op['f']

        def bad(tags, text):
            self.report(tags, text, ti, op, i)
        self.count('op:' + f)
        if f == 'put':
            self.put(op)
        elif f == 'alter':
            self.alter(op)
        elif f == 'tear':
            self.damage(op)
        elif f == 'check':
            self.check(ti, t, tracer, op, bad)
        self.note(ti, i, f)

    # ------------------------------------------------------------- the files
    def put(self, op):
        s, w = op['src'], op['what']
        n, m, r, c = s['n'], s['m'], s['r'], s['c']
        mo = R.modes(n, m)
        k = s.get('k', 'normal')
        q = sim.ncoef(n, m)
        v1 = dict(zip(mo, sim.data(s['d'], q, k)))
        v2 = dict(zip(mo, sim.data(s['d'] + 1000003, q, k)))
        vec = w in ('c1', 'c2', 'th', 'ph')
        if vec:
            v1[(0, 0)] = v2[(0, 0)] = 0j
        if w in ('coef', 'c1', 'c2'):
            v = v2 if w == 'c2' else v1
            f = File('coef', (n, m), np.array([v[x] for x in order(n, m)]))
        elif w == 'fdata':
            D = whole(R.synth(v1, n, m, r, c), 1)
            f = File('patt', D.shape, (np.fft.fft2(D) / D.size).ravel())
        elif vec:
            p = R.vsynth(v1, v2, n, m, r, c)[w == 'ph']
            f = File('patt', (r, c), p.ravel(), (s['d'], k, n, m))
        else:
            f = File('patt', (r, c), R.synth(v1, n, m, r, c).ravel(), (s['d'], k, n, m))
            f.vals = v1
        f.vals = (v1, v2)
        f.what = w
        f.bytes = text(f)
        self.store(op, f)

    def store(self, op, f):
        p = self.path(op['n'])
        st = os.stat(p) if op.get('mtime') and os.path.exists(p) else None
        with open(p, 'wb') as h:
            h.write(f.bytes)
        if st is not None:
            os.utime(p, ns=(st.st_atime_ns, st.st_mtime_ns))
            self.count('fault:replaced with the old time stamp')
        self.files[op['n']] = f

    def alter(self, op):
        f = self.files.get(op['n'])
        if f is None or f.data is None or not len(f.data):
            return
        n = len(f.data)
        i = min(n - 1, int(op['x'] * n))
        data = f.data.copy()
        d = complex(*op['v'])
        if f.kind == 'coef':
            if f.what in ('c1', 'c2') and i == 0:
                i = min(1, n - 1)
                if i == 0:
                    return
            data[i] += d
        elif f.what == 'fdata':
            data[i] += d
        else:
            r, c = f.shape
            a, b = i // c, i % c
            data[i] += d
            if a in (0, r - 1):         # keep the pole consistent
                j = a * c + (b + c // 2) % c
                data[j] += d if f.what == 'patt' else -d
                if j == i:
                    return
        g = File(f.kind, f.shape, data)
        g.vals, g.what = f.vals, f.what
        g.bytes = text(g)
        self.count('fault:altered value')
        self.store(op, g)

    def damage(self, op):
        f = self.files.get(op['n'])
        if f is None:
            return
        self.tear(op)
        b = open(self.path(op['n']), 'rb').read()
        if b == f.bytes:
            return
        p = parse(f.kind, b)
        g = File(f.kind, *(p if p else (None, None)))
        g.vals, g.what, g.bytes = f.vals, f.what, b
        g.torn = True
        g.old = f
        self.files[op['n']] = g

    # ------------------------------------------------------------- one check
    def check(self, ti, t, tracer, op, bad):
        w = op['w']
        fs = [self.files.get(n) for n in op['n']]
        need = {'spht': ('patt', 'coef'), 'ispht': ('patt', 'coef'), 'fdata': ('fdata', 'coef'),
                'vspht': ('th', 'ph', 'c1', 'c2'), 'vispht': ('th', 'ph', 'c1', 'c2')}[w]
        if any(f is None or f.what != k for f, k in zip(fs, need)):
            return
        paths = [self.path(n, op.get('as')) for n in op['n']]
        fn = getattr(sim.sp.verify, 'verify_' + w)
        want = self.want(w, fs)
        what = 'verify_%s(%s)' % (w, ', '.join('%s %s' % (f.what, f.shape) for f in fs))
        how, r, fired, left = self.perform(ti, t, tracer, op, lambda: fn(*paths))
        self.judge(w, what, how, r, fired, t, want, fs, bad)
        if fired or how == 'irq':
            self.count('retries')
            h2, r2, f2, l2 = self.perform(ti, t, tracer, dict(op, io=None, irq=None, oom=None, tr='no'), lambda: fn(*paths))
            t.irq_fired = False
            self.judge(w, what + ' repeated', h2, r2, f2, t, want, fs, bad)
        for n, f in zip(op['n'], fs):
            if open(self.path(n), 'rb').read() != f.bytes:
                bad(['verify:touch'], '%s (%s) changed the file %r' % (what, how, n))

    def want(self, w, fs):
        """('raise',) | ('free',) | ('agree?',) | ('values', expected, scale)."""
        if any(f.data is None for f in fs):
            return ('torn',)
        if any(not np.all(np.isfinite(f.data)) or (f.data.size and np.abs(f.data).max() > 1e100) for f in fs):
            return ('free',)
        C = fs[-1]
        n, m = C.shape
        cs = [dict(zip(order(n, m), f.data)) for f in fs if f.kind == 'coef']
        ps = [f.data.reshape(f.shape) for f in fs if f.kind != 'coef']
        if w in ('vspht', 'vispht'):
            if fs[2].shape != fs[3].shape or fs[0].shape != fs[1].shape:
                return ('raise',)
            if any(c[(0, 0)] != 0 for c in cs):
                return ('free',)
        r, c = ps[0].shape
        if w == 'fdata':
            nr = r // 2 + 1
            if r % 2 or c % 2 or nr < n + 2 or c < 2 * m + 2:
                return ('free',)
            D = whole(R.synth(cs[0], n, m, nr, c), 1)
            d = np.abs(ps[0] - np.fft.fft2(D) / D.size)
            return ('values', (float(d.max()),), max(ops.scale_of(ps[0]), ops.scale_of(D)))
        if w in ('spht', 'vspht'):
            if m > n or n > r - 2 or m >= c / 2.0 or c % 2:
                return ('raise',)
        else:
            if r < n + (1 if w == 'ispht' else 2) or r < 2 or c < 2 * m + 2 or c % 2:
                return ('raise',)
            if w == 'ispht' and r < n + 2:
                return ('free',)
        syms = [1] if w in ('spht', 'ispht') else [-1, -1]
        if w in ('spht', 'vspht'):
            fresh = self.analyse(fs, ps, n, m)
            a = [np.array([v[x] for x in order(n, m)]) for v in cs]
            b = [np.array([v[x] for x in order(n, m)]) for v in fresh]
        else:
            got = [R.synth(cs[0], n, m, r, c)] if w == 'ispht' else R.vsynth(cs[0], cs[1], n, m, r, c)
            a = [whole(p, s) for p, s in zip(ps, syms)]
            b = [whole(p, s) for p, s in zip(got, syms)]

        def l2(v):
            return float(np.sqrt(sum(np.sum(np.abs(x) ** 2) for x in v)))

        def li(v):
            return float(np.sqrt(sum(np.max(np.abs(x)) ** 2 for x in v)))
        d = [x - y for x, y in zip(a, b)]
        if l2(a) < 1e-100:
            return ('free',)
        scale = max(l2(a), l2(b), *[ops.scale_of(p) for p in ps])
        return ('values', (l2(d), li(d), l2(d) / l2(a), li(d) / li(a)), scale, l2(a), li(a))

    def analyse(self, fs, ps, n, m):
        """Fresh coefficients of the stored pattern."""
        k = 1 if len(ps) == 1 else 2
        if all(f.truth is not None for f in fs[:k]) and len({f.truth for f in fs[:k]}) == 1:
            v1, v2 = fs[0].vals
            z = {x: 0j for x in order(n, m)}
            return [{x: v.get(x, 0j) for x in z} for v in ((v1,) if k == 1 else (v1, v2))]
        sp = sim.sp
        if k == 1:
            return [sim.content(sp.spht(sp.ScalarPatternUniform(ps[0].copy()), n, m)).vals()]
        v = sim.content(sp.vspht(sp.TransversePatternUniform(ps[0].copy(), ps[1].copy()), n, m))
        return [v.a.vals(), v.b.vals()]

    def judge(self, w, what, how, r, fired, t, want, fs, bad):
        if how == 'irq':
            return
        if how == 'exc':
            self.keep(r)
            if want[0] == 'values' and not fired and not t.irq_fired and not any(getattr(f, 'torn', False) for f in fs):
                bad(['verify:raise'], '%s raised %r' % (what, r))
            return
        try:
            got = [float(x) for x in (r if w != 'fdata' else [r])]
        except Exception as e:
            bad(['verify:value'], '%s returned %r' % (what, r))
            return
        self.note([round(x, 6) for x in got])
        if want[0] == 'free':
            return
        if want[0] == 'raise':
            bad(['verify:accept'], '%s answered %r for files that do not fit together' % (what, got))
        if want[0] == 'torn':
            if all(abs(x) < 1e-9 for x in got):
                bad(['verify:torn'], '%s reports agreement (%r) although a file is torn' % (what, got))
            return
        exp, scale = want[1], want[2]
        if len(got) != len(exp):
            bad(['verify:value'], '%s returned %d values' % (what, len(got)))
            return
        tol = [1e-10 * scale, 1e-10 * scale]
        if w != 'fdata':
            tol += [1e-10 * scale / want[3] + 1e-10 * exp[2], 1e-10 * scale / want[4] + 1e-10 * exp[3]]
        names = ('L2 difference', 'maximum difference', 'relative L2 difference', 'relative maximum difference')
        for x, y, e, nm in zip(got, exp, tol, names if w != 'fdata' else names[1:]):
            if not abs(x - y) <= e:
                bad(['verify:value'], '%s reports a %s of %.9g; it is %.9g' % (what, nm, x, y))
        if max(exp[:2]) < 1e-9 * scale:
            self.count('agreements reported')
        else:
            self.count('differences reported')


def run(case):
    return Verify(case).run()
