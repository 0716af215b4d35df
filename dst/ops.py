"""Operations of the simulated callers, and what the reference model expects of
each of them."""
import math

import numpy as np

from . import refmodel as R
from . import sim
from .gen import FORMS
from .sim import SC, SP, VC, VP, ms, num

TOL = 1e-12


def tol_at(nmax):
    """Rounding grows with the degree."""
    return TOL * max(1.0, nmax / 40.0)


class Expect(object):
    """refuse: must raise.  check(result) -> None or a complaint.  new: contents of
    the target after an in-place operation.  free: nothing is claimed."""

    def __init__(self, refuse=False, check=None, target=None, new=None, free=False, may_refuse=False):
        self.refuse, self.check, self.target, self.new, self.free = refuse, check, target, new, free
        self.may_refuse = may_refuse


def _v(a):
    return a


# ------------------------------------------------------------- calling
def call(op, get):
    """Performs op on the package under test.  get(name) -> live object."""
    sp = sim.sp
    f = op['f']
    a = [get(x[1:]) if isinstance(x, str) and x.startswith('$') else num(x) for x in op.get('a', ())]
    kw = {k: num(v) for k, v in op.get('kw', {}).items()}
    if f in ('sbesselj_array', 'sbessely_array'):
        z = np.array(a[0], dtype=float)
        keep = z.copy()
        r = getattr(sp, f)(z, a[1])
        if not np.array_equal(z, keep):
            raise OperandChanged('%s changed its arguments' % f)
        z[...] = -1.0
        return r
    if f in TRANSFORMS or f in PLAIN:
        return getattr(sp, f)(*a, **kw)
    if f == 'add':
        return a[0] + a[1]
    if f == 'sub':
        return a[0] - a[1]
    if f == 'mul':
        return a[0] * a[1]
    if f == 'div':
        return a[0] / a[1]
    if f == 'iadd':
        x = a[0]
        x += a[1]
        return x
    if f == 'imul':
        x = a[0]
        x *= a[1]
        return x
    if f == 'isub':
        x = a[0]
        x -= a[1]
        return x
    if f == 'neg1':
        return -1 * a[0]
    if f == 'copy':
        return a[0].copy()
    if f == 'trunc':
        return a[0][0:a[1], :]
    if f == 'get':
        return a[0][a[1], a[2]]
    if f == 'index':
        i = FORMS[a[1]]
        if 'd' not in op:
            return a[0][i]
        a[0][i] = [sim.num(2.5), (1j, 2j), sim.data(op['d'], 3)][op['d'] % 3]
        return None
    if f == 'getrow':
        return a[0][a[1], :]
    if f == 'getcol':
        return a[0][:, a[1]]
    if f in ('size', 'power', 'angular_power_spectrum'):
        v = getattr(a[0], f)
        return v() if f != 'size' else v
    if f in ('is_symmetric', 'single_val', 'shape', 'nrows', 'ncols'):
        return getattr(a[0], f)
    if f == 'repr':
        return repr(a[0])
    if f == 'str':
        return str(a[0])
    if f == 'pretty':
        with sim.quiet() as q:
            sp.pretty_coefs(a[0])
        return q.getvalue()
    if f == 'set':
        a[0][a[1], a[2]] = a[3]
        return None
    if f == 'vset':
        a[0][a[1], a[2]] = (a[3], a[4])
        return None
    if f == 'common':
        get(None)[op['key']] = op['val']
        return None
    if f == 'setcol':
        _assign(a[0], (slice(None), a[1]), sim.data(op['d'], op['len']), op)
        return None
    if f == 'setrow':
        _assign(a[0], (a[1], slice(None)), sim.data(op['d'], op['len']), op)
        return None
    if f == 'vsetcol':
        o = a[0].scoef1 if op['which'] == 1 else a[0].scoef2
        d = sim.data(op['d'], op['len'])
        if a[1] == 0 and len(d):
            d[0] = 0
        _assign(o, (slice(None), a[1]), d, op)
        return None
    if f == 'window':
        d = sim.data(op['d'], op['len'])
        keep = d.copy()
        a[0].window(spoiled(d, op))
        if not sim.same_bits(d, keep):
            raise OperandChanged('window(vec) changed vec')
        d[...] = -99.0
        return None
    if f == 'pset':
        if isinstance(a[0], sp.ScalarPatternUniform):
            a[0].cdata[a[1], a[2]] = a[3]
        else:
            (a[0].theta if op['which'] == 1 else a[0].phi)[a[1], a[2]] = a[3]
        return None
    if f == 'zeros':
        return sp.zeros_coefs(*a, **kw)
    if f == 'ones':
        return sp.ones_coefs(*a, **kw)
    if f == 'mkpatt':
        d = sim.data(op['d'], a[0] * a[1], op.get('k', 'normal')).reshape(a[0], a[1])
        keep = d.copy()
        p = sp.ScalarPatternUniform(d)
        if not sim.same_bits(d, keep):
            raise OperandChanged('ScalarPatternUniform(data) changed data')
        return p
    if f == 'mkvpatt':
        n = a[0] * a[1]
        k = op.get('k', 'normal')
        d = sim.data(op['d'], n, k).reshape(a[0], a[1])
        e = sim.data(op['d'] + 1000003, n, k).reshape(a[0], a[1])
        kd, ke = d.copy(), e.copy()
        p = sp.TransversePatternUniform(d, e)
        if not (sim.same_bits(d, kd) and sim.same_bits(e, ke)):
            raise OperandChanged('TransversePatternUniform(data) changed data')
        return p
    if f == 'raw_patt':          # double-sphere data taken as given
        D = sim.data(op['d'], (2 * a[0] - 2) * a[1]).reshape(2 * a[0] - 2, a[1])
        return sp.ScalarPatternUniform(D, doublesphere=True)
    if f == 'ds':
        d = sim.data(op['d'], a[0] * a[1], op.get('k', 'normal')).reshape(a[0], a[1])
        keep = d.copy()
        r = sp.continue_sphere(d, a[2])
        if not sim.same_bits(d, keep):
            raise OperandChanged('continue_sphere changed its argument')
        return r
    if f == 'opsfn':
        d = sim.data(op['d'], a[0] * a[1]).reshape(a[0], a[1])
        getattr(sys_ops(), op['name'])(d)
        return d
    if f == 'plot':
        getattr(sp, op['name'])(a[0])
        return None
    if f in ('sc_to_fc', 'fc_to_sc'):
        return native(f, a, op)
    if f in ('save_coef', 'save_patt'):
        getattr(sp.file, f)(a[0], op['path'])
        return None
    if f in ('load_coef', 'load_patt'):
        return getattr(sp.file, f)(op['path'])
    if f in ('random_coefs', 'random_patt_uniform'):
        np.random.seed(op['d'])
        return getattr(sp, f)(*a, **kw)
    raise sim.HarnessError('op %r' % f)


class OperandChanged(Exception):
    pass


def spoiled(d, op):
    """The values to assign, one of them replaced by something that is no number."""
    if not op.get('nn') or not len(d):
        return d
    d = list(d)
    d[op['nn'][0] % len(d)] = sim.notnum(op['nn'][1])
    return d


def _assign(o, idx, d, op):
    keep = d.copy()
    o[idx] = spoiled(d, op)
    if not sim.same_bits(d, keep):
        raise OperandChanged('assigning an array changed it')
    d[...] = -99.0      # the object must have taken a copy


def sys_ops():
    import sys
    return sys.modules['spherepy.ops']


def _padded(op, r, c):
    """Fourier data whose highest frequencies are empty."""
    fd = sim.data(op['d'], r * c).reshape(r, c)
    fd[max(0, r // 2 - 1):r // 2 + 2] = 0
    return fd


def native(f, a, op):
    import _csphi
    if f == 'sc_to_fc':
        nmax, mmax, r, c = a
        fd = np.zeros((r, c), dtype=np.complex128)
        v = sim.data(op['d'], op['len'])
        _csphi.sc_to_fc(fd, v, nmax, mmax)
        return fd
    nmax, mmax, r, c = a
    fd = _padded(op, r, c)
    v = np.zeros(op['len'], dtype=np.complex128)
    _csphi.fc_to_sc(fd, v, nmax, mmax)
    return v


TRANSFORMS = ('spht', 'ispht', 'vspht', 'vispht', 'spht_slow', 'ispht_slow')
PLAIN = ('abs', 'mag', 'mag2', 'array', 'L2_coef', 'L2_patt', 'LInf_coef', 'LInf_patt',
         'compare_relative', 'sph_harmonic_tp', 'sbesselj', 'sbessely', 'sbesselh1', 'sbesselh2',
         'sbesselj_sum', 'sbesselj_array', 'sbessely_array', 'sbessel_test_cross_product', 'zeros_coefs', 'ones_coefs', 'zeros_patt_uniform', 'ones_patt_uniform')

FAMILY = {}
for _f in ('spht', 'ispht', 'spht_slow', 'ispht_slow'):
    FAMILY[_f] = 'st'
for _f in ('vspht', 'vispht'):
    FAMILY[_f] = 'vt'
for _f in ('add', 'sub', 'mul', 'div', 'iadd', 'imul', 'isub', 'neg1'):
    FAMILY[_f] = 'arith'
for _f in ('abs', 'mag', 'mag2', 'L2_coef', 'L2_patt', 'LInf_coef', 'LInf_patt', 'power',
           'angular_power_spectrum', 'compare_relative'):
    FAMILY[_f] = 'norm'
for _f in ('set', 'vset', 'setcol', 'setrow', 'vsetcol', 'window', 'trunc', 'get', 'getrow', 'getcol', 'index',
           'copy', 'size', 'str', 'repr', 'pretty', 'zeros', 'ones'):
    FAMILY[_f] = 'cont'
for _f in ('mkpatt', 'mkvpatt', 'is_symmetric', 'single_val', 'shape', 'nrows', 'ncols', 'array', 'pset',
           'raw_patt', 'ds', 'zeros_patt_uniform', 'ones_patt_uniform'):
    FAMILY[_f] = 'patt'
for _f in ('sbesselj', 'sbessely', 'sbesselh1', 'sbesselh2', 'sbesselj_array', 'sbessely_array', 'sbesselj_sum',
           'sbessel_test_cross_product'):
    FAMILY[_f] = 'bess'
FAMILY['sph_harmonic_tp'] = 'tab'
FAMILY['sc_to_fc'] = FAMILY['fc_to_sc'] = 'nat'
RANDOM = ('random_coefs', 'random_patt_uniform')
MUTATORS = ('common', 'set', 'vset', 'setcol', 'setrow', 'vsetcol', 'window', 'pset')


def exempt(f):
    """Results that are windows into their operand by design."""
    return f in ('array', 'getcol', 'getrow', 'get')


def same_values(op, A, r, v):
    """Complaint if two results of one transform differ by more than rounding."""
    k = sim.kind_of(r)
    if sim.kind_of(v) != k or k is None:
        return 'result types differ'
    c, d = sim.content(r), sim.content(v)
    a = A[0]
    if a.kind == 'sc':
        s = _total(a)
    elif a.kind == 'vc':
        s = _total(a.a) + _total(a.b)
    elif a.kind == 'sp':
        s = 8 * scale_of(a.D)
    else:
        s = 8 * scale_of(a.T, a.P)
    if a.kind in ('sc', 'vc'):
        s *= np.sqrt((2 * a.nmax + 1) / (4 * np.pi))
    if not (s == 0 or 1e-140 < s < 1e140):
        return None
    if c.brief() != d.brief():
        return '%s and %s' % (c.brief(), d.brief())
    if k == 'sc':
        prs = [('', c.flat(), d.flat())]
    elif k == 'vc':
        prs = [('first set ', c.a.flat(), d.a.flat()), ('second set ', c.b.flat(), d.b.flat())]
    elif k == 'sp':
        prs = [('', c.D, d.D)]
    else:
        prs = [('theta ', c.T, d.T), ('phi ', c.P, d.P)]
    for n, x, y in prs:
        e = near(x, y, s, 1e-11)
        if e:
            return n + e
    return None


# ------------------------------------------------------------- expectations
def near(got, want, scale, tol=TOL):
    """None if |got - want| <= tol * scale everywhere."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return 'shape %s instead of %s' % (got.shape, want.shape)
    if got.size == 0:
        return None
    if not np.all(np.isfinite(got)):
        if np.all(np.isfinite(want)):
            return 'not finite'
        return None
    err = float(np.max(np.abs(got - want)))
    if err <= tol * scale:
        return None
    i = int(np.argmax(np.abs(got - want)))
    return 'off by %.3g (scale %.3g), e.g. %r instead of %r' % (
        err, scale, complex(got.flat[i]), complex(want.flat[i]))


def elementwise(got, want, size):
    """Relative to the magnitudes that entered each element."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return 'shape %s instead of %s' % (got.shape, want.shape)
    with np.errstate(all='ignore'):
        ok = np.abs(got - want) <= 1e-13 * size + 1e-300
        fin = np.isfinite(got.real) & np.isfinite(got.imag)
        wf = np.isfinite(want.real) & np.isfinite(want.imag)
        # near overflow or a zero divisor: only agreement on being non-finite
        big = ~np.isfinite(size) | (size > 1e300)
        ok = ok | (~wf & ~fin) | big
    if np.all(ok):
        return None
    i = int(np.argmin(ok))
    return 'element %d is %r instead of %r' % (i, complex(got.flat[i]), complex(want.flat[i]))


def ranged(s):
    return s == 0 or 1e-140 < s < 1e140


def scale_of(*arrs):
    s = 0.0
    for a in arrs:
        a = np.asarray(a)
        if a.size:
            s = max(s, float(np.abs(a).max()))
    return s


def sc_of(r, nmax, mmax, what='result'):
    """Reads a ScalarCoefs result; returns (SC, complaint)."""
    if sim.kind_of(r) != 'sc':
        return None, '%s is a %s, not ScalarCoefs' % (what, type(r).__name__)
    if (r.nmax, r.mmax) != (nmax, mmax):
        return None, '%s has size (%r,%r) instead of (%r,%r)' % (what, r.nmax, r.mmax, nmax, mmax)
    return sim.content(r), None


def _mag(c):
    return float(max([np.sum(np.abs(v)) for v in c.cols.values()] + [0.0]))


def _total(c):
    return float(sum(np.sum(np.abs(v)) for v in c.cols.values()))


def x_ispht(op, A):
    c = A[0]
    if c.kind != 'sc':
        return Expect(free=True)
    args = _sizes(op, A, ('nrows', 'ncols'))
    nrows, ncols = args
    slow = op['f'].endswith('_slow')
    if nrows is None:
        nrows = c.nmax + 2
    if ncols is None:
        ncols = 2 * c.mmax + 2
    if slow and (args[0] is None or args[1] is None):
        return Expect(refuse=True)
    if nrows % 1 or nrows <= c.nmax or nrows < 2 or ncols < 2 * c.mmax + 2 or ncols % 2:
        return Expect(refuse=True)
    if not ranged(_total(c)):
        return Expect(free=True)
    want = R.synth(c.vals(), c.nmax, c.mmax, nrows, ncols)
    sc = _total(c) * np.sqrt((2 * c.nmax + 1) / (4 * np.pi))

    def check(r):
        if sim.kind_of(r) != 'sp':
            return 'result is a %s' % type(r).__name__
        return near(r.cdata, want, sc, tol_at(c.nmax)) or _ds_ok(sim.content(r).D, 1, sc, c.nmax)
    # documented minimum is nmax + 2; nmax + 1 also works
    return Expect(check=check, may_refuse=nrows < c.nmax + 2)


def _ds_ok(D, sym, sc, nmax):
    a = R.asymmetry(D, sym)
    if a > tol_at(nmax) * sc:
        return 'double-sphere data asymmetric by %.3g' % a
    return None


def _sizes(op, A, names):
    vals = list(A[1:]) + [None] * (2 - len(A[1:]))
    kw = op.get('kw', {})
    v = [num(kw.get(n, v)) for n, v in zip(names, vals)]
    # sizes may be numpy integers
    return [x if x is None or x % 1 else int(x) for x in v]


def x_vispht(op, A):
    c = A[0]
    if c.kind != 'vc':
        return Expect(free=True)
    nrows, ncols = _sizes(op, A, ('nrows', 'ncols'))
    if nrows is None:
        nrows = c.nmax + 2
    if ncols is None:
        ncols = 2 * c.mmax + 2
    if nrows % 1 or nrows < c.nmax + 2 or ncols < 2 * c.mmax + 2 or ncols % 2:
        return Expect(refuse=True)
    if not ranged(_total(c.a) + _total(c.b)):
        return Expect(free=True)
    th, ph = R.vsynth(c.a.vals(), c.b.vals(), c.nmax, c.mmax, nrows, ncols)
    sc = (_total(c.a) + _total(c.b)) * np.sqrt((2 * c.nmax + 1) / (4 * np.pi))

    def check(r):
        if sim.kind_of(r) != 'vp':
            return 'result is a %s' % type(r).__name__
        k = sim.content(r)
        e = near(r.theta, th, sc, tol_at(c.nmax))
        if e:
            return 'theta component ' + e
        e = near(r.phi, ph, sc, tol_at(c.nmax))
        if e:
            return 'phi component ' + e
        return _ds_ok(k.T, -1, sc, c.nmax) or _ds_ok(k.P, -1, sc, c.nmax)
    return Expect(check=check)


def _fwd_sizes(op, A, p, slow=False):
    nmax, mmax = _sizes(op, A, ('nmax', 'mmax'))
    if slow and (nmax is None or mmax is None):
        return None
    if nmax is None:
        nmax = p.nrows - 2
        if mmax is None:
            mmax = p.ncols // 2 - 1
    elif mmax is None:
        mmax = nmax
    if nmax % 1 or mmax % 1 or mmax > nmax or mmax < 0 or nmax >= p.nrows - 1 or mmax >= p.ncols / 2.0 or p.ncols % 2:
        return None
    return nmax, mmax


def x_spht(op, A):
    p = A[0]
    if p.kind != 'sp':
        return Expect(free=True)
    s = _fwd_sizes(op, A, p, op['f'].endswith('_slow'))
    if s is None:
        return Expect(refuse=True)
    nmax, mmax = s
    f = p.single()
    fscale = scale_of(f)
    if not ranged(fscale):
        return Expect(free=True)
    if R.asymmetry(p.D, 1) > 1e-12 * fscale:
        return Expect(free=True)
    known = op.get('_truth')
    if known is not None:
        vals, res = known, 0.0
    elif p.nrows <= 34:
        vals, _, _, res = R.analyse(f)
    else:
        res = 1.0
    band = res <= 1e-11
    scl = fscale * np.sqrt(4 * np.pi)

    def check(r):
        k, e = sc_of(r, nmax, mmax)
        if e or not band:
            return e
        got = k.vals()
        want = np.array([vals.get(x, 0j) for x in got])
        return near(np.array(list(got.values())), want, scl, tol_at(p.nrows))
    return Expect(check=check)


def x_vspht(op, A):
    p = A[0]
    if p.kind != 'vp':
        return Expect(free=True)
    s = _fwd_sizes(op, A, p)
    if s is None:
        return Expect(refuse=True)
    nmax, mmax = s
    ft, fp = p.T[:p.nrows], p.P[:p.nrows]
    fscale = scale_of(ft, fp)
    if not ranged(fscale):
        return Expect(free=True)
    if max(R.asymmetry(p.T, -1), R.asymmetry(p.P, -1)) > 1e-12 * fscale:
        return Expect(free=True)
    known = op.get('_truth')
    if known is not None:
        v1, v2 = known
        res = 0.0
    elif p.nrows <= 34:
        v1, v2, _, _, res = R.vanalyse(ft, fp)
    else:
        res = 1.0
    band = res <= 1e-11
    scl = fscale * np.sqrt(4 * np.pi) * 2

    def check(r):
        if sim.kind_of(r) != 'vc':
            return 'result is a %s' % type(r).__name__
        if (r.nmax, r.mmax) != (nmax, mmax):
            return 'result has size (%r,%r) instead of (%r,%r)' % (r.nmax, r.mmax, nmax, mmax)
        if not band:
            return None
        k = sim.content(r)
        for nm, c, v in (('first', k.a, v1), ('second', k.b, v2)):
            got = c.vals()
            want = np.array([v.get(x, 0j) for x in got])
            e = near(np.array(list(got.values())), want, scl, tol_at(p.nrows))
            if e:
                return '%s set %s' % (nm, e)
        return None
    return Expect(check=check)


def is_num(x):
    import numbers
    return isinstance(x, numbers.Number)


def x_arith(op, A):
    f = op['f']
    if f == 'neg1':
        A = [-1, A[0]]
        f = 'mul'
    base = {'iadd': 'add', 'imul': 'mul', 'isub': 'sub'}.get(f, f)
    a, b = A
    ka = getattr(a, 'kind', None)
    kb = getattr(b, 'kind', None)
    if ka and kb:
        if ka != kb:
            return Expect(refuse=True)
        if ka in ('sc', 'vc'):
            if (a.nmax, a.mmax) != (b.nmax, b.mmax):
                return Expect(refuse=True)
        elif (a.nrows, a.ncols) != (b.nrows, b.ncols):
            return Expect(refuse=True)
    elif ka:
        if not is_num(b) or (base == 'div' and b == 0):
            return Expect(refuse=True)
    elif kb:
        if not is_num(a):
            return Expect(refuse=True)
    else:
        return Expect(free=True)
    k = ka or kb
    ref = a if ka else b

    def fn(x, y):
        with np.errstate(all='ignore'):
            x, y = np.asarray(x, dtype=np.complex128), np.asarray(y, dtype=np.complex128)
            if base == 'add':
                return x + y, np.abs(x) + np.abs(y)
            if base == 'sub':
                return x - y, np.abs(x) + np.abs(y)
            if base == 'mul':
                return x * y, np.abs(x) * np.abs(y) * 4
            return x / y, np.abs(x) / np.abs(y) * 4

    def part(sel, extract):
        x = extract(a) if ka else a
        y = extract(b) if kb else b
        return fn(x, y)

    def check(r):
        if sim.kind_of(r) != k:
            return 'result is a %s' % type(r).__name__
        c = sim.content(r)
        if k == 'sc':
            if (c.nmax, c.mmax) != (ref.nmax, ref.mmax):
                return 'result has another shape'
            w, s = part(None, lambda o: o.flat())
            return elementwise(c.flat(), w, s)
        if k == 'vc':
            if (c.nmax, c.mmax) != (ref.nmax, ref.mmax):
                return 'result has another shape'
            for nm, ex, g in (('first', lambda o: o.a.flat(), c.a), ('second', lambda o: o.b.flat(), c.b)):
                w, s = part(None, ex)
                g = g.flat()
                # the monopole stays empty
                i0 = sum(len(ref.a.cols[m]) for m in ms(ref.mmax) if m < 0)
                w = np.array(w)
                w[i0] = 0
                s = np.array(s)
                s[i0] = 0
                if g[i0] != 0:
                    return 'monopole of the %s set is %r' % (nm, complex(g[i0]))
                e = elementwise(g, w, s)
                if e:
                    return '%s set: %s' % (nm, e)
            return None
        if k == 'sp':
            w, s = part(None, lambda o: o.D)
            return elementwise(c.D, w, s)
        for nm, ex, g in (('theta', lambda o: o.T, c.T), ('phi', lambda o: o.P, c.P)):
            w, s = part(None, ex)
            e = elementwise(g, w, s)
            if e:
                return '%s: %s' % (nm, e)
        return None
    return Expect(check=check)


def _abs(x):
    return np.hypot(x.real, x.imag)


def scalar_near(got, want, tol=1e-11):
    try:
        g = complex(got)
    except Exception:
        return 'result is %r' % (got,)
    if np.isnan(want) or np.isinf(want):
        return None if not np.isfinite(g) else '%r instead of %r' % (got, want)
    if abs(g - want) <= tol * abs(want) + 1e-300:
        return None
    return '%r instead of %r' % (got, want)


def x_norm(op, A):
    f = op['f']
    a = A[0]
    k = getattr(a, 'kind', None)
    with np.errstate(all='ignore'):
        if f in ('L2_coef', 'LInf_coef', 'L2_patt', 'LInf_patt'):
            parts = {'sc': lambda: [a.flat()], 'vc': lambda: [a.a.flat(), a.b.flat()],
                     'sp': lambda: [a.D], 'vp': lambda: [a.T, a.P]}[k]()
            if f.endswith('coef') != (k in ('sc', 'vc')):
                return Expect(free=True)
            if f.startswith('L2'):
                w = np.sqrt(sum(np.sum(_abs(p) ** 2) for p in parts))
            else:
                w = np.sqrt(sum(np.max(_abs(p)) ** 2 for p in parts)) if len(parts) > 1 else np.max(_abs(parts[0]))
            if w < 1e-150:
                return Expect(free=True)
            return Expect(check=lambda r: scalar_near(r, w))
        if f == 'power':
            w = np.sum(_abs(a.flat()) ** 2)
            return Expect(check=lambda r: scalar_near(r, w), free=w < 1e-290)
        if f == 'angular_power_spectrum':
            v = a.vals()
            w = np.array([sum(_abs(v[(n, m)]) ** 2 for m in range(-min(n, a.mmax), min(n, a.mmax) + 1))
                          for n in range(a.nmax + 1)])
            return Expect(check=lambda r: elementwise(np.asarray(r), w, w))
        if f == 'compare_relative':
            b = A[1]
            if k != 'sc' or getattr(b, 'kind', None) != 'sc' or (a.nmax, a.mmax) != (b.nmax, b.mmax):
                return Expect(free=True)
            den = np.sum(_abs(a.flat()))
            w = np.sum(_abs(a.flat() - b.flat())) / den if den > 0 else np.nan
            if not np.isfinite(w):
                return Expect(free=True)
            return Expect(check=lambda r: scalar_near(r, w, 1e-9))
        # mag, mag2, abs
        if k == 'sc':
            w = _abs(a.flat())
        elif k == 'vc':
            w = np.sqrt(_abs(a.a.flat()) ** 2 + _abs(a.b.flat()) ** 2)
        elif k == 'sp':
            w = _abs(a.single())
        else:
            w = np.sqrt(_abs(a.T[:a.nrows]) ** 2 + _abs(a.P[:a.nrows]) ** 2)
        if f == 'abs' and k in ('vc', 'vp'):
            return Expect(refuse=True)
        if f == 'mag2':
            w = w ** 2
        tiny = float(np.max(w)) < 1e-140 if w.size else True

        def check(r):
            if k in ('sc', 'vc'):
                c, e = sc_of(r, a.nmax, a.mmax)
                if e:
                    return e
                g = c.flat()
            else:
                g = np.asarray(r)
            if tiny:
                return None
            return elementwise(g, w, w + np.max(w) * 1e-150)
        return Expect(check=check)


def exact(got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return 'shape %s instead of %s' % (got.shape, want.shape)
    g, w = got.astype(np.complex128), want.astype(np.complex128)
    if np.array_equal(g, w, equal_nan=True):
        return None
    return '%r instead of %r' % (g.ravel()[:4].tolist(), w.ravel()[:4].tolist())


def _int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def x_cont(op, A):
    f = op['f']
    a = A[0] if A else None
    k = getattr(a, 'kind', None)
    tgt = op['a'][0][1:] if op.get('a') and isinstance(op['a'][0], str) and op['a'][0].startswith('$') else None
    if f == 'copy':
        def check(r):
            if sim.kind_of(r) != k:
                return 'copy is a %s' % type(r).__name__
            return None if sim.content(r).same(a) else 'copy differs from the original'
        return Expect(check=check)
    if f in ('zeros', 'ones'):
        nmax, mmax = A[0], A[1]
        ct = op.get('kw', {}).get('coef_type', 0)
        if mmax > nmax or ct not in (0, 1):
            return Expect(refuse=True)
        if nmax < 0 or mmax < 0:
            return Expect(free=True)
        v = 0j if f == 'zeros' else 1 + 0j
        if ct == 0:
            w = SC(nmax, mmax, {m: np.full(nmax - abs(m) + 1, v) for m in ms(mmax)})
        else:
            def one():
                c = SC(nmax, mmax, {m: np.full(nmax - abs(m) + 1, v) for m in ms(mmax)})
                c.cols[0][0] = 0
                return c
            w = VC(one(), one())
        return Expect(check=lambda r: None if sim.kind_of(r) == w.kind and content_eq(sim.content(r), w)
                      else 'factory result is wrong')
    if f == 'size':
        w = sum(len(c) for c in (a.cols if k == 'sc' else a.a.cols).values())
        return Expect(check=lambda r: None if r == w else 'size %r instead of %r' % (r, w))
    if f in ('str', 'repr', 'pretty'):
        if f == 'pretty':
            if k != 'sc':
                return Expect(free=True)     # documented for scalar coefficients
            if a.nmax < 2:
                return Expect(refuse=True)
            return Expect(check=lambda r: pretty_ok(r, a))
        return Expect(check=lambda r: text_ok(f, r, a))
    if f == 'trunc':
        n = A[1]
        if not _int(n) or n > a.nmax or n < 0:
            return Expect(refuse=True) if _int(n) and n > a.nmax else Expect(free=True)
        m = min(n, a.mmax)

        def cut(c):
            return SC(n, m, {q: c.cols[q][:n - abs(q) + 1] for q in ms(m)})
        w = cut(a) if k == 'sc' else VC(cut(a.a), cut(a.b))
        if k == 'vc':
            for c in (w.a, w.b):
                c.cols[0] = c.cols[0].copy()
                c.cols[0][0] = 0
        return Expect(check=lambda r: None if sim.kind_of(r) == k and content_eq(sim.content(r), w)
                      else 'truncation differs')
    if f == 'index':
        return Expect(refuse=True)
    if f in ('get', 'set', 'vset'):
        n, m = A[1], A[2]
        bad = not (0 <= n <= a.nmax) or abs(m) > min(n, a.mmax)
        if k == 'vc' and n == 0:
            bad = True
        if f == 'get':
            if bad:
                return Expect(refuse=True)
            if k == 'sc':
                return Expect(check=lambda r: exact(r, a.cols[m][n - abs(m)]))
            return Expect(check=lambda r: exact(r[0], a.a.cols[m][n - abs(m)]) or exact(r[1], a.b.cols[m][n - abs(m)]))
        if bad or not all(is_num(x) for x in A[3:]):
            return Expect(refuse=True)
        if real_only(a):
            return Expect(free=True)
        new = a.copy()
        if f == 'set' and k == 'sc':
            put(new, n, m, A[3])
        elif f == 'vset' and k == 'vc':
            put(new.a, n, m, A[3])
            put(new.b, n, m, A[4])
        else:
            return Expect(refuse=True)
        return Expect(target=tgt, new=new)
    if f == 'getrow':
        n = A[1]
        if not (0 <= n <= a.nmax) or (k == 'vc' and n == 0):
            return Expect(refuse=True)
        mm = min(n, a.mmax)

        def row(c):
            return np.array([c.cols[m][n - abs(m)] for m in ms(mm)])
        if k == 'sc':
            return Expect(check=lambda r: exact(r, row(a)))
        return Expect(check=lambda r: exact(r[0], row(a.a)) or exact(r[1], row(a.b)))
    if f == 'getcol':
        m = A[1]
        if abs(m) > a.mmax:
            return Expect(refuse=True)
        if k == 'sc':
            return Expect(check=lambda r: exact(r, a.cols[m]))
        return Expect(check=lambda r: exact(r[0], a.a.cols[m]) or exact(r[1], a.b.cols[m]))
    if op.get('nn') and op['len'] > 0:
        return Expect(refuse=True)
    if f == 'setcol':
        m = A[1]
        if k != 'sc' or abs(m) > a.mmax or op['len'] != a.nmax - abs(m) + 1:
            return Expect(refuse=True)
        if real_only(a):
            return Expect(free=True)
        new = a.copy()
        new.cols[m] = cast(sim.data(op['d'], op['len']), new.cols[m])
        return Expect(target=tgt, new=new)
    if f == 'vsetcol':
        m = A[1]
        if abs(m) > a.mmax or op['len'] != a.nmax - abs(m) + 1:
            return Expect(refuse=True)
        d = sim.data(op['d'], op['len'])
        if m == 0 and len(d):
            d[0] = 0
        new = a.copy()
        (new.a if op['which'] == 1 else new.b).cols[m] = d
        return Expect(target=tgt, new=new)
    if f == 'setrow':
        n = A[1]
        if k != 'sc' or not (0 <= n <= a.nmax) or op['len'] != 2 * min(n, a.mmax) + 1:
            return Expect(refuse=True)
        if real_only(a):
            return Expect(free=True)
        new = a.copy()
        d = sim.data(op['d'], op['len'])
        for i, m in enumerate(ms(min(n, a.mmax))):
            put(new, n, m, d[i])
        return Expect(target=tgt, new=new)
    if f == 'window':
        if k != 'sc' or op['len'] != a.nmax + 1:
            return Expect(refuse=True)
        if real_only(a):
            return Expect(free=True)
        w = sim.data(op['d'], op['len'])
        new = a.copy()
        for m in ms(a.mmax):
            new.cols[m] = cast(a.cols[m] * w[abs(m):], new.cols[m])
        return Expect(target=tgt, new=new)
    return Expect(free=True)


def real_only(a):
    """Magnitudes are kept as real numbers; what becomes of complex numbers
    assigned to them is not claimed."""
    return a.kind == 'sc' and a.cols[0].dtype != np.complex128


def cast(v, like):
    if like.dtype == np.complex128:
        return v
    return v.real.astype(like.dtype)


def put(c, n, m, v):
    col = c.cols[m]
    col[n - abs(m)] = v if col.dtype == np.complex128 else complex(v).real


def content_eq(a, b):
    """Equal values (not necessarily equal bits or dtypes)."""
    if a.kind != b.kind:
        return False
    if a.kind == 'sc':
        return (a.nmax, a.mmax) == (b.nmax, b.mmax) and all(
            a.cols[m].shape == b.cols[m].shape and
            np.array_equal(a.cols[m].astype(np.complex128), b.cols[m].astype(np.complex128), equal_nan=True)
            for m in ms(a.mmax))
    if a.kind == 'vc':
        return content_eq(a.a, b.a) and content_eq(a.b, b.b)
    if a.kind == 'sp':
        return a.D.shape == b.D.shape and np.array_equal(a.D, b.D, equal_nan=True)
    return a.T.shape == b.T.shape and a.P.shape == b.P.shape and \
        np.array_equal(a.T, b.T, equal_nan=True) and np.array_equal(a.P, b.P, equal_nan=True)


def content_close(a, b, rel=1e-13):
    """Equal up to rounding relative to the largest value."""
    if a.kind != b.kind:
        return False
    if a.kind == 'sc':
        if (a.nmax, a.mmax) != (b.nmax, b.mmax):
            return False
        x, y = a.flat(), b.flat()
    elif a.kind == 'vc':
        return content_close(a.a, b.a, rel) and content_close(a.b, b.b, rel)
    elif a.kind == 'sp':
        x, y = a.D, b.D
    else:
        return content_close(SP(a.T), SP(b.T), rel) and content_close(SP(a.P), SP(b.P), rel)
    if x.shape != y.shape:
        return False
    if np.array_equal(x, y, equal_nan=True):
        return True
    s = scale_of(x, y)
    if not np.isfinite(s):
        return True
    return bool(np.all(np.abs(x - y) <= rel * s))


_num = None


def numbers_in(text):
    """The numbers printed in a text, as complex values."""
    import re
    global _num
    if _num is None:
        # numpy scalars may print as np.complex128(...)
        _num = re.compile(r'\(?([+-]?(?:\d+\.?\d*(?:e[+-]?\d+)?|inf|nan))?([+-]?(?:\d+\.?\d*(?:e[+-]?\d+)?|inf|nan)j)\)?')
    out = []
    for m in _num.finditer(text.replace('complex128', '').replace('float64', '')):
        try:
            out.append(complex((m.group(1) or '') + m.group(2)))
        except ValueError:
            return None
    return out


def text_ok(f, r, a):
    if not isinstance(r, str):
        return 'text is a %s' % type(r).__name__
    if a.kind == 'vc':
        if str(a.nmax) not in r or str(a.mmax) not in r:
            return 'text does not name the size'
        return None
    if a.kind != 'sc':
        return None
    v = a.vals()
    want = [v[x] for x in R.modes(a.nmax, a.mmax)]
    if any(not np.isfinite(z) for z in want) or a.cols[0].dtype != np.complex128:
        return None
    if f == 'str':
        body = [ln.split('::', 1)[1] for ln in r.split('\n') if '::' in ln]
        if len(body) != a.nmax + 1:
            return 'text has %d rows' % len(body)
        got = []
        for ln in body:
            g = numbers_in(ln)
            if g is None:
                return None
            got += g
    else:
        i = r.find('[')
        got = numbers_in(r[i:])
        if got is None:
            return None
    if len(got) != len(want):
        return 'text lists %d values instead of %d' % (len(got), len(want))
    for g, w in zip(got, want):
        if abs(g - w) > 1e-7 * abs(w):
            return 'text shows %r instead of %r' % (g, complex(w))
    return None


def pretty_ok(r, a):
    """Each line shows the n it is labelled with, in the order of m."""
    v = a.vals()
    for n in range(0, 3):
        line = [ln for ln in r.split('\n') if ln.startswith('%d:' % n)]
        if len(line) != 1:
            return 'no line for n = %d' % n
        got = numbers_in(line[0].split(':', 1)[1])
        want = [v[(n, m)] for m in ms(min(n, a.mmax))]
        if got is None or len(got) != len(want):
            return None     # layout of small sets is not claimed
        for g, w in zip(got, want):
            if np.isfinite(w) and abs(g - w) > 0.06 * abs(w) + 1e-300:
                return 'row n = %d shows %r for %r' % (n, g, complex(w))
    return None


def x_patt(op, A):
    f = op['f']
    if f in ('mkpatt', 'mkvpatt', 'ds'):
        r, c = A[0], A[1]
        if r < 2 or c < 2 or c % 2:
            return Expect(free=True)
        k = op.get('k', 'normal')
        d = sim.data(op['d'], r * c, k).reshape(r, c)
        if f == 'ds':
            sym = A[2]
            return Expect(check=lambda D: shown(np.asarray(D), d, sym, 'result'))
        if f == 'mkpatt':
            def check(p):
                if sim.kind_of(p) != 'sp':
                    return 'not a pattern'
                return shown(sim.content(p).D, d, 1, 'data') or reads(p, sim.content(p)) or \
                    symmetric_report(p, d)
            return Expect(check=check)
        e = sim.data(op['d'] + 1000003, r * c, k).reshape(r, c)

        def check(p):
            if sim.kind_of(p) != 'vp':
                return 'not a vector pattern'
            q = sim.content(p)
            return shown(q.T, d, -1, 'theta') or shown(q.P, e, -1, 'phi') or reads(p, q) or \
                symmetric_report(p, d, e)
        return Expect(check=check)
    if f in ('zeros_patt_uniform', 'ones_patt_uniform'):
        r, c = A[0], A[1]
        pt = op.get('kw', {}).get('patt_type', 0)
        if c % 2 or pt not in (0, 1):
            return Expect(refuse=True)
        v = 0.0 if f[0] == 'z' else 1.0
        w = np.full((r, c), v, dtype=np.complex128)

        def check(p):
            if sim.kind_of(p) != ('sp', 'vp')[pt]:
                return 'not a pattern of the requested type'
            if (p.nrows, p.ncols) != (r, c):
                return 'size %r instead of %r' % ((p.nrows, p.ncols), (r, c))
            for a in ([p.cdata] if pt == 0 else [p.theta, p.phi]):
                e = exact(a, w)
                if e:
                    return e
            if pt == 0 or v == 0:
                if not p.is_symmetric:
                    return 'factory pattern reported as not symmetric'
                q = sim.content(p)
                for D, s in ([(q.D, 1)] if pt == 0 else [(q.T, -1), (q.P, -1)]):
                    if R.asymmetry(D, s) != 0:
                        return 'factory pattern is not symmetric'
            return None
        return Expect(check=check)
    a = A[0]
    k = getattr(a, 'kind', None)
    if f in ('shape', 'nrows', 'ncols'):
        w = {'shape': (a.nrows, a.ncols), 'nrows': a.nrows, 'ncols': a.ncols}[f]
        return Expect(check=lambda r: None if r == w else '%s %r instead of %r' % (f, r, w))
    if f == 'array':
        if k == 'sp':
            return Expect(check=lambda r: exact(r, a.single()))
        return Expect(check=lambda r: exact(r[0], a.T[:a.nrows]) or exact(r[1], a.P[:a.nrows]))
    if f in ('is_symmetric', 'single_val'):
        return x_symm(op, A)
    if f == 'pset':
        n, m = A[1], A[2]
        if not (0 <= n < a.nrows and 0 <= m < a.ncols):
            return Expect(free=True)
        new = a.copy()
        if k == 'sp':
            new.D[n, m] = A[3]
        else:
            (new.T if op['which'] == 1 else new.P)[n, m] = A[3]
        return Expect(target=op['a'][0][1:], new=new)
    return Expect(free=True)


def shown(D, d, sym, what):
    r, c = d.shape
    if D.shape != (2 * r - 2, c):
        return '%s: double sphere of shape %s' % (what, D.shape)
    W = R.double(d, sym)
    for n in range(2 * r - 2):
        if n in (0, r - 1):
            continue
        if not np.array_equal(D[n], W[n], equal_nan=True) or (n < r and D[n].tobytes() != d[n].astype(D.dtype).tobytes()):
            return '%s: row %d of the double sphere is wrong' % (what, n)
    # poles: symmetric, and untouched where the data already are
    for n in (0, r - 1):
        row = D[n]
        mate = np.roll(row if sym > 0 else -row, -(c // 2))
        fin = np.isfinite(row) & np.isfinite(mate)
        if not np.array_equal(row[fin], mate[fin]):
            return '%s: pole row %d is not symmetric' % (what, n)
        good = d[n] == np.roll(d[n] if sym > 0 else -d[n], -(c // 2))
        if not np.array_equal(row[good], d[n][good]):
            return '%s: symmetric pole data in row %d were changed' % (what, n)
    return None


def reads(p, q):
    """All ways of reading a pattern agree."""
    if q.kind == 'sp':
        prs = [(p.cdata, q.D), (p.array, q.D)]
        if p.shape != (q.nrows, q.ncols):
            return 'shape %r' % (p.shape,)
    else:
        ar = p.array
        prs = [(p.theta, q.T), (p.phi, q.P), (ar[0], q.T), (ar[1], q.P)]
        for g, w in ((p.theta_double, q.T), (p.phi_double, q.P)):
            if not np.array_equal(g, w, equal_nan=True):
                return 'theta_double or phi_double differs from doublesphere'
        if p.shape != (q.nrows, q.ncols):
            return 'shape %r' % (p.shape,)
    for g, w in prs:
        if not np.array_equal(g, w[:q.nrows], equal_nan=True):
            return 'cdata, array and doublesphere disagree'
    return None


def symmetric_report(p, *ds):
    if all(np.all(np.isfinite(d)) and scale_of(d) < 1e150 for d in ds) and not p.is_symmetric:
        return 'pattern made from data is reported as not symmetric'
    return None


def _rel_asym(D, sym):
    """Worst point-wise relative asymmetry."""
    E = sym * np.roll(np.roll(D[::-1], 1, axis=0), -(D.shape[1] // 2), axis=1)
    with np.errstate(all='ignore'):
        den = np.maximum(np.abs(D), np.abs(E))
        r = np.abs(D - E) / den
    r[den == 0] = 0
    return r


def x_symm(op, A):
    a = A[0]
    parts = [(a.D, 1)] if a.kind == 'sp' else [(a.T, -1), (a.P, -1)]
    if any(not np.all(np.isfinite(D)) or scale_of(D) > 1e150 for D, _ in parts):
        return Expect(free=True)
    worst = [float(np.max(_rel_asym(D, s))) for D, s in parts]
    broken = max(worst) > 1e-10
    exactly = max(worst) == 0

    def check(r):
        if op['f'] == 'is_symmetric':
            if broken and r:
                return 'broken symmetry (%.3g) reported as symmetric' % max(worst)
            if exactly and not r:
                return 'symmetric pattern reported as not symmetric'
            return None
        vals = r if isinstance(r, tuple) else (r,)
        if len(vals) != len(worst):
            return 'single_val %r' % (r,)
        for v, w in zip(vals, worst):
            if w > 1e-10 and not (v > 1e-13):
                return 'single_val %r for a pattern asymmetric by %.3g' % (r, w)
            if w == 0 and v > 1e-14:
                return 'single_val %r for a symmetric pattern' % (r,)
        return None
    return Expect(check=check)


# How far a result may lie from the definition, relative to sqrt(j^2 + y^2) where the
# functions oscillate and to the value itself where they do not.  At isolated arguments
# the continued fraction behind j cancels; there the bound is BESS_ISOLATED, and the
# arguments around must keep to the first one.
BESS, BESS_ISOLATED = 1e-12, 1e-7


def bessel_err(x, N, j=None, y=None):
    """(worst relative error, text)"""
    wj, wy = R.bessel(x, N)
    worst = (0.0, None)
    for name, got, want in (('j', j, wj), ('y', y, wy)):
        if got is None:
            continue
        got = np.asarray(got)
        if got.shape != (N,):
            return np.inf, '%s has shape %s instead of %d values' % (name, got.shape, N)
        for n in range(N):
            a, b = float(got[n]), want[n]
            if abs(wy[n]) > 1e300:
                if name == 'y':
                    break
                mod = 0
            else:
                mod = (wj[n] ** 2 + wy[n] ** 2).sqrt()
            ref = float(abs(b) if name == 'j' and n >= x else mod)
            e = abs(a - float(b))
            if e <= 1e-290:
                continue
            e = e / ref if ref > 0 else np.inf
            if not e <= worst[0]:
                worst = (e if e == e else np.inf, '%s_%d(%r) is %r instead of %r' % (name, n, x, a, float(b)))
    return worst


def bessel_ok(x, N, j=None, y=None):
    tol = BESS * max(1.0, x / 10.0)
    e, text = bessel_err(x, N, j, y)
    if e <= tol:
        return None
    if y is not None and bessel_err(x, N, None, y)[0] > tol or e > BESS_ISOLATED * max(1.0, x / 100.0):
        return text
    near = 0
    for k in (-3, -2, -1, 1, 2, 3):
        q = x * (1 + 1.7e-3 * k)
        near += not bessel_err(q, N, sim.sp.sbesselj(q, N))[0] <= tol
    return text + ' and is as wrong nearby' if near > 2 else None


def x_bess(op, A):
    f = op['f']
    x, N = A[0], A[1]
    if N < 1:
        return Expect(free=True)
    xs = x if isinstance(x, list) else [x]
    if not xs or min(xs) <= 0:
        return Expect(free=True)
    if f == 'sbesselj_sum':
        def check(r):
            if N >= 2 * x + 30 and not 0 <= r < 1e-6 * max(1.0, x / 100.0):
                return 'the sum rule fails by %r' % (r,)
            b = np.asarray(sim.sp.sbesselj(x, N), dtype=float)
            t = (2 * np.arange(N) + 1) * b ** 2
            t = math.fsum(t[np.argsort(np.abs(t))])
            want = abs((t - 1) / t) if t else np.inf
            if not (abs(r - want) <= 1e-12 * N + 1e-9 * want or want > 1e6):
                return 'the deviation from the sum rule is %r, reported as %r' % (want, r)
            return None
        return Expect(check=check)
    if f == 'sbessel_test_cross_product':
        if abs(R.bessel(x, N + 1)[1][N]) > 1e150:
            return Expect(free=True)

        def check(r):
            if not 0 <= r < 1e-6 * max(1.0, x / 100.0):
                return 'the cross product relation fails by %r' % (r,)
            j, y = np.asarray(sim.sp.sbesselj(x, N + 1)), np.asarray(sim.sp.sbessely(x, N + 1))
            want = np.max(np.abs((y[:-1] * j[1:] - j[:-1] * y[1:]) * x * x - 1))
            if not abs(r - want) <= 1e-11 * N + 1e-6 * want:
                return 'the deviation from the cross product relation is %r, reported as %r' % (want, r)
            return None
        return Expect(check=check)

    def check(r):
        if f.endswith('_array'):
            r = np.asarray(r)
            if r.shape != (N, len(xs)):
                return 'shape %s instead of (%d, %d)' % (r.shape, N, len(xs))
            for i, q in enumerate(xs):
                e = bessel_ok(q, N, **{f[7]: r[:, i]})
                if e:
                    return e
            return None
        if f in ('sbesselj', 'sbessely'):
            return bessel_ok(x, N, **{f[7]: r})
        r = np.asarray(r)
        if r.shape != (N,):
            return 'shape %s instead of %d values' % (r.shape, N)
        k = 0
        wy = R.bessel(x, N)[1]
        while k < N and abs(wy[k]) < 1e300:
            k += 1
        sg = 1 if f == 'sbesselh1' else -1
        return bessel_ok(x, k, r[:k].real, sg * r[:k].imag)
    return Expect(check=check)


def x_nat(op, A):
    """The native routines called directly, as the verification routines do."""
    nmax, mmax, r, c = A
    inv = op['f'] == 'sc_to_fc'
    need = nmax + 1 + mmax * (2 * nmax + 1 - mmax)
    if mmax < 0 or mmax > nmax or r < 2 or c < 2 * mmax + 1 or op['len'] < need or (inv and nmax > r // 2):
        return Expect(refuse=True)
    if c % 2 or r % 2 or r < 2 * nmax + 2 or nmax > 12:
        return Expect(check=lambda D: None)
    import sys
    py = sys.modules['spherepy.pysphi']

    def check(D):
        if inv:
            v = sim.data(op['d'], op['len'])
            w = py.sc_to_fc(v[:need], nmax, mmax, r, c)
            return near(D, w, _sum(v) * (nmax + 1), tol_at(nmax))
        fd = _padded(op, r, c)
        w = py.fc_to_sc(fd.copy(), nmax, mmax)
        return near(D[:need], w, _sum(fd) * (nmax + 1), tol_at(nmax)) or \
            (None if not np.any(D[need:]) else 'values past the coefficients were written')
    return Expect(check=check)


def _sum(a):
    return float(np.sum(np.abs(a)))


def x_tab(op, A):
    rows, cols, n, m = A
    if n < 0 or abs(m) > n or rows < 2 or cols < 1:
        return Expect(free=True)
    want = R.harmonic(n, m, rows, cols)
    return Expect(check=lambda r: near(r, want, np.sqrt((2 * n + 1) / (4 * np.pi)), tol_at(n)))


def expect(op, A):
    f = op['f']
    if f in ('ispht', 'ispht_slow'):
        return x_ispht(op, A)
    if f == 'vispht':
        return x_vispht(op, A)
    if f in ('spht', 'spht_slow'):
        return x_spht(op, A)
    if f == 'vspht':
        return x_vspht(op, A)
    fam = FAMILY.get(f)
    if fam == 'arith':
        return x_arith(op, A)
    if fam == 'norm':
        return x_norm(op, A)
    if fam == 'cont':
        return x_cont(op, A)
    if fam == 'patt':
        return x_patt(op, A)
    if fam == 'bess':
        return x_bess(op, A)
    if fam == 'tab':
        return x_tab(op, A)
    if fam == 'nat':
        return x_nat(op, A)
    return Expect(free=True)
