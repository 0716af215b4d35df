"""Case generators: pure functions of (property, seed, tier)."""
import copy
import math
import random


_a = slice(None)
# forms of indexing that are not offered
FORMS = {'1:,0': (slice(1, None), 0), '::2,0': (slice(None, None, 2), 0), ':2,0': (slice(None, 2), 0), '1,0:1': (1, slice(0, 1)),
         '1,::-1': (1, slice(None, None, -1)), '1,0:': (1, slice(0, None)), '1,:1': (1, slice(None, 1)), '0:1,0:1': (slice(0, 1), slice(0, 1)),
         ':,:': (_a, _a), '1:2,:': (slice(1, 2), _a), '0:2:1,:': (slice(0, 2, 1), _a), '0:,:': (slice(0, None), _a),
         '0:1,0:': (slice(0, 1), slice(0, None)), '0:1,::1': (slice(0, 1), slice(None, None, 1)), '0:1.5,:': (slice(0, 1.5), _a),
         '0.5,0': (0.5, 0), '1,0.5': (1, 0.5), "'1',0": ('1', 0), 'None,0': (None, 0), '1,None': (1, None), ':,0.5': (_a, 0.5),
         '0.5,:': (0.5, _a), '1,': (1,), '1,0,0': (1, 0, 0), '()': (), '3': 3, '[0,1],0': ([0, 1], 0)}


def loguni(r, lo, hi):
    return int(round(math.exp(r.uniform(math.log(lo), math.log(hi)))))


def size(r, big):
    """(nmax, mmax)"""
    x = r.random()
    if x < 0.15:
        n = r.choice([0, 0, 1, 1, 2])
    elif big >= 15 and x < 0.55:
        n = r.randint(big // 2, big)
    else:
        n = min(big, loguni(r, 1, big + 0.49))
    y = r.random()
    if y < 0.45:
        m = n
    elif y < 0.6:
        m = 0
    elif y < 0.75:
        m = min(n, 1)
    else:
        m = r.randint(0, n)
    return n, m


def grid(r, n, m):
    """(nrows, ncols) able to hold (n, m)."""
    rows = n + 2 + (0 if r.random() < 0.5 else r.choice([1, 1, 2, 3, 5]))
    cols = 2 * m + 2 + (0 if r.random() < 0.5 else 2 * r.choice([1, 1, 2, 4]))
    return rows, cols


KINDS = ['normal'] * 6 + ['real', 'int', 'single', 'single', 'sparse', 'zero', 'mixed', 'pos']
# values of very different size within one object
KINDS04 = KINDS + ['mixed'] * 5 + ['wild'] * 4


def spec(r, t, big, kinds=KINDS):
    d = r.randrange(1 << 30)
    k = r.choice(kinds)
    if t in ('sc', 'vc'):
        n, m = size(r, big)
        sp = {'t': t, 'n': n, 'm': m, 'd': d, 'k': k}
        if r.random() < 0.05:
            sp['i'] = r.choice(['i64', 'i32'])
        return sp
    if t in ('bsp', 'bvp'):
        n, m = size(r, big)
        rows, cols = grid(r, n, m)
        return {'t': t, 'n': n, 'm': m, 'r': rows, 'c': cols, 'd': d, 'k': k}
    n, m = size(r, big)
    rows, cols = grid(r, n, m)
    return {'t': t, 'r': rows, 'c': cols, 'd': d, 'k': k}


def shape(sp):
    t = sp['t']
    if t in ('sc', 'vc'):
        return (t, sp['n'], sp['m'])
    return (t[-2:], sp['r'], sp['c'])


NUMS = [2, -1, 1, 3, 0.5, -0.25, 1.0, {'c': [0.0, 1.0]}, {'c': [1.5, -2.0]}, {'f64': 0.3}, {'c128': [0.2, 0.9]},
        {'i64': 2}, 7, 1e-3, -3.25, {'c': [-1.0, 0.0]}, {'f32': 0.3}, {'c64': [0.7, -0.1]}, {'u8': 200}, {'i8': -100}, True,
        1e-200, 3e150, 10 ** 15, {'c': [0.0, -0.0]}]
ZEROS = [0, 0.0, {'c': [0.0, 0.0]}, {'f64': 0.0}, -0.0, {'i64': 0}, {'c128': [0.0, 0.0]}, {'f32': 0.0}, False, {'u8': 0}]


class G(object):
    """State of one simulated caller while its operations are written down."""

    def __init__(self, r, shared, prefix='A'):
        self.r = r
        self.shared = dict(shared)      # name -> shape
        self.own = {}
        self.specs = {}
        self.prefix = prefix
        self.n = 0
        self.ops = []

    def all(self, kinds, own=False):
        d = dict(self.own) if own else dict(self.shared, **self.own)
        return sorted(n for n, s in d.items() if s[0] in kinds)

    def sh(self, n):
        return self.own.get(n) or self.shared[n]

    def pick(self, kinds, own=False):
        c = self.all(kinds, own)
        return self.r.choice(c) if c else None

    def new(self):
        self.n += 1
        return 'R%d' % self.n

    def add_own(self, t, big, kinds=KINDS):
        name = '%s%d' % (self.prefix, len(self.specs))
        s = spec(self.r, t, big, kinds)
        self.specs[name] = s
        self.own[name] = shape(s)
        return name

    def emit(self, op, out=None):
        op['ks'] = [self.sh(x[1:])[0] for x in op.get('a', ()) if isinstance(x, str) and x.startswith('$')]
        if out:
            if len(self.own) < 9 or self.r.random() < 0.5:
                name = self.new()
            else:     # overwrite an older result
                olds = [n for n in self.own if n.startswith('R')]
                name = self.r.choice(sorted(olds)) if olds else self.new()
            op['out'] = name
            self.own[name] = out
        self.ops.append(op)
        return op


def bad_sizes(r, n, m):
    return r.choice([(n - 1, None), (-1, None), (0, None), (None, 3), (n + 2, 2 * m + 1), (n + 2, 2 * m),
                     (1, 4), (2, 2 * m + 3), (n, 2 * m + 2), (None, 0), (None, -2), (n // 2, None), (-3, -4),
                     (n - 2, 2 * m + 4)])


def npint(t, v):
    return {t: v} if isinstance(v, int) and (t != 'u8' or v >= 0) else v


def op_transform(g, vec, slow=True):
    r = g.r
    inv = r.random() < 0.5
    kc, kp = ('vc', 'vp') if vec else ('sc', 'sp')
    src = g.pick([kc] if inv else [kp])
    if src is None:
        return None
    _, a, b = g.sh(src)
    slow = slow and not vec and r.random() < 0.15
    if inv:
        f = 'vispht' if vec else ('ispht_slow' if slow else 'ispht')
        rows, cols = grid(r, a, b)
        x = r.random() * (0.4 if slow else 1)
        if x < 0.12:
            rows, cols = bad_sizes(r, a, b)
            if slow and (rows is None or cols is None):
                rows, cols = r.choice([(a - 1, 2 * b + 1), (a, 2 * b + 2), (max(a - 1, 1), 2 * b + 4)])
            args, kw, out = [rows, cols], {}, None
        elif x < 0.35 and not slow:
            args, kw, rows, cols = [], {}, a + 2, 2 * b + 2
            out = (kp, rows, cols)
        elif x < 0.45 and not slow:
            args, kw = [], {'ncols': cols}
            rows = a + 2
            out = (kp, rows, cols)
        elif x < 0.55 and not slow:
            args, kw = [], {'nrows': rows}
            cols = 2 * b + 2
            out = (kp, rows, cols)
        elif x < 0.6 and not vec and a >= 1:
            args, kw, out = [a + 1, cols], {}, (kp, a + 1, cols)
        else:
            args, kw, out = [rows, cols], {}, (kp, rows, cols)
    else:
        f = 'vspht' if vec else ('spht_slow' if slow else 'spht')
        nm, mm = a - 2, b // 2 - 1
        x = r.random() * (0.4 if slow else 1)
        out = None
        if x < 0.12:
            args = list(r.choice([(a - 1, mm), (a, 0), (nm, b // 2), (nm, nm + 1), (nm, -1), (-1, -1), (a + 3, None),
                                  (None, b // 2), (None, a), (nm, b), (0, 1), (-1, 0)]))
            if slow and None in args:
                args = [a - 1, 0]
            kw = {}
        elif x < 0.4 and not slow:
            args, kw = [], {}
            if nm >= 0 and 0 <= mm <= nm:
                out = (kc, nm, mm)
        elif x < 0.5 and not slow:
            n = r.randint(0, nm) if nm >= 0 else 0
            args, kw = [], {'nmax': n}
            if nm >= 0 and n < b / 2.0:
                out = (kc, n, n)
        elif x < 0.6 and not slow:
            m = r.randint(0, max(0, min(nm, mm)))
            args, kw = [], {'mmax': m}
            if nm >= m:
                out = (kc, nm, m)
        else:
            n = nm if r.random() < 0.5 else (r.randint(0, nm) if nm >= 0 else 0)
            m = min(n, mm) if r.random() < 0.6 else r.randint(0, max(0, min(n, mm)))
            args, kw = [n, m], {}
            if nm >= 0:
                out = (kc, n, m)
    x = r.random()
    if x < 0.07:        # sizes held in numpy integers
        t = r.choice(['i64', 'i64', 'i32', 'u8'])
        args = [npint(t, v) for v in args]
        kw = {k: npint(t, v) for k, v in kw.items()}
    elif x < 0.09 and args:      # a fractional size
        i = r.randrange(len(args))
        if isinstance(args[i], int):
            args[i], out = {'F': repr(args[i] + r.choice([0.5, 0.5, 0.25, -0.5, 1e-9]))}, None
    return g.emit({'f': f, 'a': ['$' + src] + args, 'kw': kw}, out)


def op_arith(g, kinds=('sc', 'vc', 'sp', 'vp')):
    r = g.r
    src = g.pick(kinds)
    if src is None:
        return None
    s = g.sh(src)
    f = r.choice(['add', 'sub', 'mul', 'div', 'add', 'sub', 'mul', 'iadd', 'isub', 'imul', 'neg1'])
    x = r.random()
    if f == 'neg1':
        return g.emit({'f': f, 'a': ['$' + src]}, s)
    if x < 0.03:        # something that cannot be combined
        z = {'x': r.choice(['None', 'list', 'dict', 'text', 'set', 'type'])}
        if r.random() < 0.5:
            return g.emit({'f': f, 'a': ['$' + src, z]})
        return g.emit({'f': {'iadd': 'add', 'isub': 'sub', 'imul': 'mul'}.get(f, f), 'a': [z, '$' + src]})
    if x < 0.36:
        n = r.choice(NUMS)
        if f == 'div' and r.random() < 0.25:
            n = r.choice(ZEROS)
            return g.emit({'f': f, 'a': ['$' + src, n]})
        return g.emit({'f': f, 'a': ['$' + src, n]}, s)
    if x < 0.5:
        n = r.choice(NUMS + ZEROS[:2])
        if f in ('iadd', 'isub', 'imul'):
            f = {'iadd': 'add', 'isub': 'sub', 'imul': 'mul'}[f]
        return g.emit({'f': f, 'a': [n, '$' + src]}, s)
    if x < 0.9:
        same = [n for n in g.all([s[0]]) if g.sh(n) == s]
        other = r.choice(sorted(same))
        return g.emit({'f': f, 'a': ['$' + src, '$' + other]}, s)
    other = g.pick(['sc', 'vc', 'sp', 'vp'])
    op = {'f': f, 'a': ['$' + src, '$' + other]}
    return g.emit(op, s if g.sh(other) == s else None)


def op_norm(g, kinds=('sc', 'vc', 'sp', 'vp')):
    r = g.r
    src = g.pick(kinds)
    if src is None:
        return None
    s = g.sh(src)
    fs = ['mag', 'mag2']
    if s[0] in ('sc', 'vc'):
        fs += ['L2_coef', 'LInf_coef']
    else:
        fs += ['L2_patt', 'LInf_patt']
    fs += ['abs']
    if s[0] == 'sc':
        fs += ['power', 'angular_power_spectrum', 'compare_relative']
    f = r.choice(fs)
    if f == 'compare_relative':
        same = [n for n in g.all(['sc']) if g.sh(n) == s]
        return g.emit({'f': f, 'a': ['$' + src, '$' + r.choice(sorted(same))]})
    out = ('sc', s[1], s[2]) if s[0] in ('sc', 'vc') and f in ('mag', 'mag2') and r.random() < 0.5 else None
    return g.emit({'f': f, 'a': ['$' + src]}, out)


def op_real(g):
    """A set of real coefficients, to be transformed or combined later."""
    src = g.pick(['sc', 'sc', 'vc'], own=True)
    if src is None:
        return
    s = g.sh(src)
    fs = ['mag', 'mag2'] + (['abs'] if s[0] == 'sc' else [])
    g.emit({'f': g.r.choice(fs), 'a': ['$' + src]}, ('sc', s[1], s[2]))
    if g.r.random() < 0.5:
        g.emit({'f': 'ispht', 'a': ['$' + g.ops[-1]['out']], 'kw': {}}, ('sp', s[1] + 2, 2 * s[2] + 2))


def val(r):
    return {'c': [round(r.gauss(0, 2), 3), round(r.gauss(0, 2), 3)]}


def op_cont(g, edits=True):
    r = g.r
    x = r.random()
    if x < 0.08:
        n, m = size(r, 9)
        ct = r.choice([0, 0, 1])
        if r.random() < 0.1:
            m = n + 1
            return g.emit({'f': r.choice(['zeros', 'ones']), 'a': [n, m], 'kw': {'coef_type': ct}})
        if r.random() < 0.05:
            return g.emit({'f': r.choice(['zeros', 'ones']), 'a': [n, m], 'kw': {'coef_type': r.choice([2, -1])}})
        return g.emit({'f': r.choice(['zeros', 'ones']), 'a': [n, m], 'kw': {'coef_type': ct}},
                      ('vc' if ct else 'sc', n, m))
    edit = edits and r.random() < 0.6
    src = g.pick(['sc', 'vc'], own=edit)
    if src is None:
        return None
    k, n, m = g.sh(src)
    S = '$' + src

    def anym():
        return r.randint(-m, m) if r.random() < 0.85 else r.choice([m + 1, -m - 1, n + 5, -n - 2])

    def anyn():
        if n > 12 and r.random() < 0.3:
            return r.randint(min(m, n - 1), n)
        return r.randint(0, n) if r.random() < 0.85 else r.choice([n + 1, -1, -2, n + 7, -n - 1])

    def nm():
        if r.random() < 0.8:
            a = r.randint(0, n)
            b = r.randint(-min(a, m), min(a, m))
            return a, b
        return r.choice([(n + 1, 0), (-1, 0), (n, m + 1), (n, -m - 1), (max(0, m - 1), m), (0, 1), (0, -1),
                         (-n - 1, 0), (m, m), (m, -m), (-1, -1), (0, 0), (1, 2), (1, -2), (n, n + 1)])
    if r.random() < 0.06:
        op = {'f': 'index', 'a': [S, r.choice(sorted(FORMS))]}
        if edit:
            op['d'] = r.randrange(1 << 30)
        return g.emit(op)
    if not edit:
        f = r.choice(['copy', 'copy', 'trunc', 'trunc', 'get', 'getrow', 'getcol', 'size', 'repr', 'str', 'pretty', 'pretty'])
        if f == 'copy':
            return g.emit({'f': f, 'a': [S]}, (k, n, m))
        if f == 'trunc':
            t = r.randint(0, n) if r.random() < 0.85 else n + r.randint(1, 3)
            return g.emit({'f': f, 'a': [S, t]}, (k, t, min(t, m)) if t <= n else None)
        if f == 'get':
            a, b = nm()
            return g.emit({'f': f, 'a': [S, a, b]})
        if f == 'getrow':
            return g.emit({'f': f, 'a': [S, anyn()]})
        if f == 'getcol':
            return g.emit({'f': f, 'a': [S, anym()]})
        return g.emit({'f': f, 'a': [S]})
    if r.random() < 0.06:
        # a value that is no number
        nn = r.choice(['word', 'list', 'dict', 'type', 'pair'])
        f = r.choice(['set', 'setcol', 'setrow', 'window'] if k == 'sc' else ['vset', 'vset', 'vsetcol'])
        a = r.randint(int(k == 'vc'), n) if n else 0
        b = r.randint(-min(a, m), min(a, m))
        if f == 'set':
            return g.emit({'f': f, 'a': [S, a, b, {'nn': nn}]})
        if f == 'vset':
            return g.emit({'f': f, 'a': [S, a, b, r.choice([val(r), {'nn': nn}]), {'nn': nn}]})
        op = {'f': f, 'a': [S] if f == 'window' else [S, a] if f == 'setrow' else [S, b], 'd': r.randrange(1 << 30),
              'len': n + 1 if f == 'window' else 2 * min(a, m) + 1 if f == 'setrow' else n - abs(b) + 1,
              'nn': [r.choice([0, -1, r.randrange(99)]), nn]}
        if f == 'vsetcol':
            op['which'] = r.choice([1, 2])
        return g.emit(op)
    d = r.randrange(1 << 30)
    if k == 'sc':
        f = r.choice(['set', 'set', 'setcol', 'setrow', 'window'])
        if f == 'set':
            a, b = nm()
            return g.emit({'f': f, 'a': [S, a, b, val(r)]})
        if f == 'setcol':
            b = anym()
            ln = max(0, n - abs(b) + 1) if r.random() < 0.85 else max(0, n - abs(b) + r.choice([0, 2, -1, 3]))
            return g.emit({'f': f, 'a': [S, b], 'd': d, 'len': ln})
        if f == 'setrow':
            a = anyn()
            ln = max(0, 2 * min(a, m) + 1) if r.random() < 0.85 else max(0, 2 * min(a, m) + r.choice([0, 2, 3, -1]))
            return g.emit({'f': f, 'a': [S, a], 'd': d, 'len': ln})
        ln = n + 1 if r.random() < 0.88 else n + r.choice([0, 2, 3])
        return g.emit({'f': 'window', 'a': [S], 'd': d, 'len': ln})
    f = r.choice(['vset', 'vset', 'vsetcol', 'set'])
    if f == 'vset':
        a, b = nm()
        return g.emit({'f': f, 'a': [S, a, b, val(r), val(r)]})
    if f == 'set':
        a, b = nm()
        return g.emit({'f': f, 'a': [S, a, b, val(r)]})
    b = anym()
    ln = max(0, n - abs(b) + 1) if r.random() < 0.85 else max(0, n - abs(b) + r.choice([0, 2]))
    return g.emit({'f': 'vsetcol', 'a': [S, b], 'd': d, 'len': ln, 'which': r.choice([1, 2])})


def op_patt(g, edits=True):
    r = g.r
    x = r.random()
    d = r.randrange(1 << 30)
    if x < 0.3:
        rows, cols = r.randint(2, 9), 2 * r.randint(1, 6)
        if r.random() < 0.12:
            rows, cols = loguni(r, 2, 20), 2 * loguni(r, 1, 40)
        k = r.choice(['normal'] * 4 + ['tiny', 'sub', 'mixed', 'int', 'single', 'sparse', 'finite', 'zero', 'pos', 'special'])
        f = r.choice(['mkpatt', 'mkvpatt'])
        if k == 'special':
            return g.emit({'f': f, 'a': [rows, cols], 'd': d, 'k': k})
        if edits and r.random() < 0.02:     # patterns of many values
            return g.emit({'f': f, 'a': [loguni(r, 20, 200), 2 * loguni(r, 10, 120)], 'd': d, 'k': k, 'tr': 'no'})
        return g.emit({'f': f, 'a': [rows, cols], 'd': d, 'k': k}, ('sp' if f == 'mkpatt' else 'vp', rows, cols))
    if x < 0.42:
        rows, cols = r.randint(2, 9), r.randint(1, 12) if r.random() < 0.3 else 2 * r.randint(1, 6)
        pt = r.choice([0, 0, 1])
        if r.random() < 0.1:
            rows, cols = loguni(r, 2, 20), loguni(r, 2, 80)
        f = r.choice(['zeros_patt_uniform', 'ones_patt_uniform'])
        ok = cols % 2 == 0
        return g.emit({'f': f, 'a': [rows, cols], 'kw': {'patt_type': pt}},
                      ('vp' if pt else 'sp', rows, cols) if ok else None)
    if x < 0.48:
        rows, cols = r.randint(2, 7), 2 * r.randint(1, 5)
        return g.emit({'f': 'raw_patt', 'a': [rows, cols], 'd': d}, ('sp', rows, cols))
    if x < 0.53:
        rows, cols = r.randint(2, 7), 2 * r.randint(1, 5)
        return g.emit({'f': 'ds', 'a': [rows, cols, r.choice([1, -1])], 'd': d})
    edit = edits and x < 0.63
    src = g.pick(['sp', 'vp'], own=edit)
    if src is None:
        return None
    k, rows, cols = g.sh(src)
    if edit:
        return g.emit({'f': 'pset', 'a': ['$' + src, r.randrange(rows), r.randrange(cols), val(r)],
                       'which': r.choice([1, 2])})
    f = r.choice(['is_symmetric', 'is_symmetric', 'single_val', 'shape', 'nrows', 'ncols', 'array'])
    return g.emit({'f': f, 'a': ['$' + src]})


def op_misc(g):
    """Queries, printing, plotting, Bessel functions: for C03 and C04."""
    r = g.r
    x = r.random()
    if x < 0.3:
        f = r.choice(['sbesselj', 'sbessely', 'sbesselh1', 'sbesselh2'])
        return g.emit({'f': f, 'a': [round(r.uniform(0.3, 20), 3), r.randint(0, 15)]})
    if x < 0.4:
        n = r.randint(0, 6)
        return g.emit({'f': 'sph_harmonic_tp', 'a': [r.randint(2, 8), 2 * r.randint(1, 5), n, r.randint(-n, n)]})
    if x < 0.7:
        name = r.choice(['plot_sphere_mag', 'pcolor_coefs', 'plot_mag_on_sphere', 'plot_coefs'])
        s = g.pick(['sc', 'sp', 'vc', 'vp'])
        return g.emit({'f': 'plot', 'name': name, 'a': ['$' + s]}) if s else None
    s = g.pick(['sp', 'vp', 'sc', 'vc'])
    return g.emit({'f': r.choice(['repr', 'str']), 'a': ['$' + s]}) if s else None


def op_bess(g):
    r = g.r

    def arg():
        k = r.random()
        if k < 0.07:
            return math.exp(r.uniform(math.log(1e-300), math.log(1e-4)))
        if k < 0.08:
            return math.exp(r.uniform(math.log(600), math.log(4000)))
        if k < 0.3:
            return math.exp(r.uniform(math.log(1e-4), math.log(600)))
        if k < 0.5:
            return r.randint(1, 150) * math.pi / 2 * (1 + r.choice([0, 0, 1e-16, -2e-16, 1e-12, 1e-9]))
        if k < 0.6:
            return r.choice([float(r.randint(1, 100)), r.randint(1, 100)])
        return r.uniform(0.05, 60)
    N = r.choice([1, 2, 2, 3, r.randint(1, 20), r.randint(1, 60), r.randint(1, 120)])
    f = r.choice(['sbesselj', 'sbesselj', 'sbessely', 'sbesselh1', 'sbesselh2', 'sbesselj_array', 'sbessely_array', 'sbesselj_sum',
                  'sbessel_test_cross_product'])
    if f.endswith('_array'):
        return g.emit({'f': f, 'a': [[arg() for _ in range(r.randint(1, 5))], N]})
    x = arg()
    if f == 'sbesselj_sum':
        x = min(x, 60.0)
        N = int(2 * x + 30) if r.random() < 0.7 else N
    return g.emit({'f': f, 'a': [x, N]})


def op_tab(g):
    r = g.r
    n = r.choice([0, 1, 2, r.randint(0, 6), r.randint(0, 20)])
    m = r.choice([0, n, -n, r.randint(-n, n), r.randint(-n, n)])
    rows = r.choice([2, 3, r.randint(2, 9), n + 2])
    if r.random() < 0.05:
        n = loguni(r, 21, 1300)
        m = r.choice([0, 1, n, 1 - n, r.randint(-n, n), r.randint(-n, n)])
        return g.emit({'f': 'sph_harmonic_tp', 'a': [r.randint(2, 6), r.choice([1, 2, 3]), n, m]})
    return g.emit({'f': 'sph_harmonic_tp', 'a': [rows, r.choice([1, 2, r.randint(1, 12), 2 * abs(m) + 2, 50, 51]), n, m]})


def op_nat(g):
    r = g.r
    n, m = size(r, 9)
    rows, cols = 2 * (n + 2) - 2 + 2 * r.choice([0, 0, 1, 2]), 2 * m + 2 + r.choice([0, 0, 0, 2, -1])
    ln = n + 1 + m * (2 * n + 1 - m)
    x = r.random()
    if x < 0.12:
        ln = max(0, r.choice([ln - 1, ln - 1, ln - 2, ln - n - 1, ln // 2, 0, ln - m, ln + 1, ln + 5]))
    elif x < 0.2:
        cols = max(0, r.choice([2 * m, 2 * m - 1, m + 1, m, 1, 0]))
    elif x < 0.28:
        rows = max(0, r.choice([n, n - 1, 2 * n - 1, 2 * n, 2 * n + 1, 1, 0, 2, 3]))
    elif x < 0.36:
        n, m = r.choice([(n, n + 1), (n, -1), (-1, m), (-1, -1), (m - 1, m), (n + 40, m), (1 << 30, m), (-2, 0), (n, -n - 1),
                           (50000, 50000), (60000, 33000)])
        if m > 30000:
            rows, cols = 2, 2 * m + 2
    return g.emit({'f': r.choice(['sc_to_fc', 'fc_to_sc']), 'a': [n, m, rows, cols], 'len': ln, 'd': r.randrange(1 << 30)})


def op_afresh(g, op):
    """One of the operands of the operation is edited, and the operation is done again."""
    r = g.r
    own = sorted({x[1:] for x in op.get('a', ()) if isinstance(x, str) and x[1:] in g.own and x[1:] != op.get('out')})
    if not own:
        return
    n = r.choice(own)
    k, a, b = g.own[n]
    if k in ('sp', 'vp'):
        g.emit({'f': 'pset', 'a': ['$' + n, r.randrange(a), r.randrange(b), val(r)], 'which': r.choice([1, 2])})
    else:
        i = r.randint(0, a)
        j = r.randint(-min(i, b), min(i, b))
        g.emit({'f': 'set', 'a': ['$' + n, i, j, val(r)]} if k == 'sc' else {'f': 'vset', 'a': ['$' + n, i, j, val(r), val(r)]})
    new = {x: y for x, y in op.items() if x not in ('irq', 'oom', 'tr', 'top', 'retry', 'out', 'ks')}
    out = g.own.get(op.get('out'))
    g.emit(copy.deepcopy(new), out)
    if r.random() < 0.5:
        g.ops[-1]['tr'] = 'no'


def op_any(g, w, edits=True):
    r = g.r
    f = r.choices(list(w), weights=list(w.values()))[0]
    if f == 'st':
        return op_transform(g, False)
    if f == 'vt':
        return op_transform(g, True)
    if f == 'arith':
        return op_arith(g)
    if f == 'norm':
        return op_norm(g)
    if f == 'cont':
        return op_cont(g, edits)
    if f == 'patt':
        return op_patt(g, edits)
    if f == 'bess':
        return op_bess(g)
    if f == 'tab':
        return op_tab(g)
    if f == 'nat':
        return op_nat(g)
    return op_misc(g)


# ---------------------------------------------------------------- profiles
# weights of operation families; objects; faults
PROFILE = {
    'C01': dict(w={'st': 8, 'arith': 0.5, 'patt': 0.3, 'vt': 0.7, 'cont': 0.3}, objs=['sc', 'bsp', 'sc', 'bsp', 'sp', 'vc'],
                irq=0.12, oom=0.08, toggle=0.25, big=0.3),
    'C02': dict(w={'vt': 8, 'arith': 0.5, 'patt': 0.3, 'st': 0.7, 'cont': 0.3}, objs=['vc', 'bvp', 'vc', 'bvp', 'vp', 'sc'],
                irq=0.12, oom=0.08, toggle=0.25, big=0.3),
    'C03': dict(w={'st': 3, 'vt': 3, 'arith': 2, 'norm': 2, 'cont': 2, 'patt': 1.5, 'misc': 1.5, 'bess': 0.6, 'tab': 0.5},
                objs=['sc', 'bsp', 'vc', 'bvp', 'sp', 'vp'], irq=0.15, oom=0.1, toggle=0, big=0.05, wide=0.06, probe={'pristine': 14}),
    'C04': dict(w={'st': 3, 'vt': 3, 'arith': 3, 'norm': 2.5, 'cont': 4, 'patt': 2, 'misc': 1.5, 'bess': 0.5, 'tab': 0.3},
                objs=['sc', 'vc', 'bsp', 'bvp', 'sp', 'vp'], irq=0.15, oom=0.1, toggle=0.15, big=0.05, wide=0.06, probe={'poke': 1}),
    'C05': dict(w={'st': 4, 'vt': 4, 'norm': 0.5, 'arith': 0.6, 'nat': 0.5}, objs=['sc', 'vc', 'bsp', 'bvp', 'sp', 'vp'],
                irq=0.08, oom=0.05, toggle=0.6, big=0.1, probe={'backends': 1}),
    'C09': dict(w={'st': 4, 'vt': 4, 'arith': 2, 'norm': 1, 'cont': 1.5, 'patt': 1, 'nat': 0.5}, objs=['sc', 'vc', 'bsp', 'bvp', 'sp', 'vp'],
                irq=0.05, oom=0.75, toggle=0.1, big=0.05, probe={'leak': 1}),
    'C10': dict(w={'st': 5, 'vt': 5, 'norm': 0.3, 'nat': 3}, objs=['sc', 'vc', 'bsp', 'bvp', 'sp', 'vp'],
                irq=0.05, oom=0.1, toggle=0.05, big=0.25, probe={'leak': 1, 'twice': 1, 'memcheck': 1}),
    'C11': dict(w={'cont': 9, 'arith': 1, 'norm': 0.5, 'st': 0.3}, objs=['sc', 'vc', 'sc', 'vc'],
                irq=0.2, oom=0.05, toggle=0, big=0.0, wide=0.12, probe={'views': 1}),
    'C12': dict(w={'arith': 6, 'norm': 6, 'cont': 1, 'patt': 0.7}, objs=['sc', 'vc', 'sp', 'vp', 'bsp', 'bvp'],
                irq=0.12, oom=0.1, toggle=0, big=0.0, wide=0.08),
    'C17': dict(w={'bess': 9, 'misc': 0.3, 'st': 0.3}, objs=['sc', 'sp'], irq=0.15, oom=0.12, toggle=0, big=0.0),
    'C18': dict(w={'tab': 9, 'st': 0.6, 'misc': 0.3, 'arith': 0.3}, objs=['sc', 'bsp', 'sc'], irq=0.15, oom=0.12, toggle=0.1, big=0.0),
    'C13': dict(w={'patt': 8, 'arith': 3, 'st': 0.7, 'vt': 0.7}, objs=['sp', 'vp', 'bsp', 'bvp', 'sc', 'vc'],
                irq=0.15, oom=0.08, toggle=0.1, big=0.0, wide=0.08),
}
SITES = ['native', 'fft', 'array']
# how often something happens at a chosen line of the routine called itself
TOP = {'C01': 0.12, 'C02': 0.15, 'C03': 0.1, 'C05': 0.6, 'C12': 0.1, 'C13': 0.1, 'C17': 0.1, 'C18': 0.1, 'C11': 0.1, 'C04': 0.2}


def fault(g, op, P):
    r = g.r
    if 'out' in op or True:
        x = r.random()
        if x < P['irq']:
            op['irq'] = loguni(r, 1, 600 if r.random() < 0.7 else 8000)
            if r.random() < 0.15 and op.get('tr') != 'no':
                op['tr'] = 'op'
            return True
        if x < P['irq'] + P['oom']:
            native = op['f'] in ('spht', 'ispht', 'vspht', 'vispht', 'sc_to_fc', 'fc_to_sc')
            site = r.choice(SITES) if native else 'array'
            k = loguni(r, 1, {'native': 14, 'fft': 10, 'array': 45}[site])
            if r.random() < 0.4:
                k = r.random()          # anywhere among all the allocations of the call
            op['oom'] = [site, k, int(r.random() < 0.25)]
            return True
    return False


def cost(op, g):
    """Rough number of traced lines: keeps traced calls small."""
    return 0


LONG = {'C01': 0.015, 'C02': 0.015, 'C03': 0.03, 'C04': 0.015, 'C05': 0.01, 'C10': 0.01, 'C12': 0.01, 'C13': 0.01, 'C17': 0.02, 'C18': 0.03}


def world(prop, seed, tier):
    r = random.Random('%s/%d' % (prop, seed))
    P = PROFILE[prop]
    if r.random() < P['big']:
        return world_big(prop, seed, r, P, tier)
    nthr = r.choice([1, 1, 2, 2, 3, 4]) if prop not in ('C11', 'C13') else r.choice([1, 1, 1, 2, 3])
    small = r.choice([3, 5, 7, 9])
    wide = r.random() < P.get('wide', 0)
    if wide:            # larger objects, one caller, not traced
        nthr, small = 1, r.choice([15, 20, 30, 30, 50, 50, 130 if prop in ('C11', 'C12') else 50])
    long = not wide and r.random() < LONG.get(prop, 0)
    if long:            # one caller, many calls over objects of many sizes
        nthr, small = 1, r.choice([5, 9, 14])
    shared = {}
    kinds = KINDS04 if prop in ('C04', 'C11') else KINDS
    for i in range(r.randint(2, 4)):
        shared['S%d' % i] = spec(r, r.choice(P['objs']), small, kinds)
    if prop in ('C12', 'C11', 'C04', 'C13') or r.random() < 0.3:
        # a second object of equal shape, and one of equal count but other shape
        s0 = dict(shared['S0'])
        s0['d'] = r.randrange(1 << 30)
        shared['S9'] = s0
        if s0['t'] in ('sc', 'vc') and r.random() < 0.4:
            a, b = r.choice([((5, 0), (2, 1)), ((8, 0), (2, 2)), ((6, 0), (2, 1)), ((3, 3), (5, 1)), ((14, 0), (5, 1))])
            for nm, (n, m) in (('S7', a), ('S8', b)):
                shared[nm] = {'t': s0['t'], 'n': n, 'm': m, 'd': r.randrange(1 << 30)}
    shapes = {n: shape(s) for n, s in shared.items()}
    threads = []
    nops = {1: (4, 16), 2: (3, 9), 3: (2, 7), 4: (2, 6)}[nthr]
    for ti in range(nthr):
        g = G(r, shapes)
        for _ in range(r.randint(1, 3) if not long else 12):
            g.add_own(r.choice(P['objs']), small, kinds)
        if P['w'].get('cont', 0) >= 2:
            g.add_own(r.choice(['sc', 'vc', 'sc']), small, kinds)
        k = r.randint(*nops)
        if long:
            k = r.choice([60, 150, 300])
        if wide and prop == 'C11':
            g.add_own('sc', small, kinds)
            k *= 2
        if prop in ('C11', 'C12', 'C13', 'C04'):
            k *= 2
        if prop in ('C01', 'C03', 'C04', 'C05', 'C12') and r.random() < 0.3:
            op_real(g)
        guard = 0
        while k > 0 and guard < 800:
            guard += 1
            op = op_any(g, P['w'])
            if op is None:
                continue
            k -= 1
            if fault(g, op, P) and r.random() < 0.6:
                # the same call again, without the fault
                again = {x: y for x, y in op.items() if x not in ('irq', 'oom') and (x != 'tr' or y == 'no')}
                again['retry'] = True
                g.ops.append(again)
            elif nthr == 1 and (wide or r.random() < 0.5):
                op['tr'] = 'no'
            elif r.random() < 0.04 and op.get('tr') != 'no':
                op['tr'] = 'op'
            if op.get('tr') != 'no' and r.random() < TOP.get(prop, 0):
                acts = ['sw'] if nthr > 1 else ['irq']
                if prop in ('C01', 'C02', 'C05'):
                    acts += ['tog'] * (8 if prop == 'C05' else 1)
                if 'irq' not in op and prop not in ('C05',):
                    acts.append('irq')
                op['top'] = [[r.randint(1, 60 if r.random() < 0.5 else 15), r.choice(acts)]
                             for _ in range(r.choice([1, 1, 1, 2, 3]))]
            if r.random() < 0.06 and prop in ('C01', 'C02', 'C04', 'C09', 'C10', 'C13'):
                g.ops.append({'f': 'backend', 'v': bool(r.getrandbits(1))})
            if prop == 'C10' and r.random() < 0.25:
                op['leak'] = 1
            if r.random() < 0.1 and op['f'] not in ('set', 'vset', 'setcol', 'setrow', 'vsetcol', 'window', 'pset'):
                op_afresh(g, op)
        if long or (wide and small > 50):
            for o in g.ops:
                o.pop('irq', None)
                o.pop('top', None)
                o['tr'] = 'no'
        threads.append({'own': g.specs, 'ops': g.ops})
    twins = nthr > 1 and prop not in ('C09', 'C10') and r.random() < 0.25
    if twins:           # all callers do the same to objects of the same shapes
        for ti in range(1, nthr):
            t = copy.deepcopy(threads[0])
            for s in t['own'].values():
                s['d'] = r.randrange(1 << 30)
            threads[ti] = t
    common = None
    if prop == 'C11' and nthr > 1 and r.random() < 0.6:
        common = common_ops(r, threads, P)
    case = {'engine': 'world', 'prop': prop, 'seed': seed, 'ext': 'plain', 'shared': shared, 'threads': threads,
            'alloc': {'mode': 0, 'poison': r.choice([0xA5, 0x7F, 0xFF, 0x3F])},
            'backend': r.random() < (0.75 if prop not in ('C10', 'C09') else 0.9),
            'sched': {'seed': r.randrange(1 << 30), 'gap': 0.0 if nthr == 1 else math.exp(r.uniform(math.log(0.0008), math.log(0.3)))},
            'probe': dict(P.get('probe', {}))}
    if common:
        case['common'] = common
    if prop == 'C03':
        case['probe']['poison2'] = 0x11
    if r.random() < P['toggle']:
        case['toggle'] = r.randint(2, 30)
        if case['sched']['gap'] == 0.0:
            case['sched']['gap'] = 0.02
    if prop == 'C10':
        case['alloc']['mode'] = seed % 3
        case['ext'] = 'hard' if (seed // 3) % 2 else 'plain'
    return case


def common_ops(r, threads, P):
    """All callers fill one set, each its own rows (or its own columns)."""
    sp = spec(r, r.choice(['sc', 'sc', 'vc']), 6)
    n, m = sp['n'], sp['m']
    cols = sp['t'] == 'sc' and m > 0 and r.random() < 0.5
    for ti, th in enumerate(threads):
        mine = [(a, b) for a in range(int(sp['t'] == 'vc'), n + 1) for b in range(-min(a, m), min(a, m) + 1)
                if (b + m if cols else a) % len(threads) == ti]
        if not mine:
            continue
        for _ in range(r.randint(1, 6)):
            a, b = r.choice(mine)
            op = {'f': 'common', 'k': 'set', 'n': a, 'm': b, 'd': r.randrange(1 << 30)}
            if sp['t'] == 'sc' and r.random() < 0.4:
                op['k'] = 'col' if cols else 'row'
            if r.random() < P['irq']:
                op['irq'] = loguni(r, 1, 60)
            elif r.random() < 0.4:
                op['top'] = [[r.randint(1, 15), 'sw'] for _ in range(r.choice([1, 1, 2]))]
            th['ops'].insert(r.randint(0, len(th['ops'])), op)
    return sp


def world_big(prop, seed, r, P, tier):
    """One caller, larger sizes, no tracing: size-dependent behaviour."""
    vec = prop == 'C02' or (prop in ('C05', 'C10', 'C09') and r.random() < 0.5)
    top = 60 if prop != 'C05' else 24
    if prop in ('C01', 'C02', 'C10') and r.random() < 0.12:
        top = 110 if tier == 'quick' else 220
    n = loguni(r, 10, top)
    m = r.choice([n, n, r.randint(0, n), min(n, 2), 0])
    tall = prop in ('C01', 'C02', 'C05', 'C10') and r.random() < 0.1
    if tall:            # high degrees, few orders
        n, m = loguni(r, 100, 400 if prop == 'C05' else 1400), r.choice([0, 1, 1, 2, 3])
    huge = prop == 'C01' and not tall and r.random() < (0.012 if tier == 'quick' else 0.02)
    if huge:            # where starting values leave the range of doubles
        n = r.randint(501, 560)
        if tier != 'quick' and r.random() < 0.15:
            n += 500
        m = n - min(n - 100, int(4 ** r.uniform(0, 4)) - 1)
    rows, cols = grid(r, n, m)
    if r.random() < 0.3 and not huge:
        rows += r.randint(0, 20)
        cols += 2 * r.randint(0, 10)
    specs, ops_ = {}, []
    t1, t2 = ('vc', 'bvp') if vec else ('sc', 'bsp')
    k = 'few' if huge else r.choice(['normal', 'normal', 'single', 'sparse', 'int'])
    specs['A0'] = {'t': t1, 'n': n, 'm': m, 'd': r.randrange(1 << 30), 'k': k}
    specs['A1'] = {'t': t2, 'n': n, 'm': m, 'r': rows, 'c': cols, 'd': r.randrange(1 << 30), 'k': k}
    fi, ff = ('vispht', 'vspht') if vec else ('ispht', 'spht')
    ops_.append({'f': fi, 'a': ['$A0', rows, cols], 'kw': {}, 'tr': 'no'})
    ops_.append({'f': ff, 'a': ['$A1'] + r.choice([[n, m], [n, m], [max(m, n // 2), m]]), 'kw': {}, 'tr': 'no'})
    if huge:
        ops_ = [ops_[r.randrange(2 if n < 1000 else 1)]]
    elif r.random() < 0.5 and m == min(rows - 2, cols // 2 - 1):
        ops_.append({'f': ff, 'a': ['$A1'], 'kw': {}, 'tr': 'no'})
    if r.random() < 0.3 and not huge:
        ops_.append({'f': fi, 'a': ['$A0'], 'kw': {}, 'tr': 'no'})
    if r.random() < 0.4 and not huge:
        o = dict(r.choice(ops_))
        o['oom'] = [r.choice(SITES), loguni(r, 1, 40) if r.random() < 0.5 else r.random(), 0]
        ops_.insert(r.randrange(len(ops_)), o)
    if prop == 'C10':
        ops_[0]['leak'] = 1
        ops_[1]['leak'] = 1
    case = {'engine': 'world', 'prop': prop, 'seed': seed, 'ext': 'plain', 'shared': {},
            'threads': [{'own': specs, 'ops': ops_}], 'alloc': {'mode': 0, 'poison': r.choice([0xA5, 0x7F, 0xFF])},
            'backend': n > 24 or r.random() < 0.7, 'sched': {'seed': 0, 'gap': 0.0}, 'probe': dict(P.get('probe', {}))}
    if prop == 'C10':
        case['alloc']['mode'] = seed % 3
        case['ext'] = 'hard' if (seed // 3) % 2 else 'plain'
    return case


WORLD = tuple(PROFILE)


def generate(prop, seed, tier):
    if (prop == 'C05' and seed % 8 == 7) or (prop in ('C04', 'C09') and seed % 7 == 6):
        from . import gen2
        return gen2.generate(prop, seed, tier)
    if prop in WORLD:
        return world(prop, seed, tier)
    from . import gen2
    return gen2.generate(prop, seed, tier)
