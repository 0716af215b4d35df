"""Reference models, written from the mathematical definitions and sharing no
code with the package under test."""
import math

import numpy as np


def modes(nmax, mmax):
    """All valid (n, m), in storage-independent order."""
    return [(n, m) for n in range(nmax + 1)
            for m in range(-min(n, mmax), min(n, mmax) + 1)]


_cache = {}


def legendre(nmax, nrows, mmax=None):
    """P[n][m] (theta grid) of the orthonormal associated Legendre functions
    without Condon-Shortley phase, m = 0..mmax+1, and Q = P / sin(theta)."""
    if mmax is None or mmax > nmax or nmax < 60:
        mmax = nmax
    key = (nmax, nrows, mmax)
    if key in _cache:
        return _cache[key]
    th = np.linspace(0.0, np.pi, nrows)
    x, s = np.cos(th), np.sin(th)
    M = mmax + 2
    P = np.zeros((nmax + 1, M, nrows))
    Q = np.zeros((nmax + 1, M, nrows))
    pmm = np.full(nrows, np.sqrt(1.0 / (4.0 * np.pi)))
    qmm = None
    for m in range(0, min(nmax, M - 1) + 1):
        if m > 0:
            f = np.sqrt((2.0 * m + 1.0) / (2.0 * m))
            qmm = f * pmm
            pmm = f * s * pmm
        for T, tmm in ((P, pmm), (Q, qmm)):
            if tmm is None:
                continue
            T[m, m] = tmm
            if m + 1 <= nmax:
                T[m + 1, m] = np.sqrt(2.0 * m + 3.0) * x * tmm
            for n in range(m + 2, nmax + 1):
                a = np.sqrt((4.0 * n * n - 1.0) / (n * n - m * m))
                b = np.sqrt(((n - 1.0) ** 2 - m * m) / (4.0 * (n - 1.0) ** 2 - 1.0))
                T[n, m] = a * (x * T[n - 1, m] - b * T[n - 2, m])
    if len(_cache) > 60 or nmax > 300:
        _cache.clear()
    _cache[key] = (P, Q)
    return P, Q


def _dP(P, n, m):
    lo = np.sqrt((n + m) * (n - m + 1.0)) * P[n, m - 1] if m > 0 else \
        -np.sqrt(n * (n + 1.0)) * P[n, 1]
    hi = np.sqrt((n - m) * (n + m + 1.0)) * P[n, m + 1]
    return 0.5 * (lo - hi)


def _sgn(m):
    return (-1.0) ** m if m > 0 else 1.0


def _phase(m, ncols):
    return np.exp(2j * np.pi * m * np.arange(ncols) / ncols)


def table(nmax, mmax, vals):
    """vals: dict (n, m) -> value."""
    return vals


def synth(vals, nmax, mmax, nrows, ncols):
    """Scalar harmonic sum on the grid."""
    if nmax > 300 and mmax > 60:       # sparse sets only
        out = np.zeros((nrows, ncols), dtype=np.complex128)
        for (n, m), v in vals.items():
            if v != 0:
                out += v * harmonic(n, m, nrows, ncols)
        return out
    P, _ = legendre(nmax, nrows, mmax)
    out = np.zeros((nrows, ncols), dtype=np.complex128)
    for m in range(-mmax, mmax + 1):
        am = abs(m)
        c = np.array([vals[(n, m)] for n in range(am, nmax + 1)], dtype=np.complex128)
        col = _sgn(m) * np.dot(c, P[am:nmax + 1, am])
        out += np.outer(col, _phase(m, ncols))
    return out


def harmonic(n, m, nrows, ncols):
    """One scalar harmonic on the grid, in extended range."""
    th = np.linspace(0.0, np.pi, nrows).astype(np.longdouble)
    x, s = np.cos(th), np.sin(th)
    am = np.longdouble(abs(m))
    a = np.full(nrows, np.sqrt(1.0 / (4.0 * np.longdouble(np.pi))))
    for k in range(1, abs(m) + 1):
        a = np.sqrt(np.longdouble(2 * k + 1) / (2 * k)) * s * a
    b = np.sqrt(2 * am + 3) * x * a
    if n == abs(m):
        b = a
    for k in range(abs(m) + 2, n + 1):
        k = np.longdouble(k)
        f = np.sqrt((4 * k * k - 1) / (k * k - am * am))
        h = np.sqrt(((k - 1) ** 2 - am * am) / (4 * (k - 1) ** 2 - 1))
        a, b = b, f * (x * b - h * a)
    return np.outer(_sgn(m) * b.astype(float), _phase(m, ncols))


def vsynth(v1, v2, nmax, mmax, nrows, ncols):
    """Vector harmonic sum: theta and phi components on the grid."""
    P, Q = legendre(nmax, nrows, mmax)
    th = np.zeros((nrows, ncols), dtype=np.complex128)
    ph = np.zeros((nrows, ncols), dtype=np.complex128)
    for m in range(-mmax, mmax + 1):
        am = abs(m)
        a = np.zeros(nrows, dtype=np.complex128)
        b = np.zeros(nrows, dtype=np.complex128)
        for n in range(max(am, 1), nmax + 1):
            w = _sgn(m) / np.sqrt(n * (n + 1.0))
            L1 = -m * Q[n, am] * w if m else np.zeros(nrows)
            L2 = -1j * _dP(P, n, am) * w
            c1, c2 = v1[(n, m)], v2[(n, m)]
            a += c1 * L1 - 1j * c2 * L2
            b += c1 * L2 + 1j * c2 * L1
        e = _phase(m, ncols)
        th += np.outer(a, e)
        ph += np.outer(b, e)
    return th, ph


def _dft(f):
    """phi-DFT by definition: dict m -> column, and the scale of the data."""
    ncols = f.shape[1]
    k = np.arange(ncols)
    out = {}
    for m in range(-(ncols // 2), ncols // 2):
        out[m] = np.dot(f, np.exp(-2j * np.pi * m * k / ncols)) / ncols
    return out


def analyse(f):
    """Coefficients of a band-limited single-sphere pattern, by least squares on
    the definition.  Returns (vals, nmax, mmax, residual relative to scale)."""
    nrows, ncols = f.shape
    nmax, mmax = nrows - 2, ncols // 2 - 1
    scale = np.abs(f).max()
    if nmax < 0 or scale == 0 or not np.isfinite(scale):
        z = {} if nmax < 0 else {k: 0j for k in modes(nmax, min(mmax, nmax))}
        return z, nmax, min(mmax, nmax), 0.0 if scale == 0 else np.inf
    P, _ = legendre(nmax, nrows)
    F = _dft(f)
    res = 0.0
    vals = {}
    for m, col in F.items():
        am = abs(m)
        if am > nmax or am > mmax:
            res = max(res, np.abs(col).max())
            continue
        A = _sgn(m) * P[am:nmax + 1, am].T
        c = np.linalg.lstsq(A, col, rcond=None)[0]
        res = max(res, np.abs(A.dot(c) - col).max())
        for n in range(am, nmax + 1):
            vals[(n, m)] = c[n - am]
    return vals, nmax, min(mmax, nmax), res / scale


def vanalyse(ft, fp):
    nrows, ncols = ft.shape
    nmax, mmax = nrows - 2, ncols // 2 - 1
    scale = max(np.abs(ft).max(), np.abs(fp).max())
    mm = min(mmax, max(nmax, 0))
    if nmax < 0 or scale == 0 or not np.isfinite(scale):
        z = {k: 0j for k in modes(max(nmax, 0), mm)}
        return z, dict(z), nmax, mm, 0.0 if scale == 0 else np.inf
    P, Q = legendre(nmax, nrows)
    FT, FP = _dft(ft), _dft(fp)
    res = 0.0
    v1, v2 = {(0, 0): 0j}, {(0, 0): 0j}
    for m in FT:
        am = abs(m)
        if am > nmax or am > mmax:
            res = max(res, np.abs(FT[m]).max(), np.abs(FP[m]).max())
            continue
        ns = list(range(max(am, 1), nmax + 1))
        K = len(ns)
        rhs = np.concatenate([FT[m], FP[m]])
        if K == 0:
            res = max(res, np.abs(rhs).max())
            continue
        A = np.zeros((2 * nrows, 2 * K), dtype=np.complex128)
        for i, n in enumerate(ns):
            w = _sgn(m) / np.sqrt(n * (n + 1.0))
            L1 = -m * Q[n, am] * w
            L2 = -1j * _dP(P, n, am) * w
            A[:nrows, i] = L1
            A[nrows:, i] = L2
            A[:nrows, K + i] = -1j * L2
            A[nrows:, K + i] = 1j * L1
        c = np.linalg.lstsq(A, rhs, rcond=None)[0]
        res = max(res, np.abs(A.dot(c) - rhs).max())
        for i, n in enumerate(ns):
            v1[(n, m)] = c[i]
            v2[(n, m)] = c[K + i]
    return v1, v2, nmax, mm, res / scale


def double(f, sym):
    """Interior of the double-sphere continuation; pole rows left NaN."""
    nrows, ncols = f.shape
    h = ncols // 2
    D = np.full((2 * nrows - 2, ncols), np.nan, dtype=np.complex128)
    for n in range(1, nrows - 1):
        D[n] = f[n]
        D[2 * nrows - 2 - n] = np.roll(f[n] if sym > 0 else -f[n], -h)
    return D


def asymmetry(D, sym):
    """Largest absolute violation of D[n, k] == sym * D[-n, k + ncols/2]."""
    R, C = D.shape
    E = sym * np.roll(np.roll(D[::-1], 1, axis=0), -(C // 2), axis=1)
    return float(np.abs(D - E).max()) if D.size else 0.0


_bess = {}


def bessel(x, N):
    """Spherical Bessel functions j_n(x), y_n(x), n = 0..N-1, as Decimals: y by upward
    recurrence, j by downward recurrence from far above, both from sin and cos
    computed with 60 digits."""
    key = (x, N)
    if key in _bess:
        return _bess[key]
    from decimal import Decimal as D, localcontext
    with localcontext() as ctx:
        extra = int(max(0.0, -2 * math.log10(x))) + 5     # cancellation for small x
        ctx.prec = 60 + extra + int(0.9 * x)
        X = D(x)
        sn, cs, t, k = D(0), D(0), D(1), 0
        while k < x or abs(t) > D(10) ** -(60 + extra):
            if k % 2 == 0:
                cs += t if k % 4 == 0 else -t
            else:
                sn += t if k % 4 == 1 else -t
            k += 1
            t = t * X / k
        ctx.prec = 60 + extra
        y = [-cs / X, -cs / (X * X) - sn / X]
        for n in range(2, N):
            y.append((2 * n - 1) / X * y[-1] - y[-2])
        j0, j1 = sn / X, sn / (X * X) - cs / X
        top = int(max(N, x)) + 80 + int(8 * x ** 0.34)
        a, b = D(0), D(10) ** -50
        j = [D(0)] * (top + 1)
        j[top] = b
        for n in range(top, 0, -1):
            a, b = b, (2 * n + 1) / X * b - a
            j[n - 1] = b
        f = j0 / j[0] if abs(j[0]) >= abs(j[1]) else j1 / j[1]
        out = [v * f for v in j[:N]], [+v for v in y[:N]]
    if len(_bess) > 50:
        _bess.clear()
    _bess[key] = out
    return out
