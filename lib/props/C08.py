"""Roots and extrema."""
import numpy as np
import gen
from gen import V, inside, domain

RULE = ('functions with prescribed separated roots (0..14 of them, at the ends too, degree to 300, also after oscillating '
        'factors), waves with up to 400 roots and random series to 1500 coefficients, 1..4 columns, on random domains and scales; every reported '
        'root must be a root, every certified sign change must be reported, prescribed roots must be reported exactly once; '
        'extrema against dense sampling; distinct by kind, number of roots, size and columns')
SPLIT = -0.004849834917525     # where the code splits its interval: a root exactly there is a known ambiguity


def seps(rng, k, gap):
    for _ in range(200):
        r = np.sort(rng.uniform(-0.98, 0.98, k))
        if k < 2 or np.min(np.diff(r)) > gap:
            if np.all(np.abs(r - SPLIT) > 1e-3):
                return r
    return np.linspace(-0.9, 0.93, k) if k else r[:0]


def back(dom, t):
    a, b = float(dom[0]), float(dom[-1])
    return a + (b - a) * (np.asarray(t) + 1) / 2


def check_roots(c, r, expect, dom, label, tol=1e-7):
    r = np.asarray(r, float).reshape(-1)
    L = float(dom[-1]) - float(dom[0])
    c.true('roots are inside the domain', r.size == 0 or (r.min() >= dom[0] - 1e-12 * (L + abs(dom[0])) and r.max() <= dom[-1] + 1e-12 * (L + abs(dom[-1]))), lambda: str(r))
    c.true(label + ': number of roots', r.size == len(expect), lambda: 'found %s expected %s' % (np.sort(r), expect))
    if r.size == len(expect) and r.size:
        c.close(label + ': location of roots', np.sort(r), np.sort(expect), tol, scale=L)


def prescribed(c):
    from funpy import roots, Fun
    rng = c.rng
    dom = domain(rng)
    m = int(rng.choice([1, 1, 1, 2, 4]))
    data = []
    for j in range(m):
        k = int(rng.integers(0, 15))
        r = seps(rng, k, 0.05)
        if k and rng.random() < .25:
            r = r.copy()
            r[0] = -1.0
        if k > 1 and rng.random() < .25:
            r = r.copy()
            r[-1] = 1.0
        s = float(10.0 ** rng.choice([0, 0, 0, -20, 20]))
        w = float(rng.choice([0, 0, 5, 30, 100]))
        data.append((r, s, w))
    to = lambda x: gen.to_ref(dom, x)

    def mk(r, s, w):
        # sin-like shape with simple well conditioned roots: product of tanh-free factors normalised pairwise
        def op(x):
            t = to(x)
            v = np.full(np.shape(t), s)
            for q in r:
                v = v * (t - q)
            return v * (2.5 + np.cos(w * t)) * 2.0 ** len(r)
        return op
    ops = [mk(*d) for d in data]
    c.describe('prescribed roots %s on %s' % ([list(np.round(d[0], 3)) for d in data], list(dom)))
    f = c.do('construct', lambda: Fun(op=ops if m > 1 else ops[0], domain=dom))
    R = c.do('roots', lambda: roots(f), f)
    for j, (r, s, w) in enumerate(data):
        got = R if m == 1 else R[j]
        # conditioning: slope at the roots relative to the size
        t = np.linspace(-1, 1, 2001)
        v = np.abs(ops[j](back(dom, t)))
        slope = min([np.abs(np.prod(np.delete(q - r, i))) * s * 2.0 ** len(r) for i, q in enumerate(r)] or [1.0])
        cond = 1e-12 * v.max() / slope
        off = (abs(dom[0]) + abs(dom[-1])) / (dom[-1] - dom[0])
        if cond < 1e-5:
            if len(r) > 3 or w:
                # a root exactly at an end is found or not depending on rounding
                got, r = (np.asarray(z, float).reshape(-1) for z in (got, r))
                L = float(dom[-1]) - float(dom[0])
                near = 1e-9 + 20 * cond + 1e-15 * off
                inn = (got > dom[0] + near * L) & (got < dom[-1] - near * L)
                c.true('at most one root at each end', np.sum(got <= dom[0] + near * L) <= (1 if len(r) and r[0] == -1 else 0)
                       and np.sum(got >= dom[-1] - near * L) <= (1 if len(r) and r[-1] == 1 else 0), lambda: str(got))
                got, r = got[inn], r[np.abs(r) < 1]
            check_roots(c, got, back(dom, r), dom, 'prescribed', tol=1e-9 + 20 * cond + 1e-15 * off)
            c.seen('prescribed', len(r), m, w, bool(len(r) and r[0] == -1), bool(len(r) and r[-1] == 1))


def wave(c):
    from funpy import roots, Fun
    rng = c.rng
    dom = domain(rng)
    w = float(10 ** rng.uniform(0, 2.8))
    p = float(rng.uniform(0, np.pi))
    to = lambda x: gen.to_ref(dom, x)
    g = rng.uniform(-1, 1)
    op = lambda x: np.sin(w * to(x) + p) * np.exp(g * to(x))
    k = np.arange(np.ceil((p - w) / np.pi), np.floor((p + w) / np.pi) + 1)
    r = (k * np.pi - p) / w
    if np.any(np.abs(np.abs(r) - 1) * w < 1e-4) or np.any(np.abs(r - SPLIT) < 1e-6):
        c.event('ambiguous end root skipped')
        return
    r = r[(r > -1) & (r < 1)]
    c.describe('wave w=%.3f with %d roots on %s' % (w, len(r), list(dom)))
    f = c.do('construct', lambda: Fun(op=op, domain=dom))
    R = c.do('roots', lambda: roots(f), f)
    check_roots(c, R, back(dom, r), dom, 'wave', tol=1e-9)
    f2 = c.do('2 f', lambda: 2.0 ** -40 * f, f)
    check_roots(c, c.do('roots of multiple', lambda: roots(f2), f2), back(dom, r), dom, 'wave', tol=1e-9)
    c.seen('wave', len(r), f.n)


def series(c):
    from funpy import roots
    rng = c.rng
    dom = domain(rng)
    u = rng.random()
    if u < .03:
        n = int(rng.choice([700, 1000, 1500]))
    elif u < .15:       # sizes at which the algorithm changes
        n = int(rng.choice([2, 3, 48, 49, 50, 51, 52, 53, 511, 512, 513, 514, 515, 516]))
    else:
        n = gen.size(rng, .05)
    m = int(rng.choice([1, 1, 2, 3]))
    a = gen.coeffs(rng, n, m, decay=rng.choice([0.0, 1.0, -1.0]))
    f = gen.fun(a, dom)
    c.describe('roots of a random series n=%d m=%d on %s' % (n, m, list(dom)))
    R = c.do('roots', lambda: roots(f), f)
    G = np.cos(np.pi * np.arange(30 * n + 400)[::-1] / (30 * n + 399))
    v = gen.ceval(a, G)
    for j in range(m):
        r = np.asarray(R if m == 1 else R[j], float).reshape(-1)
        col = a[:, j]
        s = np.max(np.abs(v[:, j]))
        if not np.any(col):
            c.event('zero columns')
            continue
        if np.max(np.abs(col[1:]), initial=0) < 1e-9 * abs(col[0]):
            c.true('constants have no roots', r.size == 0)
            continue
        t = gen.to_ref(dom, r) if r.size else r
        c.true('roots are inside the domain', r.size == 0 or (r.min() >= dom[0] - 1e-9 and r.max() <= dom[-1] + 1e-9))
        if r.size:
            fv = np.abs(gen.ceval(col[:, None], t)[:, 0])
            # slope at the root times the accuracy of a root
            dv = np.abs(gen.ceval(gen.cder(col[:, None]), t)[:, 0])
            c.true('a reported root is a root', np.all(fv <= 1e-9 * s + 1e-9 * dv + 1e-9 * np.sum(np.abs(col)) + gen.argtol(col[:, None], dom)), lambda: 'f(root)=%s scale %g' % (fv.max(), s))
        # certified sign changes: both neighbours clearly away from zero
        big = np.abs(v[:, j]) > 1e-6 * s
        idx = np.where(big[:-1] & big[1:] & (np.sign(v[:-1, j]) != np.sign(v[1:, j])))[0]
        lo, hi = G[idx] - 1e-9, G[idx + 1] + 1e-9
        ts = np.sort(t)
        cnt = np.searchsorted(ts, hi) - np.searchsorted(ts, lo)
        c.true('every sign change is found', np.all(cnt >= 1), lambda: '%d of %d missing, first in [%g, %g]' % (np.sum(cnt < 1), len(idx), lo[cnt < 1][0], hi[cnt < 1][0]))
        c.event('sign changes certified', len(idx))
        c.seen('series', n, m, len(idx))


def extrema(c):
    from funpy import minandmax
    rng = c.rng
    dom = domain(rng)
    n = gen.size(rng, .02)
    m = int(rng.choice([1, 1, 2, 3, 5]))
    sc = float(10.0 ** rng.choice([0, 0, 0, -15, 15]))
    a = gen.coeffs(rng, n, m, scale=sc)
    f = gen.fun(a, dom)
    c.describe('extrema n=%d m=%d scale %g on %s' % (n, m, sc, list(dom)))
    vals, pos = c.do('minandmax', lambda: minandmax(f), f)
    G = np.cos(np.pi * np.arange(30 * n + 400) / (30 * n + 399))
    v = gen.ceval(a, G)
    vals, pos = np.asarray(vals).reshape(2, m), np.asarray(pos).reshape(2, m)
    c.true('positions inside the domain', pos.min() >= dom[0] - 1e-12 * (abs(dom[0]) + abs(dom[-1])) and pos.max() <= dom[-1] + 1e-12 * (abs(dom[0]) + abs(dom[-1])), lambda: str(pos))
    for j in range(m):
        s = np.sum(np.abs(a[:, j]))
        tol = 1e-9 * s
        c.true('minimum bounds the function', vals[0, j] <= v[:, j].min() + tol, lambda: '%g > %g' % (vals[0, j], v[:, j].min()))
        c.true('maximum bounds the function', vals[1, j] >= v[:, j].max() - tol, lambda: '%g < %g' % (vals[1, j], v[:, j].max()))
        at = gen.ceval(a[:, j:j + 1], gen.to_ref(dom, pos[:, j]))[:, 0]
        c.close('extrema are attained where reported', at, vals[:, j], 1, scale=tol + gen.argtol(a[:, j:j + 1], dom) * 10)
    c.seen('extrema', n, m)


GROUPS = {'prescribed': (prescribed, 1800, 24000), 'wave': (wave, 750, 7500), 'series': (series, 1500, 18000),
          'extrema': (extrema, 1200, 15000)}
