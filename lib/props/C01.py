"""Constructing a Chebyshev function represents what was given."""
import numpy as np
import gen
from gen import V, inside, domain

RULE = ('random smooth formulas (11 families, single Chebyshev polynomials and single oscillations to degree 1024, frequencies to 200, poles near the domain, degrees to 600, scales '
        '1e-12..1e12, 1..5 columns of different scale and length), values, coefficients and constants on random domains, '
        'judged at random points and both ends against the formula; a case is distinct by source kind, family, number of '
        'columns, domain class and length class of the result, and non-trivial when the result is not constant')
ASSUMPTIONS = ['a formula that agrees with a lower one at every sampling and test point is outside the property']


def family(rng, dom):
    a, b = float(dom[0]), float(dom[-1])
    to = lambda x: (2 * np.asarray(x) - a - b) / (b - a)
    k = int(rng.integers(11))
    p, q, r = rng.uniform(-1, 1, 3)
    if k == 0:
        w = 10 ** rng.uniform(0, 2.3)
        return 'wave', lambda x: np.sin(w * to(x) + 3 * p), 1
    if k == 1:
        s = 5 * p
        return 'exp', lambda x: np.exp(s * to(x)), 1
    if k == 2:
        s = 10 ** rng.uniform(0, 2.5)
        return 'runge', lambda x: 1 / (1 + s * (to(x) - q) ** 2), 1
    if k == 3:
        s = 10 ** rng.uniform(0, 1.5)
        return 'tanh', lambda x: np.tanh(s * (to(x) - q)), 1
    if k == 4:
        d = int(rng.integers(0, 12))
        c = rng.standard_normal(d + 1)
        return 'poly', lambda x: np.polyval(c, to(x)), 1
    if k == 5:
        n = int(rng.integers(20, 600))
        c = rng.standard_normal(n)
        return 'series', lambda x: gen.ceval(c, np.clip(to(x), -1, 1)).reshape(np.shape(x)), n ** .5
    if k == 6:
        s = 10 ** rng.uniform(0, 2)
        return 'gauss', lambda x: np.exp(-s * (to(x) - q) ** 2), 1
    if k == 7:
        w = rng.uniform(1, 40)
        return 'mixed', lambda x: np.cos(w * to(x) ** 2) * np.exp(p * to(x)) + q, 1
    if k == 8:
        s = 1 + 10 ** rng.uniform(-2, 0)
        return 'sqrt', lambda x: np.sqrt(s + to(x)), 1
    if k == 9:
        v = 3 * p
        return 'const', lambda x: v + 0 * to(x), 1
    s = 1.02 + abs(q)
    return 'log', lambda x: np.log(s - to(x)), 1


def lenclass(n):
    return int(np.ceil(np.log2(max(n, 1))))


def structure(c, f, m, dom):
    c.true('number of columns', f.m == m and f.size == m and f.shape[1] == m, lambda: 'm=%s expected %s' % (f.m, m))
    c.true('domain kept', np.array_equal(np.asarray(f.domain, float), np.asarray(dom, float)), lambda: str(f.domain))
    c.true('length', len(f) == f.n == f.shape[0] and f.n >= 1)
    c.true('finite coefficients', np.all(np.isfinite(f.coeffs)))
    c.true('kind', f.type == 'cheb' and not f.istrig)


def refinement(rng):
    """How the grids of an adaptive construction follow each other: nested or sampled anew, from any first size."""
    if rng.random() < .65:
        return {}
    kw = {'resample': 'resample'} if rng.random() < .7 else {}
    if rng.random() < .5:
        kw['minSamples'] = int(rng.choice([9, 17, 20, 33, 50, 65, 100, 129, 500]))
    return kw


def callable_(c):
    from funpy import Fun
    rng = c.rng
    dom = domain(rng)
    m = int(rng.choice([1, 1, 2, 3, 5]))
    fams = [family(rng, dom) for _ in range(m)]
    sc = [float(10.0 ** rng.choice([0, 0, 0, -12, -6, 6, 12])) for _ in range(m)]
    ops = [(lambda x, g=g, s=s: s * g(x)) for (_, g, _), s in zip(fams, sc)]
    c.describe('%s scales %s on %s' % ([n for n, _, _ in fams], sc, list(dom)))
    op = ops[0] if m == 1 and rng.random() < 0.7 else ops
    f = c.do('construct', lambda: Fun(op=op, domain=dom, **refinement(rng)))
    structure(c, f, m, dom)
    x = inside(rng, dom, 40)
    v = V(f, x, m)
    for j in range(m):
        ref = ops[j](x)
        s = sc[j] * max(1.0, fams[j][2], np.max(np.abs(ref)) / sc[j])
        c.close('value of a constructed function', v[:, j], ref, 1, scale=2e-11 * s + gen.noise(ops[j], dom, x))
        col = f[j]
        c.close('column of a constructed function', V(col, x, 1)[:, 0], v[:, j], 1e-14, scale=s)
    c.seen('callable', m, *sorted(n for n, _, _ in fams), lenclass(f.n))
    # values on the function's own grid
    c.close('grid values', np.asarray(f.values).reshape(f.n, m), V(f, np.clip(f.x, dom[0], dom[-1]), m), 1e-10,
            scale=max(np.max(np.abs(v)), 1e-300))


def alias(c):
    """Single high polynomials and oscillations, whose samples on a coarse grid look like something shorter."""
    from funpy import Fun
    rng = c.rng
    dom = domain(rng, plain=.7)
    if np.max(np.abs(dom)) > 1e3 * (dom[-1] - dom[0]):
        dom = np.array([-1.0, 1.0])
    a, b = float(dom[0]), float(dom[-1])
    to = lambda x: np.clip((2 * np.asarray(x) - a - b) / (b - a), -1, 1)
    m = int(rng.choice([1, 1, 2, 3]))
    ks, ops = [], []
    for j in range(m):
        k = int(2 ** rng.integers(3, 10)) + int(rng.integers(-3, 4)) if rng.random() < .7 else int(rng.integers(1, 1000))
        u, p, q = int(rng.integers(4)), float(rng.uniform(0, 3)), float(rng.uniform(-2, 2))
        if u == 0:
            g = lambda x, k=k: np.cos(k * np.arccos(to(x)))
        elif u == 1:
            g = lambda x, k=k, q=q: q + np.cos(k * np.arccos(to(x)))
        elif u == 2:
            g = lambda x, k=k, p=p: np.cos(np.pi * min(k, 300) * to(x) + p)
        else:
            g = lambda x, k=k, q=q: q * to(x) + np.cos(k * np.arccos(to(x))) - np.cos((k // 2) * np.arccos(to(x)))
        ks.append((k, u))
        ops.append(g)
    c.describe('high formulas %s on %s' % (ks, list(dom)))
    f = c.do('construct', lambda: Fun(op=ops if m > 1 or rng.random() < .3 else ops[0], domain=dom, **refinement(rng)))
    structure(c, f, m, dom)
    x = inside(rng, dom, 40)
    v = V(f, x, m)
    for j in range(m):
        k = ks[j][0]
        # the end points are where the argument's rounding is amplified most
        s = 3 * k * k * 2e-16 * (1 + (abs(a) + abs(b)) / (b - a)) + 1e-9
        c.close('value of a high formula', v[:, j], ops[j](x), 1, scale=s)
    c.seen('alias', m, *sorted(ks))


def vector_callable(c):
    """One callable returning all columns at once."""
    from funpy import Fun
    rng = c.rng
    dom = domain(rng)
    m = int(rng.integers(2, 5))
    fams = [family(rng, dom) for _ in range(m)]
    c.describe('vector valued %s on %s' % ([n for n, _, _ in fams], list(dom)))
    op = lambda x: np.stack([np.broadcast_to(g(x), np.shape(x)) for _, g, _ in fams], axis=1)
    f = c.do('construct', lambda: Fun(op=op, domain=dom))
    structure(c, f, m, dom)
    x = inside(rng, dom, 30)
    v = V(f, x, m)
    for j in range(m):
        ref = fams[j][1](x)
        c.close('value of a constructed function', v[:, j], ref, 1,
                scale=2e-11 * max(1, fams[j][2], np.max(np.abs(ref))) + gen.noise(fams[j][1], dom, x))
    c.seen('vector', m, *sorted(n for n, _, _ in fams))


def values_(c):
    from funpy import Fun
    rng = c.rng
    dom, n, m = domain(rng), gen.size(rng), gen.cols(rng)
    cc = gen.coeffs(rng, n, m)
    t = np.cos(np.pi * np.arange(n - 1, -1, -1) / (n - 1)) if n > 1 else np.zeros(1)
    vals = np.asfortranarray(gen.ceval(cc, t))
    c.describe('values n=%d m=%d on %s' % (n, m, list(dom)))
    how = int(rng.integers(3))
    if how == 0:
        f = c.do('from_values', lambda: Fun.from_values(vals, m, domain=dom), vals)
    elif how == 1:
        f = c.do('values array', lambda: Fun(op=vals, domain=dom, simplify=False), vals)
    else:
        f = c.do('values array simplified', lambda: Fun(op=vals, domain=dom), vals)
    structure(c, f, m, dom)
    x = inside(rng, dom)
    s = np.sum(np.abs(cc))
    c.close('interpolant of values', V(f, x, m), gen.ceval(cc, gen.to_ref(dom, x)), 1, scale=1e-12 * s + gen.argtol(cc, dom))
    if how < 2:
        c.true('length of values', f.n == n)
        c.close('values kept', np.asarray(f.values).reshape(n, m), vals, 1e-13, scale=s)
    if m == 1 and how:
        g = c.do('1-d values array', lambda: Fun(op=vals[:, 0].copy(), domain=dom))
        c.close('interpolant of 1-d values', V(g, x, 1), gen.ceval(cc, gen.to_ref(dom, x)), 1, scale=1e-12 * s + gen.argtol(cc, dom))
    c.seen('values', how, m, lenclass(n), n % 2)


def coeffs_(c):
    from funpy import Fun
    rng = c.rng
    dom, n, m = domain(rng), gen.size(rng), gen.cols(rng)
    cc = gen.coeffs(rng, n, m)
    c.describe('coefficients n=%d m=%d on %s' % (n, m, list(dom)))
    x = inside(rng, dom)
    ref = gen.ceval(cc, gen.to_ref(dom, x))
    s = np.sum(np.abs(cc))
    flatF = cc.flatten(order='F')
    f = c.do('from_coeffs flat F', lambda: Fun.from_coeffs(flatF, m, domain=dom), flatF)
    c.close('series of coefficients', V(f, x, m), ref, 1, scale=1e-13 * s + gen.argtol(cc, dom))
    structure(c, f, m, dom)
    c.close('coefficients kept', f.coeffs, cc, 0)
    flatC = cc.flatten(order='C')
    fc = c.do('from_coeffs flat C', lambda: Fun.from_coeffs(flatC, m, order='C', domain=dom), flatC)
    c.close('coefficients kept (row order)', fc.coeffs, cc, 0)
    f2 = c.do('from_coeffs matrix', lambda: Fun.from_coeffs(cc, m, domain=dom), cc)
    c.close('coefficients kept (matrix)', f2.coeffs, cc, 0)
    if m > 1 and n * m % (m + 1):
        c.raises('coefficients that do not fit', lambda: Fun.from_coeffs(flatF, m + 1, domain=dom))
    c.close('flatten', f.flatten(), flatF, 0)
    g = c.do('coeffs keyword', lambda: Fun(coeffs=cc.copy(order='F'), domain=dom))
    c.close('series of coefficients', V(g, x, m), ref, 1, scale=2e-13 * s + gen.argtol(cc, dom))
    from funpy import zeros, ones, zeros as _z
    z = c.do('zeros', lambda: zeros(m, domain=dom))
    o = c.do('ones', lambda: ones(m, domain=dom))
    c.close('zeros', V(z, x, m), np.zeros((len(x), m)), 0)
    c.close('ones', V(o, x, m), np.ones((len(x), m)), 0)
    zl = c.do('zeros_like', lambda: np.zeros_like(f), f)
    ol = c.do('ones_like', lambda: np.ones_like(f), f)
    c.close('zeros_like', V(zl, x, m), np.zeros((len(x), m)), 0)
    c.close('ones_like', V(ol, x, m), np.ones((len(x), m)), 1e-14)
    structure(c, zl, m, dom)
    structure(c, ol, m, dom)
    import funpy
    a = c.do('asfun', lambda: funpy.asfun(f), f)
    c.close('asfun of a function', V(a, x, m), V(f, x, m), 1e-14, scale=s)
    v = float(rng.standard_normal())
    k = c.do('asfun number', lambda: funpy.asfun(v, domain=dom))
    c.close('asfun of a number', V(k, x, 1)[:, 0], np.full(len(x), v), 1e-15)
    r = c.do('random', lambda: funpy.random(n, m, domain=dom, scale=2.0))
    structure(c, r, m, dom)
    c.true('random bounded', r.n == n and np.max(np.abs(r.coeffs)) <= 2.0)
    q = float(rng.choice([1, 3, .5]))
    rd = c.do('random_decay', lambda: funpy.random_decay(n, m, domain=dom) if q == 1 else funpy.random_decay(n, m, domain=dom, scale=q))
    structure(c, rd, m, dom)
    c.true('random coefficients decay', rd.n == n and np.all(np.abs(rd.coeffs) <= q * (1 + 1e-12) / np.arange(1, n + 1)[:, None] ** 2),
           lambda: 'last %s of %d' % (rd.coeffs[-1], n))
    c.seen('coeffs', m, lenclass(n), n % 2)


def ultra(c):
    """from_ultra: coefficients in an ultraspherical basis C^(lam)."""
    from funpy import Fun
    from scipy.special import eval_gegenbauer
    rng = c.rng
    dom, n = domain(rng), int(rng.integers(3, 60))
    m = int(rng.choice([1, 1, 2, 3]))
    lam = int(rng.choice([1, 2, 3]))
    cc = gen.coeffs(rng, n, m, decay=rng.choice([1.0, 2.0, -2.0]))
    c.describe('ultraspherical coefficients lam=%d n=%d m=%d on %s' % (lam, n, m, list(dom)))
    f = c.do('from_ultra', lambda: Fun.from_ultra(cc.flatten(order='F').copy(), m, lam, domain=dom))
    x = inside(rng, dom)
    t = gen.to_ref(dom, x)
    G = np.stack([eval_gegenbauer(k, lam, t) for k in range(n)], axis=1)
    ref = G @ cc
    c.close('series of ultraspherical coefficients', V(f, x, m), ref, 1e-10, scale=np.max(np.abs(G) @ np.abs(cc)))
    c.seen('ultra', lam, m, n)


def giveup(c):
    """Functions that are not resolved are still approximated (to interpolation accuracy)."""
    from funpy import Fun
    rng = c.rng
    dom = domain(rng, plain=0.6)
    q = float(rng.uniform(-0.8, 0.8))
    a, b = float(dom[0]), float(dom[-1])
    to = lambda x: (2 * np.asarray(x) - a - b) / (b - a)
    op = lambda x: np.abs(to(x) - q)
    c.describe('|t-%.3f| on %s' % (q, list(dom)))
    f = c.do('construct unresolved', lambda: Fun(op=op, domain=dom))
    x = inside(rng, dom)
    c.close('unresolved function', V(f, x, 1)[:, 0], op(x), 1e-3, scale=1.0)
    structure(c, f, 1, dom)
    c.seen('unresolved', round(q, 1))


def long_(c):
    """Formulas that need thousands of points (just within the largest grid), many columns, complex-typed values."""
    from funpy import Fun
    rng = c.rng
    dom = [[-1.0, 1.0], [0.0, 1.0], [-1.0, 3.0]][int(rng.integers(3))]
    a, b = dom
    to = lambda x: np.clip((2 * np.asarray(x) - a - b) / (b - a), -1, 1)
    how = int(rng.integers(3))
    if how == 0:
        top = int(2 ** rng.integers(11, 15))
        w = float(top * rng.uniform(.55, .9))
        p = float(rng.uniform(0, 3))
        ops = [lambda x: np.cos(w * to(x) + p)]
        tol, what = 1e-9 + 4e-15 * w, 'oscillation of frequency %.1f' % w
    else:
        m = int(rng.integers(6, 14))
        fams = [family(rng, dom) for _ in range(m)]
        ops = [g for _, g, _ in fams]
        tol, what = 2e-11, '%d columns %s' % (m, 'complex-typed' if how == 2 else '')
        if how == 2:
            ops = [(lambda x, g=g: np.asarray(g(x), float) - 1.5 + 0j * np.asarray(x)) for g in ops[:int(rng.choice([1, 2, 7]))]]
    m = len(ops)
    c.describe('%s on %s' % (what, dom))
    if how == 2:
        f = c.do('construct', lambda: Fun(op=(lambda x: np.stack([g(x) for g in ops], axis=1)) if m > 1 else ops[0], domain=dom))
    else:
        f = c.do('construct', lambda: Fun(op=ops if m > 1 else ops[0], domain=dom))
    structure(c, f, m, dom)
    x = inside(rng, dom, 60)
    v = V(f, x, m)
    for j in range(m):
        ref = np.real(ops[j](x))
        s = tol if how == 0 else 2e-11 * max(1, (fams[j][2]), np.max(np.abs(ref))) + gen.noise(lambda y: np.real(ops[j](y)), dom, x)
        c.close('value of a long or wide function', v[:, j], ref, 1, scale=s)
    c.seen('long', how, m, lenclass(f.n))


def limit(c):
    """The largest grid is the caller's to choose: what it resolves is accurate, and no function is longer than it."""
    from funpy import Fun
    from funpy.cheb import chebtech
    rng = c.rng
    k, p, q = int(rng.integers(1, 13)), float(rng.uniform(0, 3)), float(rng.uniform(-2, 2))
    m = int(rng.choice([1, 1, 2]))
    ops = [lambda x: np.cos(k * np.asarray(x) + p) + q * np.asarray(x) ** 3, lambda x: np.exp(q * np.asarray(x)) - p][:m]
    need = 34 + 3 * k
    ml = int(rng.integers(need, 400))
    kw = {'maxLength': ml}
    how = int(rng.integers(3))
    if how:
        kw['minSamples'] = int(rng.choice([ml, ml, int(rng.integers(max(3, ml // 2), ml + 1)), ml + 7]))
    if rng.random() < .4:
        kw['resample'] = 'resample'
    direct = rng.random() < .5
    c.describe('cos(%d x + %.3f) + %.3f x^3, %d columns, %s%s' % (k, p, q, m, kw, ' technology' if direct else ''))
    op = ops if m > 1 or rng.random() < .3 else ops[0]
    f = c.do('construct within a limit', lambda: (chebtech(op=op, **kw) if direct else Fun(op=op, **kw)))
    c.true('no longer than the limit', f.shape[0] <= ml, lambda: 'length %d, limit %d' % (f.shape[0], ml))
    # the last grid within the limit may only be just over half of it
    n = f.shape[0]
    x = np.linspace(-1, 1, 41)
    v = np.reshape(np.asarray(f(x)), (41, m))
    for j in range(m):
        c.close('value within a limit', v[:, j], ops[j](x), 1, scale=1e-9 * max(1.0, np.max(np.abs(ops[j](x)))))
    c.seen('limit', how, m, direct, ml % 2, lenclass(n))


GROUPS = {'limit': (limit, 160, 3000), 'callable': (callable_, 1400, 24000), 'alias': (alias, 200, 3000), 'vector_callable': (vector_callable, 240, 3600),
          'values': (values_, 600, 9000), 'coeffs': (coeffs_, 500, 7500), 'ultra': (ultra, 300, 6000),
          'giveup': (giveup, 32, 300), 'long': (long_, 60, 600)}
