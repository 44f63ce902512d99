"""Evaluation agrees with the stored series, for every way of asking."""
import numpy as np
import gen
from gen import V, inside, domain

RULE = ('functions from random coefficients (1..5000 rows, 1..7 columns, several decays, exact zeros, scales) on random '
        'domains are evaluated at arrays of any order, size-one arrays, scalars, strided arrays, integers and both ends; '
        'oracle is the series summed by an independent Clenshaw recurrence; distinct by length, columns, form of the argument')


def points(c):
    rng = c.rng
    n = int(rng.choice([1500, 2049, 3000, 5000])) if rng.random() < 0.03 else gen.size(rng)
    dom, m = domain(rng), gen.cols(rng)
    sc = float(10.0 ** rng.choice([0, 0, 0, -100, -20, 20, 100]))
    cc = gen.coeffs(rng, n, m, scale=sc)
    f = gen.fun(cc, dom)
    c.describe('n=%d m=%d scale=%g on %s' % (n, m, sc, list(dom)))
    s = max(np.max(np.sum(np.abs(cc), axis=0)), 1e-300)
    a, b = float(dom[0]), float(dom[-1])
    tol = 2e-14 * n + gen.argtol(cc, dom) / s + 1e-14
    x = inside(rng, dom, int(rng.choice([1, 2, 7, 40, 300])))
    rng.shuffle(x)
    ref = gen.ceval(cc, gen.to_ref(dom, x))
    c.close('array', c.do('evaluate', lambda: f(x), f, x), ref, tol, scale=s)
    c.close('array again', c.do('evaluate', lambda: f(x), f, x), ref, tol, scale=s)
    big = np.repeat(x, 3)
    big[1::3] = a
    c.close('strided array', c.do('evaluate strided', lambda: f(big[::3]), f), ref, tol, scale=s)
    c.close('reversed array', c.do('evaluate reversed', lambda: f(x[::-1]), f), ref[::-1], tol, scale=s)
    k = int(rng.integers(len(x)))
    one = c.do('evaluate one', lambda: f(x[k:k + 1]), f)
    c.close('array of one point', one, ref[k], tol, scale=s)
    sca = c.do('evaluate scalar', lambda: f(float(x[k])), f)
    c.close('scalar', sca, ref[k], tol, scale=s)
    c.true('scalar has one value per column', np.asarray(sca).size == m, lambda: str(np.shape(sca)))
    zd = c.do('evaluate numpy scalar', lambda: f(x[k]), f)
    c.close('numpy scalar', zd, ref[k], tol, scale=s)
    ends = gen.ceval(cc, [-1.0, 1.0])
    c.close('left end', c.do('left end', lambda: f(dom[0]), f), ends[0], tol, scale=s)
    c.close('right end', c.do('right end', lambda: f(dom[-1]), f), ends[1], tol, scale=s)
    c.close('lval', c.do('lval', lambda: f.lval(), f), ends[0], 1e-14 * n, scale=s)
    c.close('rval', c.do('rval', lambda: f.rval(), f), ends[1], 1e-14 * n, scale=s)
    ints = np.arange(int(np.ceil(a)), int(np.floor(b)) + 1)[:50]
    if ints.size:
        c.close('integers', c.do('evaluate integers', lambda: f(ints), f, ints),
                gen.ceval(cc, gen.to_ref(dom, ints)), tol, scale=s)
    # the same values through the technology on [-1, 1]
    t = gen.to_ref(dom, x)
    c.close('reference interval', c.do('onefun', lambda: f.onefun(t), f), gen.ceval(cc, t), 2e-14 * n + 1e-14, scale=s)
    y = np.asarray(f.x)
    c.true('grid inside the domain', y.min() >= a - 1e-12 * (abs(a) + abs(b)) and y.max() <= b + 1e-12 * (abs(a) + abs(b)) and len(y) == n)
    if n > 1:
        c.true('grid increases', np.all(np.diff(y) > 0))
        tt = np.cos(np.pi * np.arange(n - 1, -1, -1) / (n - 1))
        c.close('values', np.asarray(f.values).reshape(n, m), gen.ceval(cc, tt), 2e-14 * n, scale=s)
    c.seen(n, m, len(x))


def many(c):
    """Thousands of points at once, in any order and with repetitions: each one gets the value it gets alone."""
    rng = c.rng
    n = gen.size(rng)
    dom, m = domain(rng), gen.cols(rng)
    cc = gen.coeffs(rng, n, m)
    f = gen.fun(cc, dom)
    N = int(rng.integers(1000, 20001))
    x = float(dom[0]) + (float(dom[-1]) - float(dom[0])) * rng.random(N)
    x[rng.integers(N, size=9)] = dom[0]
    x[rng.integers(N, size=9)] = dom[-1]
    x = np.clip(x, dom[0], dom[-1])
    c.describe('%d points n=%d m=%d on %s' % (N, n, m, list(dom)))
    s = max(np.max(np.sum(np.abs(cc), axis=0)), 1e-300)
    v = c.do('evaluate many', lambda: f(x), f, x)
    c.close('many points', V(lambda _: v, x, m), gen.ceval(cc, gen.to_ref(dom, x)), 2e-14 * n + gen.argtol(cc, dom) / s + 1e-14, scale=s)
    c.close('grid values', c.do('evaluate on its grid', lambda: f(np.asarray(f.x)), f).reshape(n, m), np.asarray(f.values).reshape(n, m), 1, scale=(2e-14 * n + 1e-14) * s + 2 * gen.argtol(cc, dom)) if n > 1 else None
    c.seen('many', n, m, N // 500)


def outside(c):
    """A point outside the domain is refused, not extrapolated."""
    rng = c.rng
    dom, n, m = domain(rng), gen.size(rng, 0), gen.cols(rng)
    f = gen.fun(gen.coeffs(rng, n, m), dom)
    a, b = float(dom[0]), float(dom[-1])
    L = b - a
    x = inside(rng, dom, 5)
    bad = float(rng.choice([a - L * rng.uniform(1e-6, 3), b + L * rng.uniform(1e-6, 3)]))
    y = x.copy()
    y[int(rng.integers(len(x)))] = bad
    c.describe('%g asked on %s' % (bad, list(dom)))
    c.raises('outside the domain', lambda: f(y), f)
    c.raises('outside the domain (scalar)', lambda: f(bad), f)
    c.do('inside', lambda: f(x), f)
    c.seen('outside', bad < a, m)


def shape_ops(c):
    """Reversal, restriction and column order, seen through evaluation."""
    rng = c.rng
    n, m = gen.size(rng, 0), gen.cols(rng)
    cc = gen.coeffs(rng, n, m)
    f = gen.fun(cc)
    t = np.concatenate(([-1.0, 1.0], rng.uniform(-1, 1, 15)))
    s = np.sum(np.abs(cc))
    c.describe('n=%d m=%d flips and restriction' % (n, m))
    g = c.do('flipud', lambda: f.onefun.flipud(), f)
    c.close('flipud', np.reshape(g(t), (len(t), m)), gen.ceval(cc, -t), 1e-13, scale=s)
    keep = f.coeffs.copy()
    g.coeffs += s
    c.close('function after its reversal is changed', f.coeffs, keep, 0)
    g = c.do('fliplr', lambda: f.onefun.fliplr(), f)
    c.close('fliplr', np.reshape(g(t), (len(t), m)), gen.ceval(cc, t)[:, ::-1], 1e-13, scale=s)
    if n > 1:
        lo, hi = np.sort(rng.uniform(-1, 1, 2))
        if hi - lo > 1e-2:
            u = rng.random()
            lo, hi = (-1.0, hi) if u < .2 else (lo, 1.0) if u < .4 else (lo, hi)
            g = c.do('restrict', lambda: f.onefun.restrict(np.array([lo, hi])), f)
            y = 0.5 * ((1 - t) * lo + (1 + t) * hi)
            c.close('restrict', np.reshape(g(t), (len(t), m)), gen.ceval(cc, np.clip(y, -1, 1)), 1e-11, scale=s)
        # several neighbouring subintervals at once: for every column its pieces in order
        k = int(rng.integers(2, 5))
        br = np.sort(rng.uniform(-1, 1, k + 1))
        if rng.random() < .5:
            br[0], br[-1] = -1.0, 1.0
        if np.min(np.diff(br)) > 1e-2:
            g = c.do('restrict to several pieces', lambda: f.onefun.restrict(br), f)
            c.true('number of pieces', g.shape[1] == m * k, lambda: '%s' % (g.shape,))
            y = np.clip(.5 * (np.outer(1 - t, br[:-1]) + np.outer(1 + t, br[1:])), -1, 1)
            want = np.stack([gen.ceval(cc, y[:, q])[:, j] for j in range(m) for q in range(k)], axis=1)
            c.close('pieces', np.reshape(g(t), (len(t), m * k)), want, 1e-11, scale=s)
    i = int(rng.integers(m))
    j, st = int(rng.integers(i, m)) + 1, int(rng.choice([1, 1, 2, 3]))
    g = c.do('columns', lambda: f[i:j:st] if st > 1 else f[i:j], f)
    want = gen.ceval(cc, t)[:, i:j:st]
    c.true('number of selected columns', g.m == want.shape[1], lambda: '%s[%d:%d:%d] has %s' % (m, i, j, st, g.m))
    c.close('selected columns', V(g, t, want.shape[1]), want, 1e-13, scale=s)
    g = c.do('column', lambda: f[i], f)
    c.close('selected column', V(g, t, 1), gen.ceval(cc, t)[:, i:i + 1], 1e-13, scale=s)
    it = c.do('iterate', lambda: [q for q in f], f)
    c.true('iteration gives every column', len(it) == m, lambda: '%d of %d' % (len(it), m))
    for k, q in enumerate(it[:m]):
        c.close('iterated column', V(q, t, 1), gen.ceval(cc, t)[:, k:k + 1], 1e-13, scale=s)
    c.seen('shape', n, m, st)


def ends(c):
    """Domains that are narrow compared with their distance from zero: both ends belong to them, nothing beyond does."""
    from funpy import Fun
    rng = c.rng
    L = float(10.0 ** rng.uniform(-4, 4))
    a = float(rng.choice([-1, 1])) * L * float(10.0 ** rng.uniform(-1, 5))
    b = a + L
    L = b - a
    dom = [[a, b], np.array([a, b]), (a, b)][int(rng.integers(3))]
    n, m = int(rng.integers(1, 40)), gen.cols(rng)
    cc = gen.coeffs(rng, n, m)
    f = gen.fun(cc, dom)
    s = np.max(np.sum(np.abs(cc), axis=0))
    tol = 1e-13 * n + gen.argtol(cc, dom) / s
    c.describe('ends of [%r, %r], n=%d m=%d' % (a, b, n, m))
    e = gen.ceval(cc, [-1.0, 1.0])
    c.close('left end', c.do('left end', lambda: f(a), f), e[0], tol, scale=s)
    c.close('right end', c.do('right end', lambda: f(b), f), e[1], tol, scale=s)
    x = np.linspace(a, b, int(rng.integers(2, 40)))
    x[-1] = b
    c.close('equispaced points', np.reshape(c.do('linspace', lambda: f(x), f), (len(x), m)), gen.ceval(cc, gen.to_ref(dom, x)), tol, scale=s)
    g = np.clip(np.asarray(f.x), a, b)
    c.close('own grid', np.reshape(c.do('grid', lambda: f(np.asarray(f.x)), f), (n, m)), gen.ceval(cc, gen.to_ref(dom, g)), tol, scale=s)
    from funpy import Mapping
    p = Mapping(ends=dom)
    t = np.concatenate(([-1., 1.], rng.uniform(-1, 1, 5)))
    y = c.do('map', lambda: p(t))
    q = a + (t + 1) / 2 * L
    c.close('map to the domain', y, q, 1e-15, scale=abs(a) + abs(b))
    c.close('map and back', c.do('map back', lambda: p.bwd(y)), t, 8e-16 * (abs(a) + abs(b)) / L, scale=1)
    c.close('derivative of the map', p.der(t), np.full(7, L / 2), 1e-14)
    inv = c.do('inverse map', lambda: p.inv())
    c.close('inverse map', inv(q), t, 8e-16 * (abs(a) + abs(b)) / L, scale=1)
    c.close('inverse of the inverse map', inv.bwd(t), q, 1e-15, scale=abs(a) + abs(b))
    c.close('derivative of the inverse map', inv.der(q), np.full(7, 2 / L), 1e-13)
    d = L * float(10.0 ** rng.uniform(-8, -1))
    d = max(d, 1e-14 * (abs(a) + abs(b)) * 4)
    c.raises('just outside the domain', lambda: f(b + d), f)
    c.raises('just outside the domain', lambda: f(a - d), f)
    c.seen('ends', int(np.log10(L)), int(np.log10(abs(a) / L)), m)


GROUPS = {'many': (many, 200, 2500), 'points': (points, 4500, 48000), 'outside': (outside, 750, 6000), 'shape_ops': (shape_ops, 1000, 10000), 'ends': (ends, 1000, 10000)}
