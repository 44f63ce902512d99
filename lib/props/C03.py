"""Values <-> coefficients, prolongation, quadrature, interpolation and differentiation matrices."""
import numpy as np
import gen
from gen import V

RULE = ('value/coefficient transforms, padding/truncation, points of both kinds, quadrature weights, barycentric weights and matrices, '
        'differentiation matrices, value functions on random domains, for random sizes (1..2500), several columns, scales to 1e+-100, against sums of '
        'cosines and exact polynomial integrals; distinct by helper, size and columns')


def grid(n):
    return np.cos(np.pi * np.arange(n - 1, -1, -1) / (n - 1)) if n > 1 else np.zeros(1)


def transform(c):
    from funpy.cheb import polyfit, polyval
    rng = c.rng
    n, m = (int(rng.integers(1000, 2500)) if rng.random() < .02 else gen.size(rng)), gen.cols(rng)
    sc = float(10.0 ** rng.choice([0, 0, -100, 100]))
    cc = gen.coeffs(rng, n, m, scale=sc)
    s = np.sum(np.abs(cc))
    c.describe('transforms n=%d m=%d scale=%g' % (n, m, sc))
    v = c.do('polyval', lambda: polyval(cc), cc)
    ref = gen.ceval(cc, grid(n))
    c.close('polyval', v.reshape(n, m), ref, 1e-15 * n + 1e-14, scale=s)
    back = c.do('polyfit', lambda: polyfit(np.asfortranarray(v)), v)
    c.close('polyfit of polyval', back.reshape(n, m), cc, 2e-14, scale=s)
    vals = np.asfortranarray(sc * rng.standard_normal((n, m)))
    fit = c.do('polyfit', lambda: polyfit(vals), vals)
    c.close('interpolates', gen.ceval(fit, grid(n)), vals, 1e-14 * n + 1e-13, scale=np.max(np.abs(vals)) * np.sqrt(n))
    c.close('polyval of polyfit', polyval(np.asfortranarray(fit)).reshape(n, m), vals, 1e-13, scale=np.max(np.abs(vals)) * np.sqrt(n))
    C_ = np.ascontiguousarray(vals)
    c.close('C-ordered values', c.do('polyfit C order', lambda: polyfit(C_), C_), fit, 1e-15, scale=np.max(np.abs(vals)))
    ro = vals.copy(order='F')
    ro.setflags(write=False)
    c.close('read-only values', c.do('polyfit read-only', lambda: polyfit(ro), ro), fit, 1e-15, scale=np.max(np.abs(vals)))
    # linear
    w = np.asfortranarray(rng.standard_normal((n, m)) * sc)
    c.close('polyfit is linear', polyfit(np.asfortranarray(2 * vals - w)), 2 * fit - polyfit(w), 1e-13,
            scale=(np.max(np.abs(vals)) + np.max(np.abs(w))) * 3)
    c.seen('transform', n, m)


def prolong(c):
    import funpy
    rng = c.rng
    n, m = gen.size(rng), gen.cols(rng)
    cc = gen.coeffs(rng, n, m)
    dom = gen.domain(rng)
    f = gen.fun(cc, dom)
    N = int(rng.choice([n, n + 1, 2 * n, 2 * n + 1, n + int(rng.integers(0, 300))]))
    x = gen.inside(rng, dom)
    s = np.sum(np.abs(cc))
    ref = gen.ceval(cc, gen.to_ref(dom, x))
    tol = 1e-13 + gen.argtol(cc, dom) / s
    c.describe('prolong %d -> %d, m=%d' % (n, N, m))
    before = f.coeffs.copy()
    g = c.do('prolong', lambda: funpy.prolong(f, N), f)
    c.true('prolonged length', g.n == N and len(g) == N and g.m == m)
    c.close('prolonged values', V(g, x, m), ref, tol, scale=s)
    c.close('padding', np.asarray(g.coeffs)[n:], np.zeros((N - n, m)), 0)
    c.close('original kept', f.coeffs, before, 0)
    pc = c.do('prolong_coeffs', lambda: f.onefun.prolong_coeffs(N), f)
    c.close('prolonged coefficients', pc, np.vstack((cc, np.zeros((N - n, m)))), 0, scale=1)
    K = int(rng.integers(1, n + 1))
    h = c.do('truncate', lambda: funpy.prolong(f, K), f)
    c.true('truncated length', h.n == K)
    c.close('truncated series', V(h, x, m), gen.ceval(cc[:K], gen.to_ref(dom, x)), tol, scale=s)
    c.close('original kept', f.coeffs, before, 0)
    back = c.do('truncate the prolonged', lambda: funpy.prolong(g, n), g)
    c.close('round trip', back.coeffs, cc, 0)
    ip = gen.fun(cc, dom)
    r = c.do('prolong in place', lambda: ip.prolong(N))
    c.true('in place returns itself', r is ip and ip.n == N)
    c.close('in place', V(ip, x, m), ref, tol, scale=s)
    c.seen('prolong', n, N, m)


def quadrature(c):
    from funpy.cheb import quadwts, chebpts, chebpts_type2, bary_weights, barymat, diffmat
    rng = c.rng
    n = int(rng.integers(2, 120)) if rng.random() < .7 else int(rng.choice([128, 129, 200, 255, 256, 257, 500]))
    a = float(rng.uniform(-5, 5))
    b = a + float(rng.uniform(.1, 6))
    x, w, v, t = c.do('chebpts', lambda: chebpts(n, interval=[a, b]))
    c.describe('points and weights n=%d on [%.3f, %.3f]' % (n, a, b))
    c.close('points', x, a + (b - a) * (grid(n) + 1) / 2, 1e-14, scale=abs(a) + abs(b))
    c.close('weights sum', np.sum(w), b - a, 1e-13)
    # exact for every polynomial of degree < n
    cc = rng.standard_normal(n)
    L = (b - a) / 2
    c.close('quadrature exact', w @ gen.ceval(cc, grid(n)), L * gen.cdefint(cc[:, None]), 1e-13, scale=L * np.sum(np.abs(cc)))
    w1 = c.do('quadwts', lambda: quadwts(n))
    c.close('quadwts exact', w1 @ gen.ceval(cc, grid(n)), gen.cdefint(cc[:, None]), 1e-13, scale=np.sum(np.abs(cc)))
    c.true('weights positive', np.all(w1 > 0))
    c.close('angles', np.cos(t), grid(n), 1e-14, scale=1)
    # what was handed out belongs to the caller
    for arr in (x, w, v, w1):
        arr[:] = 7.0
    x2, w2, v2, _ = c.do('chebpts again', lambda: chebpts(n, interval=[-1, 1]))
    c.close('points not shared', x2, grid(n), 1e-14, scale=1)
    c.close('weights not shared', w2 @ gen.ceval(cc, grid(n)), gen.cdefint(cc[:, None]), 1e-13, scale=np.sum(np.abs(cc)))
    y = rng.uniform(-1, 1, int(rng.choice([11, 11, 60, 150])))
    if rng.random() < .2:
        y[3:] = x2[rng.integers(0, n, len(y) - 3)]
    y[0], y[1], y[2] = x2[int(rng.integers(n))], -1.0, 1.0
    if n <= 300:
        B = c.do('barymat', lambda: barymat(y, x2, v2), y, x2, v2)
        c.close('barycentric interpolation', B @ gen.ceval(cc, x2), gen.ceval(cc, y), 1e-12, scale=np.sum(np.abs(cc)))
        f = gen.fun(cc[:, None], [-1.0, 1.0]).onefun
        B = c.do('evaluation operator', lambda: f.eval(y), y)
        c.close('evaluation operator of a function', B @ f.values[:, 0], gen.ceval(cc, y), 1e-12, scale=np.sum(np.abs(cc)))
    if n <= 60:
        k = int(rng.integers(0, 4)) if n > 20 else int(rng.integers(0, 7))
        if k < n:
            D = c.do('diffmat', lambda: diffmat(x2, k=k), x2)
            d = gen.ceval(gen.cder(cc[:, None], k), x2) if k else gen.ceval(cc, x2)
            c.close('differentiation matrix', (D @ gen.ceval(cc, x2)).ravel(), d.ravel(), 1e-13 * n ** k + 1e-13,
                    scale=max(np.max(np.abs(d)), np.sum(np.abs(cc)) * max(1, (n - 1.0)) ** k))
            c.seen('diffmat', n, k)
    c.seen('points', n)


def first_kind(c):
    """Points of the first kind (and one-point grids): nodes, weights, angles and interpolation."""
    from funpy.cheb import barymat
    from funpy.cheb.pts import chebpts, chebpts_type1
    rng = c.rng
    n = int(rng.integers(1, 90)) if rng.random() < .8 else int(rng.choice([1, 2, 3, 127, 128, 255, 256]))
    a = float(rng.uniform(-5, 5))
    b = a + float(rng.uniform(.1, 6))
    L = (b - a) / 2
    c.describe('first kind points and weights n=%d on [%.3f, %.3f]' % (n, a, b))
    g = -np.cos(np.pi * (np.arange(n) + .5) / n)
    cc = rng.standard_normal(n)
    s = np.sum(np.abs(cc))
    for what, fn in (('type=1', lambda i: chebpts(n, interval=i, type=1)), ('chebpts_type1', lambda i: chebpts_type1(n, interval=i))):
        x, w, v, t = c.do('chebpts ' + what, lambda: fn([a, b]))
        c.close('first kind points', x, a + L * (g + 1), 1e-14, scale=abs(a) + abs(b))
        c.close('first kind angles', np.cos(t), g, 1e-14, scale=1)
        c.close('first kind quadrature exact', w @ gen.ceval(cc, g), L * gen.cdefint(cc[:, None]), 1e-13, scale=L * s)
        c.true('first kind weights positive', np.all(np.asarray(w) > 0))
        x0, w0, v0, t0 = c.do('chebpts ' + what, lambda: fn([-1, 1]))
        y = rng.uniform(-1, 1, 9)
        y[0], y[1] = x0[int(rng.integers(n))], 1.0
        B = c.do('barymat', lambda: barymat(y, x0, v0), y, x0, v0)
        c.close('first kind interpolation', B @ gen.ceval(cc, x0), gen.ceval(cc, y), 1e-12, scale=s)
        for arr in (x, w, v, x0, w0, v0):
            arr[:] = 7
    x, w, v, t = c.do('chebpts of one point', lambda: chebpts(1, interval=[a, b]))
    c.close('one point', np.asarray(x, float), [(a + b) / 2], 1e-14, scale=abs(a) + abs(b))
    c.close('one weight', np.asarray(w, float), [b - a], 1e-14)
    c.seen('first kind', n)


def roundtrip_fun(c):
    """Function -> values -> function, function -> coefficients -> function."""
    from funpy import Fun
    rng = c.rng
    n, m = gen.size(rng), gen.cols(rng)
    dom = gen.domain(rng)
    cc = gen.coeffs(rng, n, m)
    f = gen.fun(cc, dom)
    s = np.sum(np.abs(cc))
    x = gen.inside(rng, dom)
    c.describe('values and coefficients of a function n=%d m=%d' % (n, m))
    v = c.do('values', lambda: f.values, f)
    g = c.do('from_values', lambda: Fun.from_values(np.asfortranarray(v), m, domain=dom), f)
    c.close('through values', V(g, x, m), V(f, x, m), 1e-13 + gen.argtol(cc, dom) / s, scale=s)
    h = c.do('from_coeffs', lambda: Fun.from_coeffs(f.flatten(), m, domain=dom), f)
    c.close('through coefficients', h.coeffs, cc, 0)
    c.true('equal functions compare equal', bool(h == f) and bool(f == h))
    d = cc.copy()
    d[int(rng.integers(n)), int(rng.integers(m))] += s * 0.1
    k = gen.fun(d, dom)
    c.true('different functions compare unequal', not bool(k == f))
    arr = c.do('asarray', lambda: np.asarray(f.onefun), f)
    c.close('asarray is the coefficient vector', np.asarray(arr).ravel(), cc.flatten(order='F'), 0)
    c.seen('roundtrip', n, m)


def collocation(c):
    """Functions given by their values at the points of the second kind."""
    from funpy.colloc.chebcolloc.chebcolloc2 import chebcolloc2
    rng = c.rng
    n, m = int(rng.integers(2, 48)), gen.cols(rng)
    dom = gen.domain(rng)
    cc = gen.coeffs(rng, n, m)
    S, h = np.sum(np.abs(cc)), 2 / (dom[1] - dom[0])
    c.describe('collocation n=%d m=%d on %s' % (n, m, dom))
    vals = gen.ceval(cc, grid(n)).reshape(n, m)
    f = c.do('chebcolloc2', lambda: chebcolloc2(values=vals, domain=np.array(dom, float)), vals)
    ends = abs(dom[0]) + abs(dom[1])
    eps = 1e-12 + 1e-15 * ends * h * n * n          # the points themselves are rounded
    x = dom[0] + (grid(n) + 1) / h
    c.close('collocation points', f.x, x, 1e-15, scale=2 * ends)
    for t in [-1.0, 1.0, float(rng.uniform(-1, 1)), float(rng.choice(grid(n)))]:
        y = min(max(dom[0] + (t + 1) / h, dom[0]), dom[1])
        v = c.do('collocation evaluation', lambda: f(y))
        c.close('collocation evaluation', np.ravel(v), gen.ceval(cc, np.array([t])).ravel(), eps, scale=S)
    k = int(rng.integers(0, 4))
    if 0 < k < n:
        g = c.do('collocation derivative', lambda: np.diff(f, n=k), f.values)
        d = gen.ceval(gen.cder(cc, k), grid(n)).reshape(n, m) * h ** k
        c.close('collocation derivative', g.values, d, eps * n ** k, scale=S * h ** k * (n - 1.0) ** k)
        c.true('collocation domain', np.array_equal(g.domain, f.domain))
    j = int(rng.integers(m))
    c.true('collocation column', np.array_equal(np.ravel(f[j].values), vals[:, j]))
    c.seen('collocation', n, m, k)


GROUPS = {'collocation': (collocation, 800, 8000), 'transform': (transform, 4500, 36000), 'prolong': (prolong, 4000, 36000), 'quadrature': (quadrature, 3500, 36000),
          'roundtrip_fun': (roundtrip_fun, 2000, 20000),
          'first_kind': (first_kind, 1500, 15000)}
