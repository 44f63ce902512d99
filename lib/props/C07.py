"""Inner products, norms and functionals."""
import numpy as np
import gen
from gen import V, inside, domain
from props.C06 import half, tkd, dtol

RULE = ('inner, dot, weighted inner products, L2/L4/sup/Sobolev norms, Sturm norms, normalisation, functionals and QR factorisations of random '
        'functions (1..300 coefficients, 1..7 columns, several scales) on random domains against exact integrals of products; '
        'distinct by quantity, columns and size classes')


def gram(a, b):
    """Exact integrals of all products of columns over [-1, 1]."""
    N = a.shape[0] + b.shape[0]
    x, w = np.polynomial.legendre.leggauss(N // 2 + 2)
    return gen.ceval(a, x).T @ (w[:, None] * gen.ceval(b, x))


def products(c):
    rng = c.rng
    dom = domain(rng)
    m1, m2 = gen.cols(rng), gen.cols(rng)
    n1, n2 = gen.size(rng, 0), gen.size(rng, 0)
    if rng.random() < .03:
        n1, n2 = int(rng.integers(250, 700)), int(rng.integers(250, 700))
    sc = float(10.0 ** rng.choice([0, 0, -50, 50]))
    a, b = gen.coeffs(rng, n1, m1, scale=sc), gen.coeffs(rng, n2, m2, scale=sc)
    f, g = gen.fun(a, dom), gen.fun(b, dom)
    h = half(dom)
    s = np.max(np.sum(np.abs(a), axis=0)) * np.max(np.sum(np.abs(b), axis=0)) * h
    G = gram(a, b) * h
    c.describe('inner products n=%d,%d m=%d,%d scale %g on %s' % (n1, n2, m1, m2, sc, list(dom)))
    I = c.do('inner', lambda: np.inner(f, g), f, g)
    c.close('inner', np.asarray(I).reshape(m1, m2) if np.size(I) == m1 * m2 else I, G, 1e-12, scale=s)
    J = c.do('inner', lambda: np.inner(g, f), f, g)
    c.close('inner is symmetric', np.asarray(J).reshape(m2, m1).T, G, 1e-12, scale=s)
    own = c.do('inner with itself', lambda: np.inner(f, f), f)
    sf = np.max(np.sum(np.abs(a), axis=0)) ** 2 * h
    K = np.asarray(own).reshape(m1, m1)
    c.close('inner with itself', K, gram(a, a) * h, 1e-12, scale=sf)
    c.true('inner with itself is not negative', np.all(np.diag(K) >= 0))
    if m1 == m2:
        d = c.do('dot', lambda: np.dot(f, g), f, g)
        c.close('dot', np.asarray(d).reshape(-1), np.array([np.trace(G)]), 1e-12, scale=s * m1)
        q = c.do('dot with itself', lambda: np.dot(f, f), f)
        c.close('dot with itself', np.asarray(q).reshape(-1), [np.trace(gram(a, a)) * h], 1e-12, scale=sf * m1)
        from funpy.norms import sprod
        k = float(rng.choice([1., 2., -.5]))
        d = c.do('sprod', lambda: sprod(f, g) if k == 1 else sprod(f, g, scale=k), f, g)
        c.close('scaled scalar product', np.asarray(d).reshape(-1), [k * k * np.trace(G)], 1e-12, scale=k * k * s * m1)
        import funpy
        # weight 1/sqrt(1 - t^2): Gauss-Chebyshev quadrature is exact
        N = n1 + n2 + 2
        t = np.cos(np.pi * (np.arange(N) + .5) / N)
        W = np.sum(gen.ceval(a, t) * gen.ceval(b, t), axis=0) * np.pi / N * h
        w = c.do('innerw', lambda: funpy.innerw(f, g), f, g)
        c.close('weighted inner product', np.asarray(w).reshape(-1), W, 1e-12, scale=s * 4)
        nf = c.do('normh', lambda: funpy.normh(f), f)
        c.close('normh', np.asarray(nf).reshape(-1), [np.sqrt(np.trace(gram(a, a)) * h)], 1e-9, scale=np.sqrt(sf * m1))
    c.seen('products', m1, m2, n1, n2)


def norms(c):
    import funpy
    rng = c.rng
    dom = domain(rng)
    m, n = gen.cols(rng), gen.size(rng, 0)
    sc = float(10.0 ** rng.choice([0, 0, 0, -8, 8]))
    a = gen.coeffs(rng, n, m, scale=sc)
    f = gen.fun(a, dom)
    h = half(dom)
    S = np.max(np.sum(np.abs(a), axis=0))
    x, w = np.polynomial.legendre.leggauss(2 * n + 3)
    F = gen.ceval(a, x)
    i2 = np.sum(w @ F ** 2) * h
    i4 = np.sum(w @ F ** 4) * h
    eps = 1e-11 if n < 60 else 1e-8
    c.describe('norms n=%d m=%d scale %g on %s' % (n, m, sc, list(dom)))
    r = c.do('norm', lambda: funpy.norm(f), f)
    c.close('L2 norm squared', np.asarray(r, float) ** 2, i2, eps, scale=S * S * h * m)
    c.true('norm is one number', np.size(r) == 1)
    c.close('norm method', c.do('norm method', lambda: f.norm(), f), r, 1e-14)
    r2 = c.do('norm2', lambda: funpy.norm2(f), f)
    c.close('norm2', r2, i2, eps, scale=S * S * h * m)
    r4 = c.do('norm p=4', lambda: funpy.norm(f, p=4), f)
    c.close('L4 norm to the fourth', np.asarray(r4, float) ** 4, i4, eps * 10, scale=S ** 4 * h * m)
    tt = np.cos(np.pi * np.arange(20 * n + 200) / (20 * n + 199))
    mx = np.max(np.abs(gen.ceval(a, tt)))
    ri = c.do('norm p=inf', lambda: funpy.norm(f, p=np.inf), f)
    c.true('sup norm bounds the values', float(ri) >= mx * (1 - 1e-9), lambda: '%g < %g' % (ri, mx))
    c.true('sup norm is attained', float(ri) <= mx * (1 + 2e-2), lambda: '%g > %g' % (ri, mx))
    k = float(rng.choice([-2, 0.5, 3]))
    c.close('norm is homogeneous', c.do('norm', lambda: funpy.norm(k * f), f), abs(k) * float(r), 1e-9, scale=abs(k) * float(r) + 1e-9 * S)
    b = gen.coeffs(rng, gen.size(rng, 0), m, scale=sc)
    g = gen.fun(b, dom)
    rg, rs = float(funpy.norm(g)), float(c.do('norm', lambda: funpy.norm(f + g), f, g))
    c.true('triangle inequality', rs <= (float(r) + rg) * (1 + 1e-7), lambda: '%g > %g + %g' % (rs, r, rg))
    ip = float(np.asarray(c.do('dot', lambda: np.dot(f, g), f, g)).reshape(()))
    c.true('Cauchy-Schwarz', abs(ip) <= float(r) * rg * (1 + 1e-7) + 1e-12 * S * np.sum(np.abs(b)) * h, lambda: '%g > %g' % (ip, float(r) * rg))
    if float(r) > 1e-6 * S * np.sqrt(h):
        u = c.do('normalize', lambda: funpy.normalize(f), f)
        c.close('normalized', funpy.norm(u), 1.0, 1e-9)
        xx = inside(rng, dom, 7)
        c.close('normalized direction', V(u, xx, m) * float(r), V(f, xx, m), 1e-9, scale=S)
    if n < 60:
        d1 = w @ gen.ceval(gen.cder(a), x) ** 2 / h
        d2 = w @ gen.ceval(gen.cder(a, 2), x) ** 2 / h ** 3
        t1 = dtol(a, 1) ** 2 + 1e-11 * np.max(d1) * h
        h1 = c.do('h1norm', lambda: funpy.h1norm(f), f)
        c.close('H1 norm squared', np.asarray(h1, float) ** 2, i2 + np.sum(d1), 1e-9, scale=i2 + np.sum(d1) + t1 / h)
        h2 = c.do('h2norm', lambda: funpy.h2norm(f), f)
        c.close('H2 norm squared', np.asarray(h2, float) ** 2, i2 + np.sum(d1) + np.sum(d2), 1e-8,
                scale=i2 + np.sum(d1) + np.sum(d2) + 1e-6 * dtol(a, 2) ** 2 / h ** 3)
    c.close('norm of zero', funpy.norm(c.do('zero', lambda: f * 0.0, f)), 0.0, 1, scale=1e-300)
    c.seen('norms', m, n)


def orders(c):
    """Norms of every order, of functions that keep one sign where the order is odd, and Sobolev norms of every index."""
    import funpy
    rng = c.rng
    dom = domain(rng)
    m, n = gen.cols(rng), int(rng.integers(1, 24))
    sc = float(10.0 ** rng.choice([0, 0, 0, -4, 4]))
    a = gen.coeffs(rng, n, m)
    a = a / np.maximum(np.sum(np.abs(a), axis=0), 1e-12)
    p = int(rng.choice([1, 2, 3, 4, 5, 6, 8]))
    sign = rng.choice([-1, 1], m)
    if p % 2:
        a[0] += 1.5 * sign
    a = np.asfortranarray(a * sc)
    f = gen.fun(a, dom)
    h = half(dom)
    x, w = np.polynomial.legendre.leggauss(8 * n + 9)
    F = gen.ceval(a, x)
    ref = np.sum(w @ np.abs(F) ** p) * h
    S = 2.5 * sc
    full = np.sum(2 * S ** p * m) * h
    tol = 1e-9 + p * gen.argtol(a, dom) / S
    c.describe('norm of order %d n=%d m=%d signs %s scale %g on %s' % (p, n, m, list(sign), sc, list(dom)))
    r = c.do('norm', lambda: funpy.norm(f, p=p), f)
    c.close('norm of order p', np.asarray(r, float).reshape(-1) ** p, [ref], tol, scale=full)
    c.close('norm method of order p', f.norm(p=p), r, 1e-14)
    r2 = c.do('norm2', lambda: funpy.norm2(f, p=p), f)
    c.close('norm2 of order p', np.asarray(r2, float).reshape(-1), [ref], tol, scale=full)
    # Sobolev norms: all columns, all derivatives up to k
    k = int(rng.integers(0, 5))
    tot, top = 0.0, 0.0
    for j in range(k + 1):
        tot += np.sum(w @ gen.ceval(gen.cder(a, j) if j else a, x) ** 2) * h / h ** (2 * j)
        top += dtol(a, j) ** 2 * h / h ** (2 * j) if j else S * S * h
    r = c.do('wkpnorm', lambda: funpy.wkpnorm(f, p=2, k=k), f)
    c.close('Sobolev norm squared', np.asarray(r, float).reshape(-1) ** 2, [tot], 1e-9, scale=tot + 1e-4 * top)
    if k == 1:
        c.close('Sobolev norm without arguments', c.do('wkpnorm', lambda: funpy.wkpnorm(f), f), r, 1e-13)
    k4 = int(rng.integers(1, 3))
    tot, top = 0.0, 0.0
    for j in range(k4 + 1):
        d = (gen.ceval(gen.cder(a, j) if j else a, x)) / h ** j
        tot += np.sum(w @ d ** 4) * h
        top += (dtol(a, j) / h ** j if j else S) ** 4 * h
    r = c.do('wkpnorm of order 4', lambda: funpy.wkpnorm(f, p=4, k=k4), f)
    c.close('Sobolev norm of order 4', np.asarray(r, float).reshape(-1) ** 4, [tot], 1e-8, scale=tot + 1e-4 * top)
    if m == 1:
        r = c.do('normh', lambda: funpy.normh(f), f)
        c.close('normh', np.asarray(r, float).reshape(-1) ** 2, [np.sum(w @ F ** 2) * h], 1e-11, scale=S * S * h)
    # Chebyshev weight: the integral of f^2 / sqrt(1 - t^2) over the reference interval, in the library's scaling
    q = np.cos(np.pi * (np.arange(4 * n + 8) + .5) / (4 * n + 8))
    ww = np.sum(gen.ceval(a, q) ** 2) * np.pi / (4 * n + 8)
    r = c.do('weighted norm', lambda: funpy.norm2(f, weighted=True), f)
    iw = c.do('innerw', lambda: funpy.innerw(f, f), f)
    c.close('weighted norm and inner product', np.asarray(r, float).reshape(-1), [float(np.sum(iw))], 1e-12, scale=float(np.sum(iw)) + 1e-300)
    ratio = float(np.sum(iw)) / ww if ww > 1e-20 * S * S else 1.0
    c.true('weighted norm in units of the interval', min(abs(ratio - 1), abs(ratio / h - 1)) < 1e-8 or ww < 1e-12 * S * S, lambda: '%g of half length %g' % (ratio, h))
    if rng.random() < .1:
        c.raises('norm of order 0', lambda: funpy.norm(f, p=0), f)
        c.raises('norm2 of negative order', lambda: funpy.norm2(f, p=-2), f)
        c.raises('negative Sobolev index', lambda: funpy.wkpnorm(f, k=-1), f)
    c.seen('orders', p, k, m, n)


def sturm(c):
    import funpy
    rng = c.rng
    dom = domain(rng)
    n = int(rng.integers(2, 50))
    a = gen.coeffs(rng, n, 1)
    f = gen.fun(a, dom)
    h = half(dom)
    x, w = np.polynomial.legendre.leggauss(2 * n + 3)
    l2 = np.sqrt(np.sum(w @ gen.ceval(a, x) ** 2) * h)
    s0 = gen.ceval(gen.cder(a), [-1.0])[0, 0]
    v0 = gen.ceval(a, [-1.0])[0, 0]
    d2 = np.sqrt(np.sum(w @ gen.ceval(gen.cder(a), x) ** 2) / h)
    c.describe('Sturm norms n=%d on %s' % (n, list(dom)))
    if abs(s0) > 1e-6 and d2 > 1e-5:
        c.close('sturm_norm', c.do('sturm_norm', lambda: funpy.sturm_norm(f), f), np.sign(s0) * l2, 1e-9, scale=max(l2, 1e-3))
    if abs(v0) > 1e-6 and d2 > 1e-5:
        c.close('sturm_norm_alt', c.do('sturm_norm_alt', lambda: funpy.sturm_norm_alt(f), f), np.sign(v0) * l2, 1e-9, scale=max(l2, 1e-3))
    k = gen.fun(np.array([[float(rng.uniform(.5, 2)) * float(rng.choice([-1, 1]))]]), dom)
    c.close('sturm_norm of a constant', c.do('sturm_norm', lambda: funpy.sturm_norm(k), k), funpy.norm(k), 1e-12)
    c.seen('sturm', n, s0 > 0, v0 > 0)


def functional(c):
    """A function turned into a functional gives the inner product."""
    from funpy import Functional
    rng = c.rng
    dom = domain(rng)
    n = int(rng.integers(2, 60))
    a = gen.coeffs(rng, n, 1)
    b = gen.coeffs(rng, int(rng.integers(2, n + 1)), 1)
    f = gen.fun(a, dom)
    N = 2 * n + int(rng.integers(0, 9))
    g = gen.fun(np.vstack((b, np.zeros((N - b.shape[0], 1)))), dom)
    h = half(dom)
    c.describe('functional n=%d N=%d on %s' % (n, N, list(dom)))
    keep = np.array(a)
    L = c.do('Functional', lambda: Functional(gen.fun(keep, dom), n=N))
    v = c.do('apply', lambda: np.dot(L, np.asarray(g.onefun)), g)
    c.close('functional', np.asarray(v).reshape(-1), (gram(a, b) * h).reshape(-1), 1e-12,
            scale=np.sum(np.abs(a)) * np.sum(np.abs(b)) * h)
    c.seen('functional', n, N)


def factor(c):
    """f = Q R with orthonormal columns and an upper triangular factor."""
    import funpy
    rng = c.rng
    dom = domain(rng)
    m, n = gen.cols(rng), gen.size(rng, 0)
    if n > 120:
        n = int(rng.integers(1, 120))
    sc = float(10.0 ** rng.choice([0, 0, -7, -3, 4, 10]))
    a = rng.standard_normal((n, m))
    a *= (sc / np.sqrt(n))
    f = gen.fun(np.asfortranarray(a), dom)
    h = half(dom)
    c.describe('qr n=%d m=%d scale %g on %s' % (n, m, sc, list(dom)))
    keep = f.coeffs.copy()
    Q, R = c.do('qr', lambda: funpy.qr(f), f)
    c.close('qr leaves the function alone', f.coeffs, keep, 0)
    R = np.asarray(R)
    c.true('R is square', R.shape == (m, m))
    c.true('Q has the columns and the domain', Q.m == m and np.allclose(Q.domain, f.domain, rtol=1e-15))
    c.close('R is upper triangular', np.tril(R, -1), np.zeros((m, m)), 0)
    c.true('diagonal of R is not negative', np.all(np.diag(R) >= 0))
    S = np.max(np.sum(np.abs(a), axis=0))
    x = inside(rng, dom, 9)
    # columns beyond the number of independent ones are only determined up to the factorisation's tolerance
    tol = 1e-10 if m <= n else 1e-6
    c.close('f = Q R', V(Q, x, m) @ R, V(f, x, m), tol + gen.argtol(np.asfortranarray(a), dom) / S, scale=S * m)
    q = np.asarray(Q.coeffs)
    c.close('Q is orthonormal', gram(q, q) * h, np.eye(m), 1e-9)
    if m <= n:
        # Gram matrix: R^T R
        c.close('R is the Cholesky factor of the Gram matrix', R.T @ R, gram(a, a) * h, 1e-10, scale=S * S * h)
    c.seen('qr', m, n, sc)


GROUPS = {'products': (products, 3200, 36000), 'norms': (norms, 2000, 20000), 'orders': (orders, 800, 8000), 'sturm': (sturm, 800, 8000),
          'functional': (functional, 800, 8000),
          'factor': (factor, 1200, 12000)}
