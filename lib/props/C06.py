"""Differentiation and integration of Chebyshev functions."""
import numpy as np
import gen
from gen import V, inside, domain

RULE = ('derivatives of order 1..4, antiderivatives and definite integrals of random functions (1..400 coefficients, '
        '1..7 columns) on random domains against coefficient recurrences of numpy, and the fundamental theorem, '
        'linearity, product rule and integration by parts between whole results; distinct by rule, order, columns, size')


def half(dom):
    return (float(dom[-1]) - float(dom[0])) / 2


def tkd(n, k):
    """T_n^(k)(1)"""
    n = np.asarray(n, float)
    out = np.ones_like(n)
    for i in range(k):
        out = out * np.abs(n * n - i * i) / (2 * i + 1)
    return out


def dtol(a, k):
    """Absolute error (on [-1, 1]) rounding and chopping may leave in the k-th derivative."""
    n = a.shape[0]
    w = tkd(np.arange(n), k)
    mx = np.max(np.abs(a))
    chop = 1e-15 if n < 45 else 4e-12
    return 1e-13 * np.max(w @ np.abs(a)) + chop * mx * (np.sum(w) / max(1, n) * 4 + tkd(n, k))


def setup(c, big=0.02, decay=None):
    rng = c.rng
    dom = domain(rng)
    m = gen.cols(rng)
    n = gen.size(rng, big)
    a = gen.coeffs(rng, n, m, scale=float(10.0 ** rng.choice([0, 0, 0, -10, 10])), decay=decay)
    return dom, m, n, a, inside(rng, dom)


def derivative(c):
    rng = c.rng
    dom, m, n, a, x = setup(c)
    f = gen.fun(a, dom)
    k = int(rng.choice([0, 1, 1, 2, 2, 3, 4] if n > 60 else [0, 1, 1, 2, 2, 3, 4, 5, 6, 8]))
    t = gen.to_ref(dom, x)
    h = half(dom)
    c.describe('derivative of order %d of n=%d m=%d on %s' % (k, n, m, list(dom)))
    g = c.do('diff', lambda: np.diff(f, n=k) if k != 1 or rng.random() < .5 else np.diff(f), f)
    d = gen.cder(a, k)
    tol = dtol(a, k) + gen.argtol(d, dom)
    c.close('derivative', V(g, x, m), gen.ceval(d, t) / h ** k, 1, scale=tol / h ** k)
    c.true('domain of a derivative', np.array_equal(np.asarray(g.domain, float), np.asarray(dom, float)) and g.m == m)
    if k > 1:
        r = f
        for _ in range(k):
            r = c.do('diff repeated', lambda: np.diff(r), r)
        c.close('repeated derivative', V(r, x, m), gen.ceval(d, t) / h ** k, 1, scale=10 * tol / h ** k)
    c.seen('diff', k, m, n)


def integral(c):
    rng = c.rng
    dom, m, n, a, x = setup(c)
    f = gen.fun(a, dom)
    t = gen.to_ref(dom, x)
    h = half(dom)
    s = np.max(np.sum(np.abs(a), axis=0))
    eps = 1e-13 if n < 45 else 1e-8
    c.describe('integrals of n=%d m=%d on %s' % (n, m, list(dom)))
    S = c.do('sum', lambda: np.sum(f), f)
    ref = gen.cdefint(a) * h
    c.close('definite integral', np.asarray(S).reshape(-1), ref.reshape(-1), 1e-13, scale=s * h)
    F = c.do('cumsum', lambda: np.cumsum(f), f)
    A = gen.cint(a)
    c.close('antiderivative', V(F, x, m), gen.ceval(A, t) * h, 1, scale=(eps * s + gen.argtol(A, dom)) * h)
    c.close('antiderivative vanishes at the left end', V(F, np.array([dom[0]]), m), np.zeros((1, m)), eps, scale=s * h)
    c.close('antiderivative at the right end is the integral', V(F, np.array([dom[-1]]), m)[0], ref.reshape(-1), 10 * eps, scale=s * h)
    c.true('domain of an antiderivative', np.array_equal(np.asarray(F.domain, float), np.asarray(dom, float)) and F.m == m)
    D = c.do('diff of cumsum', lambda: np.diff(F), F)
    tol = (dtol(A, 1) + (1e-15 if n < 45 else 1e-10) * s * n ** 2 + gen.argtol(a, dom))
    c.close('derivative of the antiderivative', V(D, x, m), gen.ceval(a, t), 1, scale=tol)
    G = c.do('cumsum of diff', lambda: np.cumsum(np.diff(f)), f)
    lo = gen.ceval(a, [-1.0])
    c.close('antiderivative of the derivative', V(G, x, m), gen.ceval(a, t) - lo, 1,
            scale=dtol(a, 1) * 2 + gen.argtol(a, dom) + eps * s)
    k = float(rng.uniform(-3, 3))
    c.close('integral is linear', np.asarray(c.do('sum', lambda: np.sum(f * k + 1.0), f)).reshape(-1),
            ref.reshape(-1) * k + 2 * h, 1e-12, scale=(s * 3 + 1) * h)
    c.seen('integral', m, n)


def rules(c):
    rng = c.rng
    dom, m = domain(rng), gen.cols(rng)
    n1, n2 = int(rng.integers(1, 45)), int(rng.integers(1, 45))
    a, b = gen.coeffs(rng, n1, m), gen.coeffs(rng, n2, m)
    f, g = gen.fun(a, dom), gen.fun(b, dom)
    x = inside(rng, dom)
    h = half(dom)
    sa, sb = (np.max(np.sum(np.abs(q), axis=0)) for q in (a, b))
    c.describe('product rule and integration by parts n=%d,%d m=%d on %s' % (n1, n2, m, list(dom)))
    l = c.do("(f g)'", lambda: np.diff(f * g), f, g)
    r = c.do("f' g + f g'", lambda: np.diff(f) * g + f * np.diff(g), f, g)
    p = gen.cmul(a, b)
    tol = (2e-13 * sa * sb * (n1 + n2) ** 2 + gen.argtol(gen.cder(p), dom)) / h
    c.close('product rule', V(l, x, m), V(r, x, m), 1, scale=2 * tol)
    c.close('derivative of a product', V(l, x, m), gen.ceval(gen.cder(p), gen.to_ref(dom, x)) / h, 1, scale=tol)
    i1 = c.do("int f' g", lambda: np.sum(np.diff(f) * g), f, g)
    i2 = c.do("int f g'", lambda: np.sum(f * np.diff(g)), f, g)
    e = gen.ceval(p, [-1.0, 1.0])
    c.close('integration by parts', np.asarray(i1).reshape(-1) + np.asarray(i2).reshape(-1), e[1] - e[0], 1,
            scale=2e-13 * sa * sb * (n1 ** 2 + n2 ** 2) + 1e-13)
    d = c.do("(f + g)'", lambda: np.diff(f + g), f, g)
    e = c.do("f' + g'", lambda: np.diff(f) + np.diff(g), f, g)
    c.close('sum rule', V(d, x, m), V(e, x, m), 1, scale=tol + (2e-13 * (sa + sb) * (n1 + n2) ** 2) / h)
    if n1 < 30:
        q = a / max(sa, 1)
        u = gen.fun(q, dom)
        l = c.do("exp(f)'", lambda: np.diff(np.exp(u)), u)
        r = c.do("f' exp(f)", lambda: np.diff(u) * np.exp(u), u)
        c.close('chain rule', V(l, x, m), V(r, x, m), 1, scale=(3e-10 * n1 ** 2 + 1e-8 + 10 * gen.argtol(gen.cder(q), dom)) / h)
    c.seen('rules', m, n1, n2)


def interval(c):
    """Change of variables: the same values on another domain scale derivative and integral accordingly."""
    rng = c.rng
    m, n = gen.cols(rng), int(rng.integers(1, 60))
    a = gen.coeffs(rng, n, m)
    d1 = np.array([0.0, 1.0])
    L = float(2.0 ** rng.integers(-6, 7))
    d2 = np.array([0.0, L])
    f, g = gen.fun(a, d1), gen.fun(a, d2)
    x = np.linspace(0, 1, 9)
    s = np.max(np.abs(gen.ceval(gen.cder(a), np.linspace(-1, 1, 50)))) + np.max(np.abs(a))
    k = int(rng.integers(1, 4))
    c.describe('dilation by %g, order %d, n=%d m=%d' % (L, k, n, m))
    l = c.do('diff', lambda: np.diff(f, n=k), f)
    r = c.do('diff', lambda: np.diff(g, n=k), g)
    R = V(l, x, m)
    c.close('derivative scales', V(r, L * x, m) * L ** k, R, 1e-13, scale=max(np.max(np.abs(R)), 1e-300) * 10 + s)
    c.close('integral scales', np.asarray(c.do('sum', lambda: np.sum(g), g)).reshape(-1) / L,
            np.asarray(np.sum(f)).reshape(-1), 1e-14, scale=np.sum(np.abs(a)))
    c.close('antiderivative scales', V(c.do('cumsum', lambda: np.cumsum(g), g), L * x, m) / L, V(np.cumsum(f), x, m), 1e-13,
            scale=np.sum(np.abs(a)))
    c.seen('interval', m, n, k)


GROUPS = {'derivative': (derivative, 6000, 60000), 'integral': (integral, 4500, 48000), 'rules': (rules, 2500, 24000),
          'interval': (interval, 1500, 16000)}
