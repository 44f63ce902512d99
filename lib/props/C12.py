"""Differentiation, integration, inner products, shifts and convolutions of trigonometric functions."""
import numpy as np
import gen
from gen import V, inside, domain
from props.C10 import setup, size_of, tsize, full, match
from props.C11 import pts

RULE = ('derivatives of order 1..4, antiderivatives, definite integrals, inner products, norms, shifts, circular convolutions and '
        'adhesion products of random trigonometric functions (odd and even lengths 1..600, real, complex and mixed columns) on random '
        'domains, against the termwise formulas; distinct by operation, length, columns, realness')
ASSUMPTIONS = ['odd derivatives of the highest cosine of an even length vanish by convention (the grid cannot see its sine)',
               'shifts are exercised on [-1, 1], where the unit of the shift is unambiguous']


def half(dom):
    return (float(dom[-1]) - float(dom[0])) / 2


def derivative(c):
    rng = c.rng
    dom = domain(rng)
    a, cols, sc = setup(c)
    n, m = a.shape
    f = gen.tfun(a, dom)
    k = int(rng.choice([0, 1, 1, 2, 3, 4]))
    h = half(dom)
    c.describe('derivative %d n=%d real=%s on %s' % (k, n, cols, list(dom)))
    d = c.do('diff', lambda: np.diff(f, n=k) if k != 1 or rng.random() < .5 else np.diff(f), f)
    x, t = pts(c, dom)
    b = a.copy()
    if n % 2 == 0 and k % 2:
        b[0] = 0
    S = (np.pi * max(n // 2, 1) / h) ** k * size_of(a)
    D = (np.pi * np.abs(gen.freqs(n)) / h) ** k @ np.abs(a)
    c.close('derivative', V(d, x, m), gen.teval_d(b, t, k) / h ** k, 2e-11, scale=max(np.max(D), 1e-300) + 1e-3 * S * 0)
    c.true('domain kept', np.array_equal(np.array(d.domain, float), np.array(f.domain, float)))
    if k == 2:
        e = c.do('diff twice', lambda: np.diff(np.diff(f)), f)
        bb = a.copy()
        if n % 2 == 0:
            bb[0] = 0
        c.close('derivative twice', V(e, x, m), gen.teval_d(bb, t, 2) / h ** 2, 2e-11, scale=max(np.max(D), 1e-300))
    c.seen('derivative', k, n, m, tuple(cols))


def integral(c):
    import funpy
    rng = c.rng
    dom = domain(rng)
    a, cols, sc = setup(c)
    n, m = a.shape
    h = half(dom)
    f = gen.tfun(a, dom)
    S = size_of(a)
    c.describe('integral n=%d real=%s on %s' % (n, cols, list(dom)))
    I = c.do('sum', lambda: np.sum(f), f)
    c.close('definite integral', np.asarray(I).reshape(-1), 2 * h * a[n // 2], 1e-12, scale=2 * h * S)
    b, cb, _ = setup(c, m=m if rng.random() < .5 else None)
    g = gen.tfun(b, dom)
    N = n + b.shape[0] + 2
    x = -1 + 2 * np.arange(N) / N
    if n % 2 == 0 and b.shape[0] % 2 == 0:
        pass
    G = gen.teval(a, x).T @ np.conj(gen.teval(b, x)) * 2 / N * h
    J = c.do('inner', lambda: np.inner(f, g), f, g)
    c.close('inner product', np.asarray(J).reshape(m, b.shape[1]) if np.size(J) == G.size else J, G, 2e-11, scale=2 * h * S * size_of(b))
    if b.shape[1] == m:
        d = np.asarray(c.do('dot', lambda: np.dot(f, g), f, g))
        c.close('dot product', d.reshape(-1), [np.trace(G)], 2e-11, scale=2 * h * m * S * size_of(b))
    K = c.do('inner', lambda: np.inner(g, f), f, g)
    c.close('hermitian', np.conj(np.asarray(K).reshape(b.shape[1], m)).T, G, 2e-11, scale=2 * h * S * size_of(b))
    r = c.do('norm', lambda: funpy.norm(f), f)
    x = -1 + 2 * np.arange(2 * n + 2) / (2 * n + 2)
    ref = np.sum(np.abs(gen.teval(a, x)) ** 2) * 2 * h / (2 * n + 2)
    c.close('norm', np.asarray(r).reshape(()) ** 2, ref, 2e-11, scale=S * S * 2 * h * m)
    c.seen('integral', n, b.shape[0], m, tuple(cols), tuple(cb))


def antiderivative(c):
    rng = c.rng
    dom = domain(rng)
    a, cols, sc = setup(c)
    n, m = a.shape
    h = half(dom)
    a[n // 2] = 0
    a2 = np.asfortranarray(a.copy())
    if n % 2 == 0:
        a[0] = 0          # the highest cosine has no periodic partner on the grid
    if not np.any(a):
        a[n // 2] = 0
    a = np.asfortranarray(a)
    f = gen.tfun(a, dom)
    k = gen.freqs(n)
    kk = np.where(k == 0, 1, k)
    b = a / (1j * np.pi * kk)[:, None]
    x, t = pts(c, dom)
    E = np.exp(1j * np.pi * np.outer(t, k)) - np.exp(-1j * np.pi * k)[None, :]
    ref = E @ b * h
    c.describe('antiderivative n=%d real=%s on %s' % (n, cols, list(dom)))
    g = c.do('cumsum', lambda: np.cumsum(f), f)
    c.close('antiderivative', V(g, x, m), ref, 2e-11, scale=2 * h * size_of(a))
    c.close('starts at zero', V(g, np.array([float(dom[0])]), m), np.zeros((1, m)), 2e-11, scale=2 * h * size_of(a) + 1e-300)
    # repeated integration, constant fixed at the left end once
    from funpy.trig.trigtech import cumsum as tcumsum
    f2 = gen.tfun(a2, dom)
    for q in (2, 3):
        u = c.do('cumsum of order %d' % q, lambda: tcumsum(f2.onefun, m=q), f2)
        bq = a2 * np.where(k == 0, 0, 1.0)[:, None] / ((1j * np.pi * kk)[:, None] ** q)
        if n % 2 == 0:
            bq[0] = 0 if q & 1 else bq[0]
        refq = gen.teval(bq, t) - gen.teval(bq, np.array([-1.0]))
        c.close('antiderivative of order %d' % q, V(u, t, m), refq, 2e-11, scale=size_of(a2))
    d = c.do('diff of antiderivative', lambda: np.diff(g), g)
    c.close('fundamental theorem', V(d, x, m), gen.teval(a, t), 2e-11, scale=size_of(a) * (1 + n))
    e = gen.tfun(a + np.where(k == 0, 1.0, 0)[:, None] * size_of(a) * 2, dom)
    c.raises('antiderivative of a non-zero mean', lambda: np.cumsum(e), e) if np.any(a) else None
    if m > 1 and np.any(a):
        j = int(rng.integers(0, m))
        e = gen.tfun(a + np.where(k == 0, 1.0, 0)[:, None] * size_of(a) * (np.arange(m) == j)[None, :], dom)
        c.raises('antiderivative of one column with a non-zero mean', lambda: np.cumsum(e), e)
    c.seen('antiderivative', n, m, tuple(cols))


def shift(c):
    rng = c.rng
    a, cols, sc = setup(c)
    n, m = a.shape
    if n % 2 == 0:
        a[0] = 0
        a = np.asfortranarray(a)
    s = float(rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 4.0, 11.0, -37.0])) if rng.random() < .3 else float(rng.uniform(-3, 3)) if rng.random() < .6 else float(rng.uniform(-50, 50))
    f = gen.tfun(a)
    t = rng.uniform(-1, 1, 15)
    c.describe('shift %g n=%d real=%s' % (s, n, cols))
    g = c.do('roll', lambda: np.roll(f, s), f)
    c.close('shifted', V(g, t, m), gen.teval(a, t - s), 2e-11, scale=size_of(a))
    b = c.do('roll back', lambda: np.roll(g, -s), g)
    c.close('shifted back', V(b, t, m), gen.teval(a, t), 2e-11, scale=size_of(a))
    c.close('integral invariant', np.sum(g), np.sum(f), 2e-11, scale=size_of(a))
    c.seen('shift', n, m, tuple(cols), s == 0)


def convolution(c):
    """Circular convolution and adhesion: products of coefficients."""
    import funpy
    rng = c.rng
    L_ = float(rng.choice([1.0, np.pi, rng.uniform(.2, 12), 50.0]))
    dom = [-L_, L_]
    a, ca, _ = setup(c, m=1)
    b, cb, _ = setup(c, m=1)
    if a.shape[0] % 2 == 0:
        a[0] = 0
    if b.shape[0] % 2 == 0:
        b[0] = 0
    A, B = full(np.asarray(a)), full(np.asarray(b))
    L = max(A.shape[0], B.shape[0])
    A, B = [np.vstack((np.zeros(((L - z.shape[0]) // 2, 1)), z, np.zeros(((L - z.shape[0]) // 2, 1)))) for z in (A, B)]
    f, g = gen.tfun(a, dom), gen.tfun(b, dom)
    t = rng.uniform(-1, 1, 15)
    x = np.clip(L_ * t, -L_, L_)
    c.describe('convolution n=%d,%d real=%s,%s on [-%g, %g]' % (a.shape[0], b.shape[0], ca, cb, L_, L_))
    S = size_of(a) * size_of(b)
    r = c.do('convolve', lambda: np.convolve(f, g), f, g)
    c.close('convolution', V(r, x, 1), gen.teval(2 * L_ * A * B, t), 2e-11, scale=S * L_)
    r = c.do('convolve', lambda: np.convolve(g, f), f, g)
    c.close('convolution commutes', V(r, x, 1), gen.teval(2 * L_ * A * B, t), 2e-11, scale=S * L_)
    f, g = gen.tfun(a, dom), gen.tfun(b, dom)
    from funpy.fun import adhesion
    for p, q in ((f, g), (g, f)):
        r = c.do('adhesion', lambda: adhesion(p, q), f, g)
        c.close('adhesion', V(r, x, 1), gen.teval(A * B, t), 2e-11, scale=S)
        c.true('domain of an adhesion product', np.array_equal(np.array(r.domain, float), np.array(dom)))
    c.seen('convolution', a.shape[0], b.shape[0], ca[0], cb[0])


def rules(c):
    """Product rule, integration by parts, linearity."""
    rng = c.rng
    dom = domain(rng)
    n1, n2 = [int(k) for k in rng.integers(1, 30, 2) * 2 + 1]
    a, ca, _ = setup(c, n=n1)
    m = a.shape[1]
    b, cb, _ = setup(c, m=m, n=n2)
    a, b = np.asfortranarray(a / size_of(a)), np.asfortranarray(b / size_of(b))
    f, g = gen.tfun(a, dom), gen.tfun(b, dom)
    h = half(dom)
    x, t = pts(c, dom)
    c.describe('rules n=%d,%d real=%s,%s' % (n1, n2, ca, cb))
    S = np.pi * (n1 + n2) / h
    L = c.do('product rule', lambda: np.diff(f * g), f, g)
    R = c.do('product rule', lambda: np.diff(f) * g + f * np.diff(g), f, g)
    c.close('product rule', V(L, x, m), V(R, x, m), 2e-11, scale=S)
    L = c.do('parts', lambda: np.sum(np.diff(f) * g), f, g)
    R = c.do('parts', lambda: np.sum(f * np.diff(g)), f, g)
    c.close('by parts', np.asarray(L).reshape(-1), -np.asarray(R).reshape(-1), 2e-11, scale=S * h)
    k = float(rng.standard_normal())
    L = c.do('linear', lambda: np.diff(f + k * g), f, g)
    R = c.do('linear', lambda: np.diff(f) + k * np.diff(g), f, g)
    c.close('linear', V(L, x, m), V(R, x, m), 2e-11, scale=S * (1 + abs(k)))
    c.seen('rules', n1, n2, m, tuple(ca), tuple(cb))


GROUPS = {'derivative': (derivative, 2100, 27000), 'integral': (integral, 1500, 18000), 'antiderivative': (antiderivative, 1200, 15000),
          'shift': (shift, 1200, 15000), 'convolution': (convolution, 900, 12000), 'rules': (rules, 900, 10500)}
