"""Simplification and adaptivity."""
import numpy as np
import gen
from gen import V, inside, domain

RULE = ('simplification and adaptive lengths of random functions (padded, noisy, slowly and quickly decaying, 1..5 columns '
        'of different length and scale) and rescaled constructions, judged by values, by lengths against the true degree and '
        'by invariance under scaling by powers of two; distinct by kind, size, columns')


def simplify(c):
    import funpy
    rng = c.rng
    dom, m, n = domain(rng), int(rng.choice([1, 1, 2, 3, 5, 6, 8])), gen.size(rng)
    a = gen.coeffs(rng, n, m)
    pad = int(rng.integers(0, 200)) if rng.random() < .6 else int(rng.integers(0, 14 + n // 3))
    sc = float(10.0 ** rng.choice([0, 0, -100, 100, -12, 12]))
    a *= sc
    f = gen.fun(np.vstack((a, np.zeros((pad, m)))), dom)
    x = inside(rng, dom)
    s = np.max(np.sum(np.abs(a), axis=0))
    c.describe('simplify n=%d + %d zeros, m=%d scale %g' % (n, pad, m, sc))
    t = np.cos(np.pi * np.arange(n + pad) / max(n + pad - 1, 1)) if n + pad > 1 else np.zeros(1)
    vs = np.max(np.abs(gen.ceval(a, t)), axis=0)
    c.close('vertical scale', np.ravel(c.do('vscale', lambda: f.vscale, f)), vs, 1e-12, scale=s)
    q = float(rng.choice([-3.0, 1e-6, 1e5]))
    f2 = gen.fun(np.vstack((a, np.zeros((pad, m)))), dom)
    f2.vscale
    f2 *= q
    c.close('vertical scale of a multiple', np.ravel(c.do('vscale', lambda: f2.vscale)), abs(q) * vs, 1e-12, scale=s * abs(q))
    g0 = c.do('copy', lambda: np.copy(f), f)
    g = c.do('simplify', lambda: g0.simplify())
    c.true('simplify works in place', g is g0)
    eps = 1e-13 if n < 60 else 2e-9
    ref = gen.ceval(a, gen.to_ref(dom, x))
    c.close('simplify keeps the values', V(g, x, m), ref, 1, scale=eps * s + gen.argtol(a, dom))
    c.true('simplify never lengthens', g.n <= n + pad + 1, lambda: '%d -> %d' % (n + pad, g.n))
    c.true('simplify keeps columns and domain', g.m == m and np.array_equal(np.asarray(g.domain, float), np.asarray(dom, float)))
    if pad > n // 3 + 25:
        c.true('simplify removes padding', g.n <= n + 12 + n // 4, lambda: '%d significant, %d kept' % (n, g.n))
    h = c.do('simplify twice', lambda: np.copy(g).simplify(), g)
    c.close('simplify twice', V(h, x, m), ref, 1, scale=2 * eps * s + gen.argtol(a, dom))
    # columns of very different size: each keeps its own relative accuracy
    if m > 1:
        w = 10.0 ** rng.uniform(-14, 14, m)
        k = gen.fun(np.vstack((a, np.zeros((pad, m)))) * w, dom)
        k = c.do('simplify', lambda: k.simplify())
        for j in range(m):
            sj = np.sum(np.abs(a[:, j])) * w[j]
            c.close('every column keeps its accuracy', V(k, x, m)[:, j], ref[:, j] * w[j], 1, scale=eps * sj + gen.argtol(a[:, j:j + 1], dom) * w[j])
    c.seen('simplify', n, m, pad > 0)


def scaling(c):
    """Construction and simplification do not depend on the unit the values are measured in."""
    from funpy import Fun
    from props.C01 import family
    rng = c.rng
    dom = domain(rng)
    name, op, _ = family(rng, dom)
    k = float(2.0 ** rng.integers(-300, 300))
    c.describe('%s scaled by %g on %s' % (name, k, list(dom)))
    f = c.do('construct', lambda: Fun(op=op, domain=dom))
    g = c.do('construct scaled', lambda: Fun(op=lambda x: k * op(x), domain=dom))
    c.true('length does not depend on the unit', f.n == g.n, lambda: '%d and %d' % (f.n, g.n))
    if f.n == g.n:
        c.close('coefficients scale', np.asarray(g.coeffs) / k, f.coeffs, 1e-15)
    L = float(2.0 ** rng.integers(-8, 8))
    h = c.do('construct on a dilated domain', lambda: Fun(op=lambda x: op(np.asarray(x) / L), domain=[L * float(dom[0]), L * float(dom[-1])]))
    x = inside(rng, dom)
    y = np.clip(L * x, L * float(dom[0]), L * float(dom[-1]))
    ref = op(x)
    c.close('values do not depend on the unit of length', V(h, y, 1)[:, 0], ref, 1,
            scale=1e-8 * max(1, np.max(np.abs(ref))) + 10 * gen.noise(op, dom, x))
    c.seen('scaling', name, f.n)


def adaptive(c):
    """The adaptive length finds the true degree: enough to resolve, not more."""
    from funpy import Fun
    rng = c.rng
    dom = domain(rng, .6)
    d = int(rng.integers(0, 40)) if rng.random() < .6 else int(rng.integers(40, 900))
    m = int(rng.choice([1, 1, 3]))
    a = rng.standard_normal((d + 1, m))
    if d >= 0:
        a[-1] = np.sign(a[-1]) * (0.5 + np.abs(a[-1]))
    to = lambda x: gen.to_ref(dom, x)
    ops = [(lambda x, j=j: gen.ceval(a[:, j:j + 1], to(x))[:, 0]) for j in range(m)]
    c.describe('polynomial of degree %d, m=%d' % (d, m))
    kw = {'resample': 'resample'} if rng.random() < .25 else {}
    f = c.do('construct', lambda: Fun(op=ops if m > 1 else ops[0], domain=dom, **kw))
    off = (abs(float(dom[0])) + abs(float(dom[-1]))) / (float(dom[-1]) - float(dom[0]))
    if off < 3:
        c.true('adaptive length', d + 1 <= f.n <= d + 8 + d // 10, lambda: 'degree %d got %d coefficients' % (d, f.n))
    c.true('construction converged', bool(f.ishappy))
    x = inside(rng, dom)
    c.close('adaptive values', V(f, x, m), gen.ceval(a, to(x)), 1, scale=1e-12 * np.sum(np.abs(a)) + 4 * gen.argtol(a, dom))
    c.seen('adaptive', d, m)


def noise(c):
    """A resolved function plus rounding-level noise is cut where the noise begins."""
    rng = c.rng
    m = int(rng.choice([1, 2]))
    N = int(rng.integers(60, 400))
    k = np.arange(N)[:, None]
    q = float(rng.uniform(.3, .8))
    a = q ** np.minimum(k, 2000) * rng.choice([-1, 1], (N, m)) * rng.uniform(.5, 1, (N, m))
    a += 1e-17 * rng.standard_normal((N, m))
    f = gen.fun(a)
    x = np.linspace(-1, 1, 31)
    need = int(np.ceil(np.log(2e-16) / np.log(q)))
    c.describe('decay %.2f with noise, N=%d' % (q, N))
    g = c.do('simplify', lambda: np.copy(f).simplify(), f)
    c.close('cut at the noise', V(g, x, m), gen.ceval(a, x), 1e-14, scale=np.sum(np.abs(a)))
    if N > need * 1.4 + 20:
        c.true('noise is dropped', g.n <= need * 1.15 + 8, lambda: 'kept %d, significant %d of %d' % (g.n, need, N))
    c.seen('noise', N, m)


def tolerance(c):
    """A result is trusted no further than the least accurate of what it was computed from."""
    from funpy import Fun
    rng = c.rng
    m = int(rng.choice([1, 2, 4]))
    e1, e2 = (float(10.0 ** -rng.integers(4, 16)) for _ in range(2))
    dom = domain(rng)
    n1, n2 = int(rng.integers(2, 40)), int(rng.integers(2, 40))
    a, b = gen.coeffs(rng, n1, m), gen.coeffs(rng, n2, m)
    a[0] += 1
    b[0] -= 1
    f, g = (Fun(coeffs=np.asfortranarray(q), domain=dom, eps=e, simplify=False, ishappy=True) for q, e in ((a, e1), (b, e2)))
    c.describe('tolerances %g %g n=%d,%d m=%d' % (e1, e2, n1, n2, m))
    w = max(e1, e2)
    for name, fn, want in (('sum', lambda: f + g, w), ('difference', lambda: g - f, w), ('product', lambda: f * g, w), ('product reversed', lambda: g * f, w),
                           ('stack', lambda: np.hstack((f, g)), w), ('scaled', lambda: 2.0 * f, e1), ('shifted', lambda: f + 1.0, e1), ('quotient', lambda: f / 3.0, e1),
                           ('negative', lambda: -g, e2), ('copy', lambda: np.copy(g), e2), ('derivative', lambda: np.diff(f), e1),
                           ('antiderivative', lambda: np.cumsum(f), e1), ('column', lambda: f[m - 1], e1), ('reversal', lambda: f.flipud(), e1)):
        r = c.do(name, fn, f, g)
        r = getattr(r, 'onefun', r)
        c.true('tolerance of a ' + name, r.eps == want, lambda: '%g, expected %g' % (r.eps, want))
    c.seen('tolerance', e1, e2, m)


GROUPS = {'simplify': (simplify, 4500, 40000), 'scaling': (scaling, 1500, 14000), 'adaptive': (adaptive, 2000, 16000),
          'noise': (noise, 1000, 10000), 'tolerance': (tolerance, 300, 3000)}
