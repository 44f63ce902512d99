"""Trigonometric functions: construction, evaluation, transforms, prolongation, simplification."""
import numpy as np
import gen
from gen import V, inside, domain

RULE = ('trigonometric functions from formulas (7 periodic families, 1..4 columns, real, complex and mixed), from coefficients '
        'and from values (odd and even lengths 1..600) on random domains; transforms, prolongation and simplification; oracle is '
        'the explicit sum of complex exponentials or the formula; distinct by kind, parity, length, columns, realness')
ASSUMPTIONS = ['the library resolves periodic functions to 1e-10 of their size; oracles allow 1e-9 where a function is resolved, 2e-11 otherwise']


def tsize(rng):
    u = rng.random()
    if u < 0.5:
        return int(rng.integers(1, 24))
    if u < 0.9:
        return int(rng.choice([16, 17, 18, 31, 32, 33, 34, 48, 63, 64, 65, 66, 96, 100, 127, 128, 129]))
    return int(rng.choice([200, 255, 256, 257, 400, 511, 512, 513, 600]))


def family(rng, dom):
    """(vectorised formula of the reference variable, real?)"""
    k = int(rng.integers(7))
    p = float(rng.uniform(-1, 1))
    q = int(rng.integers(1, 9))
    A = float(rng.uniform(.3, 2.0))
    ph = lambda t: np.pi * (t - p)
    if k == 0:
        return (lambda t: np.exp(A * np.sin(q * ph(t)))), True, 'exp sin %d' % q
    if k == 1:
        r = float(rng.uniform(1.3, 3))
        return (lambda t: 1 / (r + np.cos(q * ph(t)))), True, 'pole %d' % q
    if k == 2:
        n = int(rng.integers(1, 40)) * 2 + 1
        c = gen.tcoeffs(rng, n, 1)
        return (lambda t: np.real(gen.teval(c, np.atleast_1d(t))[:, 0]).reshape(np.shape(t))), True, 'polynomial %d' % n
    if k == 3:
        return (lambda t: np.exp(1j * q * ph(t))), False, 'wave %d' % q
    if k == 4:
        n = int(rng.integers(1, 30)) * 2 + 1
        c = gen.tcoeffs(rng, n, 1, real=False)
        return (lambda t: gen.teval(c, np.atleast_1d(t))[:, 0].reshape(np.shape(t))), False, 'complex polynomial %d' % n
    if k == 5:
        return (lambda t: np.exp(A * np.exp(1j * q * ph(t)))), False, 'exp wave %d' % q
    return (lambda t: A * np.tanh(np.cos(ph(t))) + np.sin(q * ph(t))), True, 'tanh %d' % q


def setup(c, m=None, n=None, kinds=(True, False), near=None):
    """Random coefficients; near: a size that the new ones are comparable to (sums are resolved to 1e-10 of the larger)."""
    rng = c.rng
    m = int(rng.choice([1, 1, 1, 2, 3, 4])) if m is None else m
    n = tsize(rng) if n is None else n
    cols = [bool(rng.choice(kinds)) for _ in range(m)]
    if rng.random() < 0.6:
        cols = [cols[0]] * m
    a = np.hstack([gen.tcoeffs(rng, n, 1, real=r) for r in cols])
    sc = float(10.0 ** rng.choice([0, 0, 0, -3, 3, -7, -12, -16, 8])) if near is None else near * float(10.0 ** rng.choice([0, 0, 0, -3, 3]))
    return np.asfortranarray(a * sc), cols, sc


def size_of(a):
    return max(float(np.max(np.sum(np.abs(a), axis=0))), 1e-300)


def match(c, label, f, a, dom, tol=1e-9, k=13):
    m = a.shape[1]
    x = inside(c.rng, dom, k)
    t = gen.to_ref(dom, x)
    c.close(label, V(f, x, m), gen.teval(a, t), tol, scale=size_of(a))


def refinement(rng):
    if rng.random() < .65:
        return {}
    kw = {'resample': 'resample'} if rng.random() < .7 else {}
    if rng.random() < .5:
        kw['minSamples'] = int(rng.choice([9, 16, 20, 33, 64, 100, 128, 500]))
    return kw


def callable_(c):
    from funpy import Fun
    rng = c.rng
    dom = domain(rng)
    m = int(rng.choice([1, 1, 1, 2, 3]))
    fams = [family(rng, dom) for _ in range(m)]
    sc = float(10.0 ** rng.choice([0, 0, 0, -3, 3]))
    ops = [(lambda x, g=g: sc * g(gen_ref(dom, x))) for g, _, _ in fams]
    c.describe('%s scale %g on %s' % ([f[2] for f in fams], sc, list(dom)))
    f = c.do('construct', lambda: Fun(op=ops if m > 1 else (ops[0] if rng.random() < .5 else ops), type='trig', domain=dom, **refinement(rng)))
    c.true('periodic type', f.type == 'trig' and f.m == m)
    t = rng.uniform(-1, 1, 40)
    x = float(dom[0]) + (t + 1) / 2 * (float(dom[-1]) - float(dom[0]))
    x = np.clip(x, float(dom[0]), float(dom[-1]))
    tt = gen_ref(dom, x)
    ref = np.stack([sc * g(tt) for g, _, _ in fams], axis=1)
    S = np.max(np.abs(ref))
    nz = gen.noise(lambda xx: np.abs(np.stack([sc * g(gen_ref(dom, xx)) for g, _, _ in fams], axis=1)), dom, x)
    c.close('values', V(f, x, m), ref, 1, scale=2e-8 * S + 20 * np.max(nz))
    if all(r for _, r, _ in fams):
        c.true('real formulas give real values', np.isrealobj(np.asarray(f(x))) or np.all(np.abs(np.imag(f(x))) < 1e-8 * S))
    e = V(f, np.array([float(dom[0]), float(dom[-1])]), m)
    c.close('periodic', e[0], e[1], 2e-11, scale=S)
    c.seen('callable', *sorted(f[2].split()[0] for f in fams), f.shape[0])


def long_(c):
    """Formulas with many oscillations, and columns of very different size: each its own accuracy and realness."""
    from funpy import Fun
    rng = c.rng
    dom = domain(rng)
    k = int(rng.choice([100, 127, 128, 200, 255, 256, 257, 300, 400, 511, 512, 700, 900])) + int(rng.integers(0, 5))
    ph = float(rng.uniform(0, 6))
    one = lambda t: np.cos(np.pi * k * t + ph) + .3 * np.sin(np.pi * t)
    c.describe('%d oscillations on %s' % (k, list(dom)))
    f = c.do('construct', lambda: Fun(op=lambda x: one(gen_ref(dom, x)), type='trig', domain=dom, **refinement(rng)))
    x = inside(rng, dom, 21)
    t = gen_ref(dom, x)
    sens = k * (1 + (abs(float(dom[0])) + abs(float(dom[-1]))) / (float(dom[-1]) - float(dom[0]))) * 4e-15
    c.close('oscillations', V(f, x, 1)[:, 0], one(t), 1, scale=2e-8 + sens * 10)
    m = int(rng.integers(2, 4))
    sc = 10.0 ** rng.choice([-9, -5, 0, 5, 9], m)
    kind = rng.random(m) < .5
    fs = [(lambda t, j=j: sc[j] * (np.exp(1j * np.pi * (j + 1) * t) if not kind[j] else np.cos(np.pi * (j + 1) * t) + 0j)) for j in range(m)]
    n = 2 * m + 3
    v = np.stack([g(-1 + 2 * np.arange(n) / n) for g in fs], axis=1)
    f = c.do('from values', lambda: Fun(values=np.asfortranarray(v), type='trig', domain=dom), v)
    got = V(f, x, m)
    for j in range(m):
        c.close('column of its own size', got[:, j], fs[j](t), 1, scale=sc[j] * (1e-11 + sens * 10 / k * n))
        c.true('realness of every column', bool(np.ravel(f.onefun.isReal)[j]) == bool(kind[j]), lambda: '%s %s' % (sc, kind))
    # a small imaginary part is a part of the function
    r = float(10.0 ** rng.integers(-9, 0))
    n = int(rng.choice([5, 8, 21, 40]))
    g2 = lambda t: np.cos(np.pi * t) + 1j * r * np.sin(2 * np.pi * t)
    v = g2(-1 + 2 * np.arange(n) / n)[:, None]
    how = int(rng.integers(0, 2))
    c.describe('imaginary part of relative size %g' % r)
    f = c.do('nearly real', lambda: Fun(values=np.asfortranarray(v), type='trig', domain=dom) if how else
             Fun(op=lambda x: g2(gen_ref(dom, x)), type='trig', domain=dom), v)
    if how:
        c.close('small imaginary part', np.imag(V(f, x, 1)[:, 0]), r * np.sin(2 * np.pi * t), 1, scale=1e-12 + sens / k * n)
    else:
        c.close('small imaginary part', V(f, x, 1)[:, 0], g2(t), 1, scale=2e-8 + sens / k * n)
    c.seen('long', k // 100, m, tuple(kind))


def gen_ref(dom, x):
    a, b = float(dom[0]), float(dom[-1])
    return (2 * np.asarray(x) - a - b) / (b - a)


def evaluation(c):
    rng = c.rng
    dom = domain(rng)
    a, cols, sc = setup(c)
    n, m = a.shape
    keep = a.copy()
    c.describe('eval n=%d real=%s scale %g on %s' % (n, cols, sc, list(dom)))
    f = c.do('from coefficients', lambda: gen.tfun(a, dom), a)
    S = size_of(a)
    tol = 2e-11 + 1e-14 * n
    x = inside(rng, dom, 19)
    rng.shuffle(x)
    t = gen.to_ref(dom, x)
    ref = gen.teval(keep, t)
    noise = 4e-14 * n * (1 + (abs(dom[0]) + abs(dom[-1])) / (dom[-1] - dom[0])) * S
    c.close('evaluate', V(c.do('evaluate', lambda: f, f), x, m), ref, 1, scale=tol * S + noise)
    for xx, rr in zip(x[:4], ref[:4]):
        v = c.do('evaluate one point', lambda: f(xx), f)
        c.close('one point', np.asarray(v).reshape(-1), rr, 1, scale=tol * S + noise)
        v = c.do('evaluate array of one', lambda: f(np.array([xx])), f)
        c.close('array of one', np.asarray(v).reshape(-1), rr, 1, scale=tol * S + noise)
    if rng.random() < .06:
        z = inside(rng, dom, int(rng.integers(1000, 9000)))
        c.close('many points', V(c.do('evaluate many', lambda: f, f), z, m), gen.teval(keep, gen.to_ref(dom, z)), 1, scale=tol * S + noise)
    v1 = V(f, x, m)
    v2 = V(f, x, m)
    c.true('evaluating twice gives the same', np.array_equal(v1, v2))
    c.true('caller\'s coefficients kept', np.array_equal(a, keep))
    for k in range(m):
        g = c.do('column', lambda: f[k], f)
        c.close('column', V(g, x, 1)[:, 0], ref[:, k], 1, scale=tol * S + noise)
    c.true('shape', f.m == m and f.shape == (n, m))
    for r, j in zip(cols, range(m)):
        c.true('realness', bool(np.atleast_1d(f.onefun.isReal)[j]) == (r or np.max(np.abs(np.imag(gen.teval(keep[:, [j]], np.linspace(-1, 1, 2 * n + 3))))) < 1e-8 * S)
               or n == 1 or np.max(np.abs(np.imag(gen.teval(keep[:, [j]], -1 + 2 * np.arange(n) / n)))) < 1e-8 * S)
    c.seen('evaluation', n, m, tuple(cols))


def convert(c):
    """Between the Chebyshev and the trigonometric representation of one periodic function."""
    import funpy
    from funpy import Fun
    rng = c.rng
    dom = domain(rng)
    m = int(rng.choice([1, 1, 2, 3]))
    n = int(rng.integers(0, 12)) * 2 + 1
    a = np.hstack([gen.tcoeffs(rng, n, 1) for _ in range(m)])
    S = size_of(a)
    F = lambda t: np.real(gen.teval(a, np.atleast_1d(t)))
    c.describe('convert n=%d m=%d on %s' % (n, m, list(dom)))
    x = inside(rng, dom, 13)
    ref = F(gen.to_ref(dom, x))
    f = gen.tfun(a, dom)
    g = c.do('asfun cheb', lambda: funpy.asfun(f, type='cheb'), f)
    tol = 1e-8 + 1e-13 * n * (abs(float(dom[0])) + abs(float(dom[-1]))) / (float(dom[-1]) - float(dom[0]))
    c.true('type', g.type == 'cheb' and not g.istrig and g.m == m)
    c.true('domain', np.array_equal(np.array(g.domain, float), np.array(dom, float)))
    c.close('chebyshev form', V(g, x, m), ref, tol, scale=S)
    h = c.do('asfun trig', lambda: funpy.asfun(g, type='trig'), g)
    c.true('type', h.type == 'trig' and h.istrig and h.m == m)
    c.true('domain', np.array_equal(np.array(h.domain, float), np.array(dom, float)))
    c.close('trigonometric form', V(h, x, m), ref, 2 * tol, scale=S)
    k = c.do('asfun same type', lambda: funpy.asfun(f, type='trig'), f)
    c.close('asfun of the same type', V(k, x, m), V(f, x, m), 1e-14, scale=S)
    v = np.asfortranarray(F(-1 + 2 * np.arange(n) / n))
    r = c.do('from_values', lambda: Fun.from_values(v, m, type='trig', domain=dom), v)
    c.close('from_values', V(r, x, m), ref, 2e-11, scale=S)
    r = c.do('from_coeffs', lambda: Fun.from_coeffs(a.flatten(order='F'), m, type='trig', domain=dom), a)
    c.close('from_coeffs', V(r, x, m), ref, 2e-11, scale=S)
    for name, fn, val in (('zeros_like', np.zeros_like, 0.0), ('ones_like', np.ones_like, 1.0)):
        z = c.do(name, lambda: fn(f), f)
        c.true(name + ' structure', z.type == 'trig' and z.m == m and np.array_equal(np.array(z.domain, float), np.array(dom, float)))
        c.close(name, V(z, x, m), np.full((len(x), m), val), 1e-13)
    from funpy.fun import plotcoeffs_trig
    if m == 1:
        kk, ac = c.do('coefficients for display', lambda: plotcoeffs_trig(f), f)
        c.close('wave numbers', kk, 2 * np.pi * gen.freqs(n) / (float(dom[-1]) - float(dom[0])), 1e-13)
        c.close('moduli', ac, np.abs(a), 1e-13, scale=S)
    c.seen('convert', n, m)


def transforms(c):
    from funpy.trig.transform import vals2coeffs, coeffs2vals
    from funpy.trig.trigpts import trigpts
    rng = c.rng
    a, cols, sc = setup(c)
    n, m = a.shape
    if rng.random() < 0.2:
        a = np.asfortranarray(a.real + 0j)
    elif rng.random() < 0.2:
        a = np.asfortranarray(1j * a.imag)
    S = size_of(a)
    c.describe('transform n=%d m=%d' % (n, m))
    x, w = c.do('trigpts', lambda: trigpts(n))
    c.close('points', x, -1 + 2 * np.arange(n) / n, 1e-15, scale=4)
    c.close('weights', w, np.full(n, 2 / n), 1e-15, scale=1)
    v = c.do('coeffs2vals', lambda: coeffs2vals(a), a)
    ref = gen.teval(a, -1 + 2 * np.arange(n) / n)
    c.close('values', v.reshape(n, m), ref, 1e-13, scale=S)
    b = c.do('vals2coeffs', lambda: vals2coeffs(v), v)
    c.close('coefficients', b.reshape(n, m), a, 1e-13, scale=S)
    u = rng.standard_normal((n, m)) + (1j * rng.standard_normal((n, m)) if rng.random() < .5 else 0)
    kind = rng.integers(3)
    if kind and n > 1:
        s = np.vstack((u, u[:1]))
        u = (s + (1 if kind == 1 else -1) * np.conj(s[::-1]))[:n]
    d = c.do('vals2coeffs', lambda: vals2coeffs(u), u)
    c.close('interpolation', gen.teval(d.reshape(n, m), -1 + 2 * np.arange(n) / n), u, 1e-12, scale=np.max(np.abs(u)) * np.sqrt(n) + 1e-300)
    c.seen('transforms', n, m, int(kind))


def values_(c):
    from funpy import Fun
    rng = c.rng
    dom = domain(rng)
    a, cols, sc = setup(c)
    n, m = a.shape
    v = np.asfortranarray(gen.teval(a, -1 + 2 * np.arange(n) / n))
    if all(cols) and rng.random() < .7:
        v = v.real.copy(order='F')
    c.describe('values n=%d real=%s' % (n, cols))
    f = c.do('from values', lambda: Fun(values=v, type='trig', domain=dom), v)
    match(c, 'interpolant', f, a, dom, 2e-11)
    c.close('coefficients', np.asarray(f.onefun.coeffs), a, 1e-12, scale=size_of(a))
    if m > 1 or rng.random() < .5:
        g = c.do('from array', lambda: Fun(op=v, type='trig', domain=dom), v)
    else:
        g = c.do('from array', lambda: Fun(op=v[:, 0].copy(), type='trig', domain=dom), v)
    match(c, 'array interpolant', g, a, dom, 2e-11)
    c.seen('values', n, m, tuple(cols))


def prolong(c):
    rng = c.rng
    dom = domain(rng)
    a, cols, sc = setup(c)
    n, m = a.shape
    N = int(n + rng.choice([0, 1, 2, 3, 4, 5, 8, 17, 64]))
    f = gen.tfun(a, dom)
    c.describe('prolong %d to %d real=%s' % (n, N, cols))
    g = c.do('prolong', lambda: f.prolong(N))
    c.true('prolonged length', g.n == N, lambda: '%d, expected %d' % (g.n, N))
    match(c, 'prolonged', g, a, dom, 2e-11)
    pc = c.do('prolong coefficients', lambda: gen.tfun(a, dom).onefun.prolong_coeffs(N))
    c.true('prolonged coefficient length', pc.shape == (N if (N != n + 1 or n % 2) else n + 1, m) or N == n + 1, lambda: str(pc.shape))
    if pc.shape[0] == N:
        match(c, 'prolonged coefficients', gen.tfun(np.asfortranarray(pc), dom), a, dom, 2e-11)
    # truncation drops the highest frequencies only
    M = int(rng.integers(1, n + 1))
    h = c.do('truncate', lambda: gen.tfun(a, dom).prolong(M))
    c.true('truncated length', h.n == M, lambda: '%d, expected %d' % (h.n, M))
    b = full(a)
    L = b.shape[0] // 2
    keep = (M - 1) // 2
    ref = b.copy()
    ref[:L - keep] = 0
    ref[L + keep + 1:] = 0
    x = -1 + 2 * (np.arange(2 * n + 5) / (2 * n + 5))
    xx = float(dom[0]) + (x + 1) / 2 * (float(dom[-1]) - float(dom[0]))
    got = V(h, np.clip(xx, float(dom[0]), float(dom[-1])), m)
    hc = got.T @ np.exp(-1j * np.pi * np.outer(x, np.arange(-keep, keep + 1))) / len(x)
    if M % 2 == 0 and M < n:
        # the highest mode of a real function is a cosine with the real parts of both coefficients
        K = M // 2
        top = got.T @ np.cos(np.pi * K * x) * 2 / len(x)
        for j in range(m):
            if cols[j]:
                c.close('highest mode of a truncation', top[j], np.real(b[L - K, j] + b[L + K, j]), 2e-9, scale=size_of(a))
        pc = c.do('truncate coefficients', lambda: gen.tfun(a, dom).onefun.prolong_coeffs(M))
        c.true('truncated coefficient length', pc.shape == (M, m), lambda: str(pc.shape))
        if pc.shape == (M, m):
            c.close('truncated coefficients', pc[1:], b[L - K + 1:L + K], 2e-11, scale=size_of(a))
            for j in range(m):
                if cols[j]:
                    c.close('highest truncated coefficient', pc[0, j].real, np.real(b[L - K, j] + b[L + K, j]), 2e-11, scale=size_of(a))
    if M % 2 or M == n:
        c.close('truncated', hc.T, ref[L - keep:L + keep + 1], 2e-9, scale=size_of(a)) if M % 2 else None
    else:
        c.close('truncated', hc.T, ref[L - keep:L + keep + 1], 2e-9, scale=size_of(a))
    c.seen('prolong', n, N - n, M, m)


def full(a):
    """Symmetric (odd) coefficient list of the same function."""
    if a.shape[0] % 2:
        return a.copy()
    return np.vstack((0.5 * a[:1], a[1:], 0.5 * a[:1]))


def simplify(c):
    import funpy
    rng = c.rng
    dom = domain(rng)
    n0 = int(rng.choice([1, 2, 3, 5, 8, 9, 15, 20, 31, 40, 64, 90]))
    a, cols, sc = setup(c, n=n0)
    m = a.shape[1]
    pad = int(rng.choice([0, 0, 1, 2, 7, 20, 60]))
    b = full(a)
    b = np.vstack((np.zeros((pad, m)), b, np.zeros((pad, m))))
    if rng.random() < .3 and b.shape[0] > 4:
        lo = b.shape[0]
        b = b[1:]      # an even length whose highest cosine is absent or half
        if pad == 0:
            b[0] = 0
            a = np.vstack((b, np.zeros((1, m))))
    b = np.asfortranarray(b)
    ref = b.copy()
    c.describe('simplify %d padded to %d real=%s scale %g' % (n0, b.shape[0], cols, sc))
    f = gen.tfun(b, dom)
    g = c.do('simplify', lambda: f.simplify())
    match(c, 'simplified', g, ref, dom, 2e-9)
    c.true('not longer', g.n <= b.shape[0] + 2, lambda: '%d from %d' % (g.n, b.shape[0]))
    if pad >= 20:
        c.true('padding removed', g.n <= n0 + 12 + n0 // 2, lambda: '%d, resolved by %d' % (g.n, n0))
    c.seen('simplify', n0, pad, m, tuple(cols))


GROUPS = {'long': (long_, 300, 3000), 'callable': (callable_, 2000, 24000), 'evaluation': (evaluation, 2400, 32000), 'transforms': (transforms, 2400, 28000),
          'values': (values_, 1600, 20000), 'prolong': (prolong, 2000, 28000), 'convert': (convert, 500, 6000), 'simplify': (simplify, 2000, 24000)}
