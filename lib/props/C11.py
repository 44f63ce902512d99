"""Pointwise arithmetic on trigonometric functions."""
import operator
import numpy as np
import gen
from gen import V, inside, domain
from props.C10 import setup, size_of, tsize, full

RULE = ('pairs of trigonometric functions (odd and even lengths 1..600, real, complex and mixed columns, equal, conjugate, '
        'constant, cancelling) on random domains; every operation in operator, reflected, function and in-place form, with '
        'real and complex numbers; the result is judged against the operation on values; distinct by operation, parity, '
        'columns and realness')
ASSUMPTIONS = ['the library resolves periodic functions to 1e-10 of their size; oracles allow 2e-9 for functions of functions, 2e-11 for sums and products']


def pair(c, big=True):
    rng = c.rng
    dom = domain(rng)
    n1 = tsize(rng)
    n2 = n1 if rng.random() < .3 else tsize(rng)
    if not big:
        n1, n2 = min(n1, 129), min(n2, 129)
    a, ca, sa = setup(c, n=n1)
    m = a.shape[1]
    u = rng.random()
    if u < .08:
        b, cb = a.copy(order='F'), ca
    elif u < .14:
        b, cb = np.asfortranarray(-a), ca
    elif u < .2 and n1 % 2:
        b, cb = np.asfortranarray(np.conj(a[::-1])), ca
    else:
        b, cb, _ = setup(c, m=m, n=n2, near=sa)
    return dom, a, b, ca, cb


def pts(c, dom, k=13):
    x = inside(c.rng, dom, k)
    return x, gen.to_ref(dom, x)


def binary(c):
    rng = c.rng
    dom, a, b, ca, cb = pair(c)
    m = a.shape[1]
    f, g = gen.tfun(a, dom), gen.tfun(b, dom)
    x, t = pts(c, dom)
    F, G = gen.teval(a, t), gen.teval(b, t)
    sa, sb = size_of(a), size_of(b)
    c.describe('n=%d,%d real=%s,%s on %s' % (a.shape[0], b.shape[0], ca, cb, list(dom)))
    use = c.do('function form' if rng.random() < 0 else 'add', lambda: f + g if rng.random() < .5 else np.add(f, g), f, g)
    c.close('add', V(use, x, m), F + G, 2e-11, scale=sa + sb)
    s = c.do('subtract', lambda: f - g if rng.random() < .5 else np.subtract(f, g), f, g)
    c.close('subtract', V(s, x, m), F - G, 2e-11, scale=sa + sb)
    p = c.do('multiply', lambda: f * g if rng.random() < .5 else np.multiply(f, g), f, g)
    c.close('multiply', V(p, x, m), F * G, 2e-11, scale=sa * sb)
    q = c.do('multiply', lambda: g * f, f, g)
    c.close('commutes', V(q, x, m), F * G, 2e-11, scale=sa * sb)
    sq = c.do('square', lambda: f * f, f)
    c.close('square', V(sq, x, m), F * F, 2e-11, scale=sa * sa)
    c.close('add is kept', V(use, x, m), F + G, 2e-11, scale=sa + sb)
    c.true('kept columns', p.m == m and use.m == m and p.type == 'trig')
    c.seen('binary', a.shape[0] % 2, b.shape[0] % 2, m, tuple(ca), tuple(cb), min(a.shape[0], 40), min(b.shape[0], 40))


def broadcast(c):
    """One column times many."""
    rng = c.rng
    dom = domain(rng)
    a, ca, sa = setup(c, m=1)
    b, cb, _ = setup(c, m=int(rng.integers(2, 5)), near=sa)
    m = b.shape[1]
    f, g = gen.tfun(a, dom), gen.tfun(b, dom)
    x, t = pts(c, dom)
    F, G = gen.teval(a, t), gen.teval(b, t)
    c.describe('broadcast n=%d,%d real=%s,%s' % (a.shape[0], b.shape[0], ca, cb))
    if a.shape[0] > 1 and b.shape[0] > 1:
        p = c.do('multiply', lambda: f * g, f, g)
        c.close('broadcast multiply', V(p, x, m), F * G, 2e-11, scale=size_of(a) * size_of(b))
    k = rng.standard_normal((1, m))
    if rng.random() < .4:
        k = k + 1j * rng.standard_normal((1, m)) * (rng.random((1, m)) < .5)
    k = k * size_of(b)
    p = c.do('multiply by row', lambda: g * k, g, k)
    c.close('row multiply', V(p, x, m), G * k, 2e-11, scale=size_of(b) * np.max(np.abs(k)))
    s = c.do('add row', lambda: g + k, g, k)
    c.close('row add', V(s, x, m), G + k, 2e-11, scale=size_of(b) + np.max(np.abs(k)))
    s = c.do('subtract row', lambda: g - k, g, k)
    c.close('row subtract', V(s, x, m), G - k, 2e-11, scale=size_of(b) + np.max(np.abs(k)))
    h = gen.tfun(b, dom)
    h += k
    c.close('in-place row add', V(h, x, m), G + k, 2e-11, scale=size_of(b) + np.max(np.abs(k)))
    h = gen.tfun(b, dom)
    h *= k
    c.close('in-place row multiply', V(h, x, m), G * k, 2e-11, scale=size_of(b) * np.max(np.abs(k)))
    c.close('coefficients and values agree', h.onefun.values, gen.teval(np.asarray(h.onefun.coeffs), -1 + 2 * np.arange(h.n) / h.n), 2e-11, scale=size_of(b) * np.max(np.abs(k)))
    # remove the means, one number for each column
    e = c.do('subtract means', lambda: g - np.sum(g) / (dom[1] - dom[0]), g)
    c.close('means removed', V(e, x, m), G - np.ravel(np.sum(g)) / (dom[1] - dom[0]), 2e-11, scale=size_of(b) * 2)
    c.close('zero mean', np.ravel(np.sum(e)) / (dom[1] - dom[0]), np.zeros(m), 2e-11, scale=size_of(b) * 2)
    e = c.do('subtract mean', lambda: f - np.sum(f) / (dom[1] - dom[0]), f)
    c.close('mean removed', V(e, x, 1), F - np.ravel(np.sum(f)) / (dom[1] - dom[0]), 2e-11, scale=size_of(a) * 2)
    c.seen('broadcast', a.shape[0], b.shape[0], m, tuple(cb), tuple(np.iscomplex(k[0])))


def scalar(c):
    rng = c.rng
    dom = domain(rng)
    a, ca, _ = setup(c)
    m = a.shape[1]
    f = gen.tfun(a, dom)
    x, t = pts(c, dom)
    F = gen.teval(a, t)
    S = size_of(a)
    k = float(rng.standard_normal() * 10.0 ** rng.integers(-2, 3)) * S
    if rng.random() < .2:
        k = float(rng.choice([0.0, 1.0, -1.0, 2.0])) * (1 if S > 1e-2 else S)
    z = complex(k, float(rng.standard_normal()) * S) if rng.random() < .4 else k
    c.describe('scalar %s n=%d real=%s' % (z, a.shape[0], ca))
    R = S + abs(z)
    for name, op, ref, sc in (('f+k', lambda: f + z, F + z, R), ('k+f', lambda: z + f, z + F, R), ('f-k', lambda: f - z, F - z, R),
                              ('k-f', lambda: z - f, z - F, R), ('f*k', lambda: f * z, F * z, S * abs(z)),
                              ('k*f', lambda: z * f, F * z, S * abs(z)), ('-f', lambda: -f, -F, S), ('+f', lambda: +f, F, S),
                              ('np.add', lambda: np.add(f, z), F + z, R), ('np.negative', lambda: np.negative(f), -F, S)):
        r = c.do(name, op, f)
        c.close(name, V(r, x, m), ref, 2e-11, scale=sc)
    if abs(z) > 1e-3 * S and abs(z) > 1e-12:
        r = c.do('f/k', lambda: f / z, f)
        c.close('f/k', V(r, x, m), F / z, 2e-11, scale=S / abs(z))
    for name, op, ref in (('real', lambda: np.real(f), F.real), ('imag', lambda: np.imag(f), F.imag), ('conj', lambda: np.conj(f), F.conj())):
        r = c.do(name, op, f)
        c.close(name, V(r, x, m), ref, 2e-11, scale=S)
    c.seen('scalar', a.shape[0], m, tuple(ca), np.iscomplexobj(z), z == 0)


IN = [('+=', operator.iadd, operator.add), ('-=', operator.isub, operator.sub), ('*=', operator.imul, operator.mul)]


def inplace(c):
    rng = c.rng
    dom, a, b, ca, cb = pair(c)
    m = a.shape[1]
    x, t = pts(c, dom)
    F, G = gen.teval(a, t), gen.teval(b, t)
    sa, sb = size_of(a), size_of(b)
    c.describe('in place n=%d,%d real=%s,%s' % (a.shape[0], b.shape[0], ca, cb))
    for name, iop, op in IN:
        f, g = gen.tfun(a, dom), gen.tfun(b, dom)
        other = f[0] if m == 1 else None
        r = c.do('f %s g' % name, lambda: iop(f, g), g)
        s2 = sa * sb if name == '*=' else sa + sb
        c.close('f %s g' % name, V(r, x, m), op(F, G), 2e-11, scale=s2)
        c.close('coefficients and values agree', r.onefun.values, gen.teval(np.asarray(r.onefun.coeffs), -1 + 2 * np.arange(r.n) / r.n), 2e-11, scale=s2)
        w = c.do('use result', lambda: r + s2, r)
        c.close('result of %s used' % name, V(w, x, m), op(F, G) + s2, 2e-11, scale=2 * s2)
        # an equal or conjugate partner
        f, e = gen.tfun(a, dom), gen.tfun(a, dom)
        if rng.random() < .5:
            e = np.conj(e)
        E = V(e, x, m)
        r = c.do('f %s partner' % name, lambda: iop(f, e), e)
        s2 = sa * sa if name == '*=' else 2 * sa
        c.close('f %s partner' % name, V(r, x, m), op(F, E), 2e-11, scale=s2)
        v = V(r, x, m)
        b2 = b * (s2 / sb)
        r = c.do('then +=', lambda: operator.iadd(r, gen.tfun(b2, dom)))
        c.close('then +=', V(r, x, m), v + G * (s2 / sb), 2e-11, scale=2 * s2)
    k = float(rng.standard_normal()) * sa
    for name, iop, op in IN:
        f = gen.tfun(a, dom)
        r = c.do('f %s k' % name, lambda: iop(f, k))
        c.close('f %s k' % name, V(r, x, m), op(F, k), 2e-11, scale=sa * abs(k) if name == '*=' else sa + abs(k))
    if abs(k) > 1e-2 * sa and abs(k) > 1e-15:
        f = gen.tfun(a, dom)
        r = c.do('f /= k', lambda: operator.itruediv(f, k))
        c.close('f /= k', V(r, x, m), F / k, 2e-11, scale=sa / abs(k))
    c.seen('inplace', a.shape[0] % 2, b.shape[0] % 2, m, tuple(ca), tuple(cb))


def functions(c):
    """Elementary functions, quotients and powers of functions of moderate size."""
    rng = c.rng
    dom = domain(rng)
    n1, n2 = int(rng.integers(1, 16)), int(rng.integers(1, 16))
    a, ca, _ = setup(c, n=n1)
    m = a.shape[1]
    b, cb, _ = setup(c, m=m, n=n2)
    a, b = np.asfortranarray(a / size_of(a)), np.asfortranarray(b / size_of(b))
    f, g = gen.tfun(a, dom), gen.tfun(b, dom)
    x, t = pts(c, dom)
    F, G = gen.teval(a, t), gen.teval(b, t)
    c.describe('functions n=%d,%d real=%s,%s' % (n1, n2, ca, cb))
    for name in rng.choice(['exp', 'sin', 'cos', 'tanh', 'sinh', 'cosh', 'arctan'], 3, replace=False):
        u = getattr(np, name)
        if name in ('tanh', 'arctan') and not all(ca):
            continue
        k = 1.0
        r = c.do(name, lambda: u(f), f)
        c.close(name, V(r, x, m), u(F), 2e-9, scale=3)
    d = c.do('shift denominators', lambda: g * np.conj(g) + 1.5, g)
    D = np.abs(G) ** 2 + 1.5
    r = c.do('quotient', lambda: f / d, f, d)
    c.close('quotient', V(r, x, m), F / D, 2e-9, scale=1)
    e = c.do('shift denominators', lambda: g + 2.5, g)
    r = c.do('complex quotient', lambda: f / e, f, e)
    c.close('complex quotient', V(r, x, m), F / (G + 2.5), 2e-9, scale=1)
    fi = gen.tfun(a, dom)
    r = c.do('f /= g', lambda: operator.itruediv(fi, e), e)
    c.close('f /= g', V(r, x, m), F / (G + 2.5), 2e-9, scale=1)
    r = c.do('use quotient', lambda: r * e, r, e)
    c.close('f /= g, times g', V(r, x, m), F, 5e-9, scale=1)
    k = float(rng.uniform(.5, 3)) * rng.choice([-1, 1])
    r = c.do('reciprocal', lambda: k / d, d)
    c.close('reciprocal', V(r, x, m), k / D, 2e-9, scale=2)
    if all(ca):
        r = c.do('sqrt', lambda: np.sqrt(d), d)
        c.close('sqrt', V(r, x, m), np.sqrt(D), 2e-9, scale=2)
        r = c.do('log', lambda: np.log(d), d)
        c.close('log', V(r, x, m), np.log(D), 2e-9, scale=2)
        for q in (1.5, float(rng.uniform(-3, -.1)), float(rng.uniform(.1, 3.5)), -int(rng.integers(1, 4))):
            r = c.do('fractional power', lambda: d ** q, d)
            c.close('fractional power', V(r, x, m), D ** q, 2e-9, scale=max(1, 2.5 ** q))
    if all(ca) and all(cb):
        for name, u in (('arctan2', np.arctan2), ('hypot', np.hypot), ('logaddexp', np.logaddexp)):
            r = c.do(name, lambda: u(f, d), f, d)
            c.close(name, V(r, x, m), u(F.real, D), 2e-9, scale=3)
    p = int(rng.integers(0, 5))
    r = c.do('power', lambda: f ** p, f)
    c.close('power', V(r, x, m), F ** p, 2e-9, scale=1)
    r = c.do('exponential', lambda: 2.0 ** f, f)
    c.close('exponential', V(r, x, m), 2.0 ** F, 2e-9, scale=2)
    c.seen('functions', n1, n2, m, tuple(ca), tuple(cb), p)


def laws(c):
    rng = c.rng
    dom, a, b, ca, cb = pair(c, big=False)
    m = a.shape[1]
    a, b = np.asfortranarray(a / size_of(a)), np.asfortranarray(b / size_of(b))
    d, cd, _ = setup(c, m=m, n=int(rng.integers(1, 60)))
    d = np.asfortranarray(d / size_of(d))
    f, g, h = gen.tfun(a, dom), gen.tfun(b, dom), gen.tfun(d, dom)
    x, t = pts(c, dom)
    c.describe('laws n=%d,%d,%d real=%s,%s,%s' % (a.shape[0], b.shape[0], d.shape[0], ca, cb, cd))
    for name, l, r, s in (('distributive', lambda: f * (g + h), lambda: f * g + f * h, 2),
                          ('associative', lambda: (f * g) * h, lambda: f * (g * h), 1),
                          ('difference of squares', lambda: (f + g) * (f - g), lambda: f * f - g * g, 4),
                          ('cancel', lambda: (f + g) - g, lambda: f, 3),
                          ('modulus', lambda: f * np.conj(f), lambda: np.real(f) * np.real(f) + np.imag(f) * np.imag(f), 2)):
        L = c.do(name, l, f, g, h)
        R = c.do(name, r, f, g, h)
        c.close(name, V(L, x, m), V(R, x, m), 2e-11, scale=s)
    c.seen('laws', a.shape[0] % 2, b.shape[0] % 2, d.shape[0] % 2, m, tuple(ca), tuple(cb))


def mixed(c):
    """A trigonometric and a Chebyshev function that is periodic: the result is the trigonometric function of the pointwise operation."""
    import funpy as fp
    rng = c.rng
    dom = domain(rng)
    a, ca, _ = setup(c, m=int(rng.choice([1, 1, 2])), n=int(rng.integers(1, 20)) * 2 + 1, kinds=(True,))
    m = a.shape[1]
    b = np.hstack([gen.tcoeffs(rng, int(rng.integers(1, 12)) * 2 + 1, 1, real=True) for _ in range(1)] * m)
    b = b * rng.uniform(.5, 1.5, m)
    a, b = np.asfortranarray(a / size_of(a)), np.asfortranarray(b / size_of(b))
    mid, h = (dom[0] + dom[-1]) / 2, (dom[-1] - dom[0]) / 2
    f = gen.tfun(a, dom)
    g = c.do('periodic chebfun', lambda: fp.Fun(op=[(lambda x, k=k: np.real(gen.teval(b, np.atleast_1d((x - mid) / h))[:, k]).reshape(np.shape(x))) for k in range(m)], domain=dom))
    x, t = pts(c, dom)
    F, G = np.real(gen.teval(a, t)), np.real(gen.teval(b, t))
    c.describe('mixed n=%d,%d m=%d' % (a.shape[0], b.shape[0], m))
    for name, op, iop in (('+', operator.add, operator.iadd), ('-', operator.sub, operator.isub), ('*', operator.mul, operator.imul)):
        r = c.do('trig %s cheb' % name, lambda: op(f, g), f, g)
        c.close('trig %s cheb' % name, V(r, x, m), op(F, G), 5e-10, scale=2)
        c.true('mixed result is trigonometric', r.type == 'trig', lambda: r.type)
        r = c.do('cheb %s trig' % name, lambda: op(g, f), f, g)
        c.close('cheb %s trig' % name, V(r, x, m), op(G, F), 5e-10, scale=2)
        h1 = gen.tfun(a, dom)
        r = c.do('trig %s= cheb' % name, lambda: iop(h1, g), g)
        c.close('trig %s= cheb' % name, V(r, x, m), op(F, G), 5e-10, scale=2)
        import copy
        h2 = copy.deepcopy(g)
        r = c.do('cheb %s= trig' % name, lambda: iop(h2, f), f)
        c.close('cheb %s= trig' % name, V(r, x, m), op(G, F), 5e-10, scale=2)
    c.seen('mixed', a.shape[0], b.shape[0], m)


GROUPS = {'mixed': (mixed, 120, 2100), 'binary': (binary, 1400, 27000), 'broadcast': (broadcast, 400, 7500), 'scalar': (scalar, 1000, 18000),
          'inplace': (inplace, 800, 15000), 'functions': (functions, 800, 12000), 'laws': (laws, 600, 10500)}
