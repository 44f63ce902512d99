"""Pointwise arithmetic on Chebyshev functions."""
import operator
import numpy as np
import gen
from gen import V, inside, domain

RULE = ('random pairs of functions (1..600 coefficients each, independently sized, 1..7 columns, scales to 1e+-30, even/odd/'
        'sparse/constant/proportional/cancelling) on random domains; every operator in function form, operator form, reflected '
        'and in place, with numbers and row vectors, and compositions; the result is judged against the same operation on values '
        'at random points and both ends; distinct by operation, columns and size classes of both operands')


def pair(c, big=0.03, scale=True):
    rng = c.rng
    dom = domain(rng)
    m = gen.cols(rng)
    n1, n2 = gen.size(rng, big), gen.size(rng, big)
    if rng.random() < .15:
        n2 = n1
    s1 = float(10.0 ** rng.choice([0, 0, 0, 0, -30, -8, 8, 30])) if scale else 1.0
    s2 = float(10.0 ** rng.choice([0, 0, 0, 0, -30, -8, 8, 30])) if scale else 1.0
    a, b = gen.coeffs(rng, n1, m, scale=s1), gen.coeffs(rng, n2, m, scale=s2)
    u = rng.random()
    if u < .06:
        b = np.asfortranarray(a * float(rng.choice([1, -1, 2])))
    elif u < .1:
        b = np.asfortranarray(-a)
        b[0] += s1
    elif u < .13 and n1 > 3:
        b = a.copy(order='F')
        b[:2] += s1
        b[2:] *= -1           # most of the sum cancels
    c.describe('n=%d,%d m=%d scales %g,%g on %s' % (a.shape[0], b.shape[0], m, s1, s2, list(dom)))
    x = inside(rng, dom)
    return dom, m, a, b, x


def chop(*cs):
    """Relative size of what chopping a product of these may drop: long algebraic tails are cut at eps^(2/3)."""
    return 1e-13 if sum(q.shape[0] for q in cs) < 100 else 2e-9


def cls(n):
    return int(np.ceil(np.log2(n))) if n > 1 else 0


def binary(c):
    rng = c.rng
    dom, m, a, b, x = pair(c)
    f, g = gen.fun(a, dom), gen.fun(b, dom)
    t = gen.to_ref(dom, x)
    F, G = gen.ceval(a, t), gen.ceval(b, t)
    sa, sb = np.max(np.sum(np.abs(a), axis=0)), np.max(np.sum(np.abs(b), axis=0))
    la, lb = gen.argtol(a, dom), gen.argtol(b, dom)
    sA, sB = np.sum(np.abs(a), axis=0), np.sum(np.abs(b), axis=0)
    for name, op, R, tol in (('add', operator.add, F + G, 3e-14 * (sa + sb) + la + lb),
                             ('subtract', operator.sub, F - G, 3e-14 * (sa + sb) + la + lb),
                             ('multiply', operator.mul, F * G, chop(a, b) * sa * sb + la * sb + lb * sa)):
        form = int(rng.integers(3))
        ufun = {'add': np.add, 'subtract': np.subtract, 'multiply': np.multiply}[name]
        if form == 0:
            r = c.do(name, lambda: op(f, g), f, g)
        elif form == 1:
            r = c.do(name, lambda: ufun(f, g), f, g)
        else:
            r = c.do(name, lambda: op(f, g), f, g)
            r2 = c.do(name, lambda: op(g, f), f, g)
            c.close(name + ' swapped', V(r2, x, m), -R if name == 'subtract' else R, 1, scale=tol)
        c.close(name, V(r, x, m), R, 1, scale=tol)
        c.true('domain of a result', np.array_equal(np.asarray(r.domain, float), np.asarray(dom, float)) and r.m == m and r.type == 'cheb')
    q = c.do('square', lambda: f * f, f)
    c.close('square', V(q, x, m), F * F, 1, scale=chop(a, a) * sa * sa + 2 * la * sa)
    z = c.do('f - f', lambda: f - f, f)
    c.close('f - f', V(z, x, m), 0 * F, 1, scale=1e-14 * sa)
    d = c.do('f + f', lambda: f + f, f)
    c.close('f + f', V(d, x, m), 2 * F, 1, scale=3e-14 * sa + 2 * la)
    n = c.do('negative', lambda: -f, f)
    c.close('negative', V(n, x, m), -F, 1, scale=1e-14 * sa * np.sqrt(a.shape[0]) + la)
    p = c.do('positive', lambda: +f, f)
    c.close('positive', V(p, x, m), F, 1, scale=1e-14 * sa * np.sqrt(a.shape[0]) + la)
    c.seen('binary', m, cls(a.shape[0]), cls(b.shape[0]))


def scalar(c):
    rng = c.rng
    dom, m, a, b, x = pair(c)
    f = gen.fun(a, dom)
    t = gen.to_ref(dom, x)
    F = gen.ceval(a, t)
    sa = np.max(np.sum(np.abs(a), axis=0))
    la = gen.argtol(a, dom)
    k = float(rng.choice([2, -1, 0.5, 3, 0, 1, 1e-3, 7.25, -4]))
    kk = [k, np.float64(k), int(k) if k == int(k) else k][int(rng.integers(3))]
    tol = 3e-14 * (sa + abs(k)) * (1 + abs(k)) + la * (1 + abs(k))
    for name, fn, R in (('f + number', lambda: f + kk, F + k), ('number + f', lambda: kk + f, F + k),
                        ('f - number', lambda: f - kk, F - k), ('number - f', lambda: kk - f, k - F),
                        ('f * number', lambda: f * kk, F * k), ('number * f', lambda: kk * f, F * k)):
        r = c.do(name, fn, f)
        c.close(name, V(r, x, m), R, 1, scale=tol)
    if k:
        r = c.do('f / number', lambda: f / kk, f)
        c.close('f / number', V(r, x, m), F / k, 1, scale=3e-14 * sa / abs(k) + la / abs(k))
    # one number per column
    row = rng.uniform(0.5, 2, m) * rng.choice([-1, 1], m)
    tolr = 3e-14 * (sa + 2) * 3 + 3 * la
    r = c.do('f + row', lambda: f + row, f, row)
    c.close('f + row', V(r, x, m), F + row, 1, scale=tolr)
    r = c.do('f - row', lambda: f - row, f, row)
    c.close('f - row', V(r, x, m), F - row, 1, scale=tolr)
    row2 = row[None, :]
    r = c.do('f * row', lambda: f * row2, f, row2)
    c.close('f * row', V(r, x, m), F * row, 1, scale=tolr)
    r = c.do('f / row', lambda: f / row, f, row)
    c.close('f / row', V(r, x, m), F / row, 1, scale=tolr)
    if m > 1:
        # a constant function with one value per column
        k2 = gen.fun(row2, dom)
        r = c.do('f * constant function', lambda: f * k2, f, k2)
        c.close('f * constant function', V(r, x, m), F * row, 1, scale=tolr)
        r = c.do('constant function * f', lambda: k2 * f, f, k2)
        c.close('constant function * f', V(r, x, m), F * row, 1, scale=tolr)
    c.seen('scalar', m, cls(a.shape[0]), k)


def inplace(c):
    rng = c.rng
    dom, m, a, b, x = pair(c, scale=False)
    t = gen.to_ref(dom, x)
    F, G = gen.ceval(a, t), gen.ceval(b, t)
    sa, sb = np.max(np.sum(np.abs(a), axis=0)), np.max(np.sum(np.abs(b), axis=0))
    la, lb = gen.argtol(a, dom), gen.argtol(b, dom)
    k = float(rng.choice([2, -1, 0.5, 3, 1e-3, 7.25]))

    def run(label, op, other, R, tol):
        f = gen.fun(a, dom)
        g = f
        keep = f + 0.0
        ops = (other,) if other is not None else ()
        def go():
            nonlocal f
            f = op(f)
            return f
        c.do(label, go, *ops)
        c.close(label, V(f, x, m), R, 1, scale=tol)
        c.true('in place keeps the object', f is g, label)
        c.close('earlier results untouched', V(keep, x, m), F, 1, scale=1e-13 * (sa + 1) + la)
        # still a usable function
        h = c.do('reuse after in place', lambda: f * 2.0 - f, f)
        c.close('reuse after in place', V(h, x, m), R, 1, scale=3 * tol + 1e-13 * np.max(np.abs(R)))
    g = gen.fun(b, dom)
    run('f += g', lambda f: operator.iadd(f, g), g, F + G, 5e-14 * (sa + sb) + la + lb)
    run('f -= g', lambda f: operator.isub(f, g), g, F - G, 5e-14 * (sa + sb) + la + lb)
    run('f *= g', lambda f: operator.imul(f, g), g, F * G, chop(a, b) * sa * sb + la * sb + lb * sa)
    run('f += number', lambda f: operator.iadd(f, k), None, F + k, 5e-14 * (sa + 8) + la)
    run('f -= number', lambda f: operator.isub(f, k), None, F - k, 5e-14 * (sa + 8) + la)
    run('f *= number', lambda f: operator.imul(f, k), None, F * k, 5e-14 * sa * 8 + 8 * la)
    run('f /= number', lambda f: operator.itruediv(f, k), None, F / k, 5e-14 * sa / k + la / k if k > 0 else 5e-14 * sa / abs(k) + la / abs(k))
    run('f += f', lambda f: operator.iadd(f, f), None, F + F, 5e-14 * (2 * sa) + 2 * la)
    run('f *= f', lambda f: operator.imul(f, f), None, F * F, chop(a, a) * sa * sa + 2 * la * sa)
    row = rng.uniform(0.5, 2, m) * rng.choice([-1, 1], m)
    row2 = row[None, :]
    run('f += row', lambda f: operator.iadd(f, row), None, F + row, 5e-14 * (sa + 8) + la)
    run('f -= row', lambda f: operator.isub(f, row), None, F - row, 5e-14 * (sa + 8) + la)
    run('f *= row', lambda f: operator.imul(f, row2), None, F * row, 5e-14 * sa * 8 + 8 * la)
    run('f /= row', lambda f: operator.itruediv(f, row), None, F / row, 5e-14 * sa * 8 + 8 * la)
    c.seen('inplace', m, cls(a.shape[0]), cls(b.shape[0]))


FUNS = {
    'exp': (np.exp, 1.0, None), 'sin': (np.sin, 2.0, None), 'cos': (np.cos, 2.0, None), 'tanh': (np.tanh, 1.0, None),
    'sqrt': (np.sqrt, 1.0, 2.0), 'log': (np.log, 1.0, 2.0), 'absolute': (np.abs, 1.0, 2.0), 'cosh': (np.cosh, 1.0, None),
    'arctan': (np.arctan, 1.0, None), 'square': (np.square, 1.0, None), 'expm1': (np.expm1, 1.0, None),
    'sinh': (np.sinh, 1.0, None), 'log1p': (np.log1p, 1.0, 2.0), 'reciprocal': (np.reciprocal, 1.0, 2.0),
}


def compose(c):
    """Functions of functions, quotients and powers, with the argument normalised to moderate size."""
    rng = c.rng
    dom, m = domain(rng), int(rng.choice([1, 1, 2, 3]))
    n = int(rng.integers(1, 60)) if rng.random() < .9 else int(rng.integers(60, 260))
    a = gen.coeffs(rng, n, m)
    a = np.asfortranarray(a / np.maximum(np.sum(np.abs(a), axis=0), 1e-12))     # |f| <= 1
    x = inside(rng, dom)
    t = gen.to_ref(dom, x)
    la = gen.argtol(a, dom)
    if rng.random() < .12:              # one oscillation: the usual first grids see a constant
        n = 1 + int(rng.choice([8, 16, 32, 48, 64, 96, 128, 30, 100]))
        a = np.zeros((n, m))
        a[-1] = rng.choice([-.6, .6], m)
        a[0] = rng.uniform(-.3, .3, m)
        la = gen.argtol(a, dom)
    name = list(FUNS)[int(rng.integers(len(FUNS)))]
    fn, sc, shift = FUNS[name]
    b = a * sc
    if shift:
        b[0] += shift
        if name == 'absolute' and rng.random() < .5:
            b = -b
    b = np.asfortranarray(b)
    f = gen.fun(b, dom)
    F = gen.ceval(b, t)
    c.describe('%s of n=%d m=%d on %s' % (name, n, m, list(dom)))
    r = c.do(name, lambda: fn(f), f)
    c.close(name, V(r, x, m), fn(F), 1, scale=(5e-11 if n < 50 else 2e-9) * max(1, np.max(np.abs(fn(F)))) + 5 * la * max(sc, 1))
    c.seen('compose', name, m, cls(n))


def composition(c):
    """The library's own composition, with formulas of one and two functions."""
    from funpy.fun import compose as comp
    rng = c.rng
    dom, m = domain(rng), int(rng.choice([1, 1, 2, 3]))
    n1, n2 = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    a, b = gen.coeffs(rng, n1, m), gen.coeffs(rng, n2, m)
    a, b = (np.asfortranarray(q / np.maximum(np.sum(np.abs(q), axis=0), 1e-12)) for q in (a, b))
    f, g = gen.fun(a, dom), gen.fun(b, dom)
    x = inside(rng, dom)
    t = gen.to_ref(dom, x)
    F, G = gen.ceval(a, t), gen.ceval(b, t)
    ty = [None, 'cheb'][int(rng.integers(2))]
    c.describe('compositions n=%d,%d m=%d on %s' % (n1, n2, m, list(dom)))
    tol = (5e-11 if n1 + n2 < 50 else 2e-9) * 4 + 5 * (gen.argtol(a, dom) + gen.argtol(b, dom))
    r = c.do('compose', lambda: comp(f, lambda u: np.exp(u) - u, ftype=ty), f)
    c.close('compose', V(r, x, m), np.exp(F) - F, 1, scale=tol)
    c.true('domain of a composition', np.array_equal(np.asarray(r.domain, float), np.asarray(dom, float)) and r.m == m and r.type == 'cheb')
    r = c.do('compose two', lambda: comp(f, lambda u, v: np.sin(u) * v - 2 * v, g, ftype=ty), f, g)
    c.close('compose two', V(r, x, m), np.sin(F) * G - 2 * G, 1, scale=tol)
    if m == 1:
        # functions with kinks are only resolved roughly
        if n1 < 12:
            r = c.do('modulus with kinks', lambda: abs(f), f)
            c.close('modulus with kinks', V(r, x, m), np.abs(F), 1, scale=.05)
            r = c.do('maximum', lambda: np.maximum(f, g), f, g)
            c.close('maximum', V(r, x, m), np.maximum(F, G), 1, scale=.05)
        # the same function periodic
        L = float(dom[-1]) - float(dom[0])
        k = int(rng.integers(1, 9))
        w = gen.tfun(gen.tcoeffs(rng, 2 * k + 1, 1) / (2 * k + 1), dom)
        W = V(w, x, 1).real
        r = c.do('compose periodic', lambda: comp(w, lambda u: np.exp(u), ftype=[None, 'trig'][int(rng.integers(2))]), w)
        c.close('compose periodic', V(r, x, 1), np.exp(W), 1, scale=1e-7 * np.max(np.abs(np.exp(W))) + 20 * tol)
        c.true('kind of a composition', r.type == 'trig' and np.array_equal(np.asarray(r.domain, float), np.asarray(dom, float)))
    c.seen('composition', m, cls(n1), cls(n2))


def quotient(c):
    rng = c.rng
    dom, m = domain(rng), int(rng.choice([1, 1, 2, 3]))
    n1, n2 = (int(rng.integers(1, 70)) for _ in range(2))
    a, b = gen.coeffs(rng, n1, m), gen.coeffs(rng, n2, m)
    b = b / np.maximum(np.sum(np.abs(b), axis=0), 1e-12)
    b[0] += float(rng.choice([1.5, -1.5, 3.0]))
    b = np.asfortranarray(b)
    x = inside(rng, dom)
    t = gen.to_ref(dom, x)
    F, G = gen.ceval(a, t), gen.ceval(b, t)
    f, g = gen.fun(a, dom), gen.fun(b, dom)
    sa = max(1, np.max(np.sum(np.abs(a), axis=0)))
    la, lb = gen.argtol(a, dom), gen.argtol(b, dom)
    tol = (5e-11 if n1 + n2 < 60 else 2e-9) * sa + 4 * la + 8 * lb * sa
    c.describe('quotients n=%d,%d m=%d on %s' % (n1, n2, m, list(dom)))
    k = float(rng.choice([1, -2, 0.25, 5]))
    c.close('number / f', V(c.do('number / f', lambda: k / g, g), x, m), k / G, 1, scale=(tol + 2e-11) * abs(k) + 8 * lb * abs(k))
    c.close('f / g', V(c.do('f / g', lambda: f / g, f, g), x, m), F / G, 1, scale=tol)
    c.close('g / g', V(c.do('g / g', lambda: g / g, g), x, m), np.ones_like(G), 1, scale=1e-11)
    h = gen.fun(a, dom)
    def div():
        nonlocal h
        h /= g
        return h
    keep = h
    c.do('f /= g', div, g)
    c.close('f /= g', V(h, x, m), F / G, 1, scale=tol)
    c.true('in place keeps the object', h is keep)
    c.seen('quotient', m, cls(n1), cls(n2))


TWO = {'arctan2': np.arctan2, 'hypot': np.hypot, 'logaddexp': np.logaddexp}


def two(c):
    """Functions of two functions, the order of the arguments included."""
    rng = c.rng
    dom, m = domain(rng), int(rng.choice([1, 1, 2, 3]))
    n1, n2 = int(rng.integers(1, 40)), int(rng.integers(1, 40))
    a, b = gen.coeffs(rng, n1, m), gen.coeffs(rng, n2, m)
    a, b = (q / np.maximum(np.sum(np.abs(q), axis=0), 1e-12) for q in (a, b))
    b[0] += 2.5
    a, b = np.asfortranarray(a), np.asfortranarray(b)
    f, g = gen.fun(a, dom), gen.fun(b, dom)
    x = inside(rng, dom)
    t = gen.to_ref(dom, x)
    F, G = gen.ceval(a, t), gen.ceval(b, t)
    c.describe('functions of two functions n=%d,%d m=%d on %s' % (n1, n2, m, list(dom)))
    tol = (5e-11 if n1 + n2 < 50 else 2e-9) * 4 + 5 * (gen.argtol(a, dom) + gen.argtol(b, dom))
    for name, fn in TWO.items():
        r = c.do(name, lambda: fn(f, g), f, g)
        c.close(name, V(r, x, m), fn(F, G), 1, scale=tol)
        if name != 'arctan2':
            r = c.do(name + ' reversed', lambda: fn(g, f), f, g)
            c.close(name + ' reversed', V(r, x, m), fn(G, F), 1, scale=tol)
    c.seen('two', m, cls(n1), cls(n2))


def power(c):
    rng = c.rng
    dom, m = domain(rng), int(rng.choice([1, 1, 2, 3]))
    n = int(rng.integers(1, 70))
    a = gen.coeffs(rng, n, m)
    a = a / np.maximum(np.sum(np.abs(a), axis=0), 1e-12)
    p = [2, 3, 4, 5, 1, 0, 7, 0.5, 1.5, -1, -2, -0.5, 2.0, 3.0][int(rng.integers(14))]
    if p != int(p) or p < 0:
        a[0] += 2.0
    a = np.asfortranarray(a)
    x = inside(rng, dom)
    F = gen.ceval(a, gen.to_ref(dom, x))
    f = gen.fun(a, dom)
    R = np.float_power(F, p)
    c.describe('power %s of n=%d m=%d on %s' % (p, n, m, list(dom)))
    r = c.do('f ** p', lambda: f ** p, f)
    if p == 0:
        c.close('f ** 0', V(r, x, m), R, 1, scale=1e-12) if r.m == m else c.true('f ** 0 columns', False)
    else:
        mx = max(1, np.max(np.abs(R)))
        c.close('f ** p', V(r, x, m), R, 1, scale=(5e-11 if n < 50 else 2e-9) * mx + 10 * (1 + abs(p)) * mx * gen.argtol(a, dom))
    c.seen('power', p, m, cls(n))


def laws(c):
    """Ring laws on whole expressions; rounding alone may separate the two sides."""
    rng = c.rng
    dom, m, a, b, x = pair(c, big=0, scale=False)
    n3 = gen.size(rng, 0)
    d = gen.coeffs(rng, n3, m)
    f, g, h = gen.fun(a, dom), gen.fun(b, dom), gen.fun(d, dom)
    sa, sb, sd = (max(1.0, np.max(np.sum(np.abs(q), axis=0))) for q in (a, b, d))
    s = sa * sb * sd
    l = c.do('(f + g) h', lambda: (f + g) * h, f, g, h)
    r = c.do('f h + g h', lambda: f * h + g * h, f, g, h)
    tol = 10 * chop(a, b, d)
    c.close('distributive', V(l, x, m), V(r, x, m), tol, scale=s)
    l = c.do('(f g) h', lambda: (f * g) * h, f, g, h)
    r = c.do('f (g h)', lambda: f * (g * h), f, g, h)
    c.close('associative', V(l, x, m), V(r, x, m), tol, scale=s)
    l = c.do('(f + g)(f - g)', lambda: (f + g) * (f - g), f, g)
    r = c.do('f f - g g', lambda: f * f - g * g, f, g)
    c.close('difference of squares', V(l, x, m), V(r, x, m), tol, scale=(sa + sb) ** 2)
    l = c.do('chain', lambda: 2 * f - (g - 3) * 0.5 + h, f, g, h)
    t = gen.to_ref(dom, x)
    ref = 2 * gen.ceval(a, t) - (gen.ceval(b, t) - 3) * .5 + gen.ceval(d, t)
    c.close('linear combination', V(l, x, m), ref, 1, scale=1e-12 * (sa + sb + sd) + 2 * (gen.argtol(a, dom) + gen.argtol(b, dom) + gen.argtol(d, dom)))
    c.seen('laws', m, cls(a.shape[0]), cls(b.shape[0]), cls(n3))


GROUPS = {'binary': (binary, 3600, 48000), 'scalar': (scalar, 2000, 24000), 'inplace': (inplace, 1600, 20000),
          'compose': (compose, 2800, 32000), 'quotient': (quotient, 1200, 14000), 'power': (power, 1600, 16000),
          'laws': (laws, 1200, 16000), 'two': (two, 700, 8000),
          'composition': (composition, 500, 6000)}
