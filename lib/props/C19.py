"""Requests that make no sense are refused loudly, never answered silently; harmless differences are not refused."""
import copy
import operator
import numpy as np
import gen
from gen import V, inside, domain
from props.C10 import setup as tsetup

RULE = ('pairs of functions whose domains differ in the left end, the right end, both, by a shift, a scale or by nesting, in every binary '
        'operation, inner product and in-place form; functions of incompatible numbers of columns; evaluation with one point outside; '
        'columns, slices and subintervals out of range; antiderivatives that are not periodic; unresolvable formulas; and the same domain '
        'written as list, tuple, array or integers, which must be accepted; distinct by operation, kind of difference, type')

OPS = [('+', operator.add), ('-', operator.sub), ('*', operator.mul), ('/', operator.truediv), ('maximum', np.maximum),
       ('+=', operator.iadd), ('-=', operator.isub), ('*=', operator.imul), ('/=', operator.itruediv), ('inner', np.inner), ('dot', np.dot),
       ('innerw', None), ('hstack', None), ('convolve', np.convolve)]


def op_of(name, fn):
    import funpy
    from funpy.fun import innerw
    if name == 'innerw':
        return innerw
    if name == 'hstack':
        return lambda a, b: np.hstack((a, b)) if b.n % 2 else np.hstack((a, a * 2.0, b)) if a.n % 2 else np.hstack((a, b, b))
    return fn


def other(rng, dom):
    a, b = float(dom[0]), float(dom[-1])
    h = b - a
    d = max(h * float(rng.choice([1, .5, .1, 1e-2, 1e-3, 1e-6])) * .4, 2e-7) * rng.choice([-1, 1])
    k = ['left', 'right', 'shift', 'scale', 'nested', 'mirror', 'double'][int(rng.integers(7))]
    if k == 'left':
        q = [a + d, b]
    elif k == 'right':
        q = [a, b + d]
    elif k == 'shift':
        q = [a + d, b + d]
    elif k == 'scale':
        q = [a - d, b + d]
    elif k == 'nested':
        q = [a + abs(d), b - abs(d)]
    elif k == 'mirror':
        q = [-b, -a] if abs(a + b) > 1e-3 * h else [a, b + h]
    else:
        q = [a, b + h]
    return q, k


def make(c, dom, trig, m, n=None):
    rng = c.rng
    if trig:
        a, _, _ = tsetup(c, m=m, n=int(rng.integers(1, 40)) if n is None else n)
        return gen.tfun(a + (np.abs(a).sum() + 1) * (np.arange(a.shape[0]) == a.shape[0] // 2)[:, None], dom)
    a = gen.coeffs(rng, int(rng.integers(1, 60)) if n is None else n, m)
    a[0] += np.abs(a).sum(axis=0) + 1      # bounded away from zero: quotients make sense
    return gen.fun(a, dom)


def domains(c):
    rng = c.rng
    trig = bool(rng.random() < .35)
    dom = domain(rng)
    dom2, kind = other(rng, dom)
    m = int(rng.choice([1, 1, 2]))
    f, g = make(c, dom, trig, m), make(c, dom2, trig, m)
    c.describe('%s on %s and %s (%s)' % ('trig' if trig else 'cheb', list(dom), dom2, kind))
    for name, fn in [OPS[int(k)] for k in rng.choice(len(OPS), 5, replace=False)]:
        if trig and name in ('hstack', 'innerw') or not trig and name == 'convolve' or name == 'convolve' and m > 1:
            continue
        op = op_of(name, fn)
        c.raises('%s of functions on different domains' % name, lambda: op(f, g), f, g)
        c.raises('%s of functions on different domains' % name, lambda: op(g, f), f, g)
        c.seen(name, kind, 'trig' if trig else 'cheb', m)


def same(c):
    """One domain written in different ways."""
    rng = c.rng
    dom = [[-1, 1], [0, 1], [-3, 2], [0.25, 4.0], [-2.5, -1.5], [0, 10]][int(rng.integers(6))]
    ways = [list(dom), tuple(dom), np.array(dom), np.array(dom, dtype=float), [float(q) for q in dom]]
    trig = bool(rng.random() < .3)
    m = int(rng.choice([1, 2]))
    i, j = int(rng.integers(len(ways))), int(rng.integers(len(ways)))
    f, g = make(c, ways[i], trig, m), make(c, ways[j], trig, m)
    x = inside(rng, dom, 9)
    F, G = V(f, x, m), V(g, x, m)
    c.describe('%s %r and %r' % (trig, ways[i], ways[j]))
    s = float(np.abs(F).max() * np.abs(G).max() + np.abs(F).max() + np.abs(G).max())
    for name, fn in (('+', operator.add), ('*', operator.mul), ('-', operator.sub)):
        r = c.do('%s on one domain' % name, lambda: fn(f, g), f, g)
        c.close('%s on one domain' % name, V(r, x, m), fn(F, G), 1e-10, scale=s)
    h = copy.deepcopy(f)
    r = c.do('+= on one domain', lambda: operator.iadd(h, g), g)
    c.close('+= on one domain', V(r, x, m), F + G, 1e-10, scale=s)
    c.do('inner on one domain', lambda: np.inner(f, g), f, g)
    c.seen('same', i, j, trig, m, tuple(dom))


def columns(c):
    rng = c.rng
    trig = bool(rng.random() < .35)
    dom = domain(rng)
    m = int(rng.integers(2, 6))
    k = int(rng.choice([q for q in range(2, 7) if q != m]))
    n = int(rng.integers(2, 40)) if rng.random() < .4 else None
    f, g = make(c, dom, trig, m, n), make(c, dom, trig, k, n)
    c.describe('%s with %d and %d columns' % ('trig' if trig else 'cheb', m, k))
    for name, fn in OPS[:9]:
        if name == 'maximum' and trig:
            continue
        c.raises('%s of different numbers of columns' % name, lambda: fn(f, g), f, g)
    c.seen('columns', trig, m, k)


def outside(c):
    rng = c.rng
    trig = bool(rng.random() < .5)
    dom = domain(rng)
    a, b = float(dom[0]), float(dom[-1])
    m = int(rng.choice([1, 2, 3]))
    f = make(c, dom, trig, m)
    d = (b - a) * float(rng.choice([1e-6, 1e-3, .1, 1, 10]))
    d = max(d, 1e-9 * max(abs(a), abs(b)))
    x = inside(rng, dom, int(rng.choice([1, 3, 20])))
    i = int(rng.integers(len(x)))
    y = np.array(x)
    y[i] = b + d if rng.random() < .5 else a - d
    c.describe('%s m=%d point %g beyond %s' % (trig, m, y[i], list(dom)))
    c.raises('evaluation with one point outside', lambda: f(y), f, y)
    c.raises('evaluation outside', lambda: f(float(y[i])), f)
    c.raises('evaluation at nan', lambda: f(np.where(np.arange(len(x)) == i, np.nan, x)), f)
    r = c.do('evaluate inside', lambda: f(x), f, x)
    c.true('inside is accepted', np.size(r) == len(x) * m, lambda: np.shape(r))
    for idx in (m, m + 1, m + 7):
        c.raises('column out of range', lambda: f[idx], f)
    c.raises('column of a float', lambda: f[0.5], f)
    if not trig:
        for s in ([-1.5, 0.5], [-.5, 1.001], [.5, .2], [.3, .3]):
            c.raises('restriction to %s' % ('an empty interval' if s[0] >= s[1] else 'a larger interval'), lambda: f.onefun.restrict(s), f)
    else:
        c.raises('antiderivative that is not periodic', lambda: np.cumsum(f), f)
    c.seen('outside', trig, m, i in (0, len(x) - 1))


def unresolved(c):
    """Formulas no function of the allowed length represents are flagged; the flag belongs to all columns and survives copies."""
    import funpy as fp
    rng = c.rng
    p = float(rng.uniform(-.9, .9))
    bad = [lambda x: np.sign(x - p), lambda x: np.where(x > p, np.exp(x), np.sin(x) - 2), lambda x: np.floor(5 * x + p),
           lambda x: np.abs(x - p) ** .05][int(rng.integers(4))]
    m = int(rng.choice([1, 2, 3]))
    k = int(rng.integers(m))
    ops = [(bad if j == k else (lambda x, j=j: np.cos((j + 1) * x))) for j in range(m)]
    c.describe('unresolved column %d of %d' % (k, m))
    f = c.do('construct', lambda: fp.Fun(op=ops if m > 1 else ops[0]))
    c.true('an unresolved function is not reported as resolved', not f.onefun.ishappy, lambda: 'n=%d' % f.n)
    c.true('maximal length respected', f.n <= 2 ** 16 + 1, lambda: f.n)
    for name, fn in (('copy', lambda: copy.deepcopy(f)), ('negative', lambda: -f), ('multiple', lambda: 2.5 * f), ('plus constant', lambda: f + 0.5)):
        g = c.do(name, fn, f)
        c.true('%s of an unresolved function is unresolved' % name, not g.onefun.ishappy, '')
    fine = fp.Fun(op=lambda x: np.cos(x + p))
    for order in ((f, fine), (fine, f)):
        g = c.do('hstack', lambda: np.hstack(order), f)
        c.true('hstack with an unresolved function is unresolved', not g.onefun.ishappy, '')
        g = c.do('sum', lambda: (order[0] + order[1]) if m == 1 else f + f, f)
        c.true('sum with an unresolved function is unresolved', not g.onefun.ishappy, '')
    good = c.do('construct good', lambda: fp.Fun(op=lambda x: np.exp(p * x)))
    c.true('resolved functions are reported as resolved', good.onefun.ishappy, '')
    c.seen('unresolved', m, k)


def states(c):
    """States refuse functions on different domains as well."""
    import funpy as fp
    from props.C14 import make as smake
    rng = c.rng
    dom = [float(q) for q in domain(rng)]
    dom2, kind = other(rng, dom)
    kind_ = str(rng.choice(['D', 'C', 'T', 'T2']))
    m = int(rng.choice([1, 2]))
    a = smake(c, kind=kind_, dom=dom, m=m)[0]
    b = smake(c, kind=kind_, dom=dom2, m=m)[0]
    c.describe('states on %s and %s' % (dom, dom2))
    for name, fn in (('+', operator.add), ('-', operator.sub), ('inner', np.inner)):
        c.raises('%s of states on different domains' % name, lambda: fn(a, b), a, b)
    c.seen('states', kind, kind_, m)


GROUPS = {'domains': (domains, 2800, 36000), 'same': (same, 800, 10000), 'columns': (columns, 800, 10000), 'outside': (outside, 1600, 20000),
          'unresolved': (unresolved, 96, 1200), 'states': (states, 400, 4800)}
