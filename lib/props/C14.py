"""States (products of functions and parameters) form an inner product space."""
import copy
import operator
import numpy as np
import gen
from gen import V, inside, domain
from props.C07 import gram
from props.C06 import half

RULE = ('states of all five kinds with random functions (1..120 coefficients, 1..4 columns, different lengths), parameters, weights '
        'and random domains; arithmetic, inner products, norms, flattening, construction from coefficients, iteration and copies '
        'against componentwise references; distinct by kind, operation group, columns, sizes')


def comps(s):
    return list(s.funcs), [float(np.real(r)) for r in s.reals]


class Ref:
    def __init__(self, cs, rs, dom):
        self.cs, self.rs, self.dom = cs, rs, dom


def make(c, kind=None, dom=None, m=None, like=None, big=0.0):
    from funpy.vectorspaces import DeflationState, ContinuationState, TwoParContState, TwoParameterState, Parameter
    rng = c.rng
    if like:
        kind, dom, m = like
    kind = kind or str(rng.choice(['D', 'C', 'T', 'T2']))
    dom = domain(rng) if dom is None else dom
    m = int(rng.choice([1, 1, 2, 3, 4])) if m is None else m
    nf = 2 if kind == 'T2' else 1
    nr = {'D': 0, 'C': 1, 'T': 2, 'T2': 2}[kind]
    sizes = [int(rng.choice([1, 2, 3, 5, 8, 16, 17, 33, 60, 120])) for _ in range(nf)]
    cs = [gen.coeffs(rng, n, m, decay=float(rng.choice([0, 1, -1]))) for n in sizes]
    rs = [float(rng.standard_normal()) for _ in range(nr)]
    if kind == 'T2':
        # both functions are brought to one length
        N = max(sizes)
        cs = [np.vstack((a, np.zeros((N - a.shape[0], m)))) for a in cs]
    f = [gen.fun(a, dom) for a in cs]
    pars = dict(q=1.25, mu=-0.5) if rng.random() < .5 else {}
    P = [Parameter(**{k: v}) for k, v in zip(('alpha', 'lam'), rs)]
    if kind == 'D':
        s = c.do('DeflationState', lambda: DeflationState(u=f[0], **pars), f[0])
    elif kind == 'C':
        s = c.do('ContinuationState', lambda: ContinuationState(a=P[0], u=f[0], **pars), f[0])
    elif kind == 'T':
        s = c.do('TwoParContState', lambda: TwoParContState(p1=P[0], p2=P[1], u=f[0], **pars), f[0])
    else:
        s = c.do('TwoParameterState', lambda: TwoParameterState(p1=P[0], p2=P[1], u=f[0], phi=f[1], **pars), f[0], f[1])
    if not like:
        c.describe('%s sizes %s m=%d on %s' % (kind, sizes, m, list(dom)))
    return s, cs, rs, dom, m, kind, pars


def setw(c, s, nf, nr):
    if c.rng.random() < .5:
        w = c.rng.uniform(.2, 3, nf + nr)
        s.weights = np.hstack((w, np.ones(len(s.signature) - len(w)))) if len(s.signature) > len(w) else w
    return np.array(s.weights, float)


def check(c, label, s, cs, rs, dom, tol=1e-11, scale=None):
    m = cs[0].shape[1]
    x = inside(c.rng, dom, 6)
    t = gen.to_ref(dom, x)
    for k, a in enumerate(cs):
        S = np.max(np.sum(np.abs(a), axis=0)) + 1e-300 if scale is None else scale
        c.close('%s function' % label, V(s.funcs[k], x, m), gen.ceval(a, t), 1, scale=tol * S + 10 * gen.argtol(a, dom))
    for k, r in enumerate(rs):
        c.close('%s number' % label, float(np.real(s.reals[k])), r, 1e-12, scale=abs(r) + (scale or 1.0))


def pad(a, n):
    return np.vstack((a, np.zeros((n - a.shape[0], a.shape[1]))))


def add(a, b, k=1.0):
    n = max(a.shape[0], b.shape[0])
    return pad(a, n) + k * pad(b, n)


def same(c, label, z, s, w):
    c.true('%s kind' % label, type(z) is type(s))
    c.close('%s weights' % label, np.asarray(z.weights, float), w, 0)
    c.true('%s names' % label, [p.name for p in z.reals] == [p.name for p in s.reals])


def arithmetic(c):
    rng = c.rng
    s, cs, rs, dom, m, kind, pars = make(c)
    r, ds, qs, *_ = make(c, like=(kind, dom, m))
    w = setw(c, s, len(cs), len(rs))
    k = float(rng.choice([-1.5, 0.25, 2.0, 3.0]))
    S = sum(np.sum(np.abs(a)) for a in cs + ds) + 1
    for name, fn, rc, rr in (('s+r', lambda: s + r, [add(a, b) for a, b in zip(cs, ds)], [a + b for a, b in zip(rs, qs)]),
                             ('s-r', lambda: s - r, [add(a, b, -1) for a, b in zip(cs, ds)], [a - b for a, b in zip(rs, qs)]),
                             ('k*s', lambda: k * s, [k * a for a in cs], [k * a for a in rs]),
                             ('s*k', lambda: s * k, [k * a for a in cs], [k * a for a in rs]),
                             ('s/k', lambda: s / k, [a / k for a in cs], [a / k for a in rs]),
                             ('-s', lambda: -s, [-a for a in cs], [-a for a in rs]),
                             ('s-s', lambda: s - s, [0 * a for a in cs], [0 * a for a in rs]),
                             ('combination', lambda: 2.0 * s - r / 4 + s, [add(3 * a, b, -.25) for a, b in zip(cs, ds)], [3 * a - b / 4 for a, b in zip(rs, qs)])):
        z = c.do(name, fn, s, r)
        check(c, name, z, rc, rr, dom, scale=S)
        c.true('%s kind' % name, type(z) is type(s))
        c.close('%s weights' % name, z.weights, w, 0)
        c.true('%s names' % name, [p.name for p in z.reals] == [p.name for p in s.reals])
        c.true('%s parameters' % name, set(dict(z.items())) == set(dict(s.items())))
    z = c.do('real', lambda: np.real(s), s)
    check(c, 'real', z, cs, rs, dom)
    same(c, 'real', z, s, w)
    z = c.do('conj', lambda: np.conj(s), s)
    check(c, 'conj', z, cs, rs, dom)
    same(c, 'conj', z, s, w)
    z = c.do('imag', lambda: np.imag(s), s)
    check(c, 'imag', z, [0 * a for a in cs], [0.0 for _ in rs], dom, scale=S)
    same(c, 'imag', z, s, w)
    z = c.do('zeros_like', lambda: np.zeros_like(s), s)
    check(c, 'zeros_like', z, [0 * a for a in cs], [0.0 for _ in rs], dom, scale=S)
    same(c, 'zeros_like', z, s, w)
    z = c.do('ones_like', lambda: np.ones_like(s), s)
    one = [np.vstack((np.ones((1, m)), np.zeros((max(a.shape[0] - 1, 0), m)))) for a in cs]
    check(c, 'ones_like', z, one, [1.0 for _ in rs], dom, scale=S)
    same(c, 'ones_like', z, s, w)
    check(c, 'operand', s, cs, rs, dom)
    c.seen('arithmetic', kind, m, *[a.shape[0] for a in cs + ds])


def inplace(c):
    s, cs, rs, dom, m, kind, pars = make(c)
    r, ds, qs, *_ = make(c, like=(kind, dom, m))
    S = sum(np.sum(np.abs(a)) for a in cs + ds) + 1
    w = setw(c, s, len(cs), len(rs))
    t = copy.deepcopy(s)
    k = float(c.rng.choice([-1.5, 0.25, 2.0]))
    for name, op, rc, rr in (('+=', lambda t: operator.iadd(t, r), [add(a, b) for a, b in zip(cs, ds)], [a + b for a, b in zip(rs, qs)]),
                             ('-=', lambda t: operator.isub(t, r), [add(a, b, -1) for a, b in zip(cs, ds)], [a - b for a, b in zip(rs, qs)]),
                             ('*=', lambda t: operator.imul(t, k), [k * a for a in cs], [k * a for a in rs]),
                             ('/=', lambda t: operator.itruediv(t, k), [a / k for a in cs], [a / k for a in rs]),
                             ('flip', lambda t: t.flip(), [-a for a in cs], [-a for a in rs])):
        t = copy.deepcopy(s)
        z = c.do(name, lambda: op(t), s, r)
        check(c, name, z, rc, rr, dom, scale=S)
        c.close('%s weights' % name, np.asarray(z.weights, float), w, 0)
        c.true('%s is in place' % name, z is t)
        check(c, 'the original of a copy after %s' % name, s, cs, rs, dom)
        c.true('%s names' % name, [p.name for p in z.reals] == [p.name for p in s.reals])
    c.seen('inplace', kind, m, *[a.shape[0] for a in cs + ds])


def products(c):
    import funpy
    from funpy.vectorspaces import innerw
    rng = c.rng
    s, cs, rs, dom, m, kind, pars = make(c)
    r, ds, qs, *_ = make(c, like=(kind, dom, m))
    w = setw(c, s, len(cs), len(rs))
    r.weights = np.array(s.weights)
    h = half(dom)
    nf = len(cs)
    ip = lambda A, B, a, b: sum(w[i] * np.trace(gram(A[i], B[i])) * h for i in range(nf)) + sum(w[nf + i] * a[i] * b[i] for i in range(len(a)))
    sa = sum(np.sum(np.abs(a)) for a in cs) * (1 + h) + sum(map(abs, rs))
    sb = sum(np.sum(np.abs(a)) for a in ds) * (1 + h) + sum(map(abs, qs))
    S = 3 * sa * sb + 1e-300
    ref = ip(cs, ds, rs, qs)
    d = c.do('dot', lambda: np.dot(s, r), s, r)
    c.close('dot', np.asarray(d, float).reshape(-1), [ref], 1e-12, scale=S)
    d = c.do('inner', lambda: np.inner(s, r), s, r)
    c.close('inner', np.asarray(d, float).reshape(-1), [ref], 1e-12, scale=S)
    d = c.do('inner', lambda: np.inner(r, s), s, r)
    c.close('inner is symmetric', np.asarray(d, float).reshape(-1), [ref], 1e-12, scale=S)
    N = max(a.shape[0] for a in cs + ds) * 2 + 2
    t = np.cos(np.pi * (np.arange(N) + .5) / N)
    W = sum(w[i] * np.sum(gen.ceval(cs[i], t) * gen.ceval(ds[i], t)) * np.pi / N * h for i in range(nf)) + sum(w[nf + i] * rs[i] * qs[i] for i in range(len(rs)))
    d = c.do('innerw', lambda: innerw(s, r), s, r)
    c.close('weighted inner product', np.asarray(d, float).reshape(-1), [W], 1e-12, scale=4 * S)
    from funpy.norms import sprod, nnorm
    k = float(rng.choice([1., 2., -.5]))
    d = c.do('sprod', lambda: sprod(s, r) if k == 1 else sprod(s, r, scale=k), s, r)
    c.close('scaled scalar product', np.asarray(d, float).reshape(-1), [k * k * ref], 1e-12, scale=k * k * S)
    d = c.do('sprod', lambda: sprod(s, r, weighted=True) if k == 1 else sprod(s, r, weighted=True, scale=k), s, r)
    c.close('scaled weighted scalar product', np.asarray(d, float).reshape(-1), [k * k * W], 1e-12, scale=4 * k * k * S)
    v = c.do('nnorm', lambda: nnorm(s, weighted=False) if k == 1 else nnorm(s, scale=k, weighted=False), s)
    c.close('scaled norm', float(v) ** 2, k * k * ip(cs, cs, rs, rs), 1e-10, scale=3 * k * k * sa * sa)
    n2 = ip(cs, cs, rs, rs)
    v = c.do('norm', lambda: s.norm(), s)
    c.close('norm', float(v) ** 2, n2, 1e-10, scale=3 * sa * sa)
    u = copy.deepcopy(s)
    if n2 > 1e-6 * sa * sa:
        z = c.do('normalize', lambda: u.normalize(), s)
        c.close('normalized', z.norm(), 1.0, 1e-11)
        q = np.sqrt(n2)
        check(c, 'normalized', z, [a / q for a in cs], [a / q for a in rs], dom, scale=max(1, sa / q), tol=1e-10)
        check(c, 'operand of normalize', s, cs, rs, dom)
    c.close('mass', np.asarray(c.do('mass', lambda: s.mass(), s), float), [np.sum(gen.cdefint(a)) * h for a in cs], 1e-12, scale=sa)
    if cs[0].shape[0] > 1 and max(a.shape[0] for a in cs) < 40 and rng.random() < .3:
        X = np.linspace(-1, 1, 4001)
        v = c.do('variation', lambda: s.variation(), s)
        c.close('variation of the first function', np.asarray(v, float).reshape(-1), [np.sum(np.ptp(gen.ceval(cs[0], X), axis=0))], 1e-3,
                scale=np.sum(np.abs(cs[0])) + 1e-300)
    # norms of other orders; functions without a zero, whose absolute value is as smooth as they are
    p = int(rng.choice([1, 3, 4]))
    z = copy.deepcopy(s)
    As = []
    for i, a in enumerate(cs):
        a = a / max(np.max(np.sum(np.abs(a), axis=0)), 1e-300)
        a[0] += np.where(rng.random(m) < .5, -1.5, 1.5)
        As.append(a)
        z.funcs[i] = gen.fun(a, dom)
    N = p * max(a.shape[0] for a in As) + 40
    x, q = np.polynomial.legendre.leggauss(N)
    ref = sum(w[i] * np.sum(q @ np.abs(gen.ceval(a, x)) ** p) * h for i, a in enumerate(As))
    ref += sum(w[nf + i] * abs(v) ** p for i, v in enumerate(rs))
    v = c.do('norm of order %d' % p, lambda: z.norm(p=p), z)
    c.close('norm of order %d' % p, np.asarray(v, float).reshape(-1) ** p, [ref], 1e-9, scale=ref)
    c.seen('products', kind, m, *[a.shape[0] for a in cs + ds])


def structure(c):
    from funpy.vectorspaces import ContinuationState, DeflationState, TwoParContState, TwoParameterState, Parameter
    rng = c.rng
    s, cs, rs, dom, m, kind, pars = make(c)
    S = sum(np.sum(np.abs(a)) for a in cs) + 1
    x = inside(rng, dom, 5)
    t = gen.to_ref(dom, x)
    # columns one after the other
    cols = c.do('iteration', lambda: [q for q in s], s)
    allc = np.hstack(cs)
    c.true('number of columns', len(cols) == allc.shape[1] == s.columns)
    for j, q in enumerate(cols):
        tt = 1e-11 * S + 10 * gen.argtol(allc, dom)
        c.close('iterated column', V(q, x, 1)[:, 0], gen.ceval(allc[:, [j]], t)[:, 0], 1, scale=tt)
        c.close('indexed column', V(c.do('index', lambda: s[j], s), x, 1)[:, 0], gen.ceval(allc[:, [j]], t)[:, 0], 1, scale=tt)
    c.close('function', V(s.u, x, m), gen.ceval(cs[0], t), 1, scale=1e-11 * S + 10 * gen.argtol(cs[0], dom))
    if kind in ('C', 'T', 'T2'):
        c.true('continuation parameter', s.cpar == ('alpha' if kind == 'C' else 'lam') and float(s.a) == rs[-1])
    if kind in ('T', 'T2'):
        c.true('other parameter', s.bname == 'alpha' and float(s.b) == rs[0])
    expect = dict(pars, **dict(zip(('alpha', 'lam'), rs)))
    c.true('parameters', {k: float(v) for k, v in s.items()} == expect, lambda: '%s %s' % (dict(s.items()), expect))
    v = c.do('asarray', lambda: np.asarray(s), s)
    order = [a.flatten(order='F') for a in cs]
    c.close('array form', v, np.hstack(order + [np.array(rs)]), 1e-15, scale=S)
    k = np.real(v)
    if kind == 'D':
        z = c.do('from_coeffs', lambda: DeflationState.from_coeffs(v, m, domain=dom), v)
    elif kind == 'C':
        z = c.do('from_coeffs', lambda: ContinuationState.from_coeffs(v, 'alpha', m, domain=dom), v)
        z2 = c.do('from_fun', lambda: ContinuationState.from_fun(s.u, 'beta', 0.5), s)
        c.true('from_fun', z2.cpar == 'beta' and float(z2.a) == 0.5)
        check(c, 'from_fun', z2, cs, [0.5], dom)
    elif kind == 'T':
        z = c.do('from_coeffs', lambda: TwoParContState.from_coeffs(v, 'alpha', 'lam', m, domain=dom), v)
    else:
        v1 = c.do('flatten', lambda: s.flatten(), s)
        c.close('flat form', v1, np.hstack([order[0], np.array(rs)]), 1e-15, scale=S)
        z = c.do('from_coeffs', lambda: TwoParameterState.from_coeffs(v1, 'alpha', 'lam', m, domain=dom), v1)
        z = None if False else z
    check(c, 'from coefficients', z, cs[:1], rs, dom)
    if kind != 'D':
        v1 = c.do('flatten', lambda: s.flatten(), s)
        c.close('flat form', v1, np.hstack([order[0], np.array(rs)]), 1e-15, scale=S)
    N = max(a.shape[0] for a in cs) + int(rng.integers(1, 40))
    y = c.do('prolong', lambda: copy.deepcopy(s).prolong(N), s)
    c.true('prolonged', all(f.n == N for f in y.funcs))
    check(c, 'prolonged', y, cs, rs, dom)
    y = c.do('simplify', lambda: y.simplify(), s)
    check(c, 'simplified', y, cs, rs, dom, tol=2e-9)
    if kind == 'C':
        r2 = c.do('from_state', lambda: TwoParContState.from_state(s, 'nu', 3.0, 'alpha', float(s.a)), s)
        check(c, 'from_state', r2, cs, [3.0, rs[0]], dom)
        d2 = c.do('from_state', lambda: DeflationState.from_state(s), s)
        check(c, 'from_state', d2, cs, [], dom)
        c.true('parameters handed on', {k: float(v) for k, v in d2.items()} == expect, lambda: '%s %s' % (dict(d2.items()), expect))
    c.seen('structure', kind, m, *[a.shape[0] for a in cs])


def pair(c):
    """State with a tangent: arithmetic acts on both and keeps the tangent normalised."""
    from funpy.vectorspaces import MoorePenroseState
    dom, m = domain(c.rng), int(c.rng.integers(1, 3))
    parts = [make(c, like=('C', dom, m)) for _ in range(4)]
    (u, uc, ur, *_), (v, vc, vr, *_), (p, pc, pr, *_), (q, qc, qr, *_) = parts
    h = half(dom)
    nrm = lambda cs, rs: np.sqrt(np.trace(gram(cs[0], cs[0])) * h + rs[0] ** 2)
    c.describe('state with tangent m=%d on %s' % (m, list(dom)))
    s, r = MoorePenroseState(u=u, v=v), MoorePenroseState(u=p, v=q)
    S = sum(np.sum(np.abs(a[0])) for a in (uc, vc, pc, qc)) + 5
    for name, fn, k in (('+', lambda: s + r, 1.0), ('-', lambda: s - r, -1.0)):
        z = c.do('mp ' + name, fn, u, v, p, q)
        nc, nr = [add(vc[0], qc[0], k)], [vr[0] + k * qr[0]]
        check(c, 'mp state', z.u, [add(uc[0], pc[0], k)], [ur[0] + k * pr[0]], dom, scale=S)
        n = nrm(nc, nr)
        if n > 1e-2:
            check(c, 'mp tangent', z.v, [nc[0] / n], [nr[0] / n], dom, scale=S / n, tol=1e-11)
            c.close('mp tangent norm', z.v.norm(), 1.0, 1e-11)
    d = c.do('mp dot', lambda: np.dot(s, r), u, v, p, q)
    c.close('mp dot', np.asarray(d, float).reshape(-1), [np.trace(gram(uc[0], pc[0])) * h + ur[0] * pr[0]], 1e-12, scale=S * S * (1 + h))
    c.true('mp parts', s.state is s.u and s.tangent is s.v and s.u is u and s.v is v)
    for name, fn, k in (('zeros_like', np.zeros_like, 0), ('real', np.real, 1), ('conj', np.conj, 1), ('imag', np.imag, 0)):
        z = c.do('mp ' + name, lambda: fn(s), u, v)
        check(c, 'mp %s state' % name, z.u, [k * uc[0]], [k * ur[0]], dom, scale=S)
        n = nrm(vc, vr) if name == 'conj' else 1.0          # an elementwise function, which normalises the tangent
        if n > 1e-2:
            check(c, 'mp %s tangent' % name, z.v, [k * vc[0] / n], [k * vr[0] / n], dom, scale=S / n)
    x = inside(c.rng, dom, 4)
    for j, col in enumerate(c.do('mp columns', lambda: [k for k in s], u, v)):
        c.close('mp column', V(col, x, 1)[:, 0], gen.ceval(uc[0][:, [j]], gen.to_ref(dom, x))[:, 0], 1, scale=1e-11 * S + 10 * gen.argtol(uc[0], dom))
        c.close('mp indexed column', V(s[j], x, 1)[:, 0], gen.ceval(uc[0][:, [j]], gen.to_ref(dom, x))[:, 0], 1, scale=1e-11 * S + 10 * gen.argtol(uc[0], dom))
    w = copy.deepcopy(s)
    w *= 2.0
    check(c, 'mp copy', s.u, uc, ur, dom)
    check(c, 'mp scaled', w.u, [2 * uc[0]], [2 * ur[0]], dom, scale=2 * S)
    c.seen('pair', m, uc[0].shape[0], pc[0].shape[0])


def periodic(c):
    """States whose functions are periodic: the same space, kept in Fourier coefficients."""
    from funpy.vectorspaces import DeflationState, ContinuationState, Parameter
    rng = c.rng
    dom, m = domain(rng), int(rng.choice([1, 1, 2, 3]))
    cont = rng.random() < .4
    h = half(dom)

    def one():
        n = int(rng.choice([1, 3, 4, 5, 8, 9, 16, 17, 33, 40]))
        a = gen.tcoeffs(rng, n, m, real=True, decay=float(rng.choice([0, 1, -1])))
        f = gen.tfun(a, dom)
        p = float(rng.standard_normal())
        if cont:
            return c.do('ContinuationState', lambda: ContinuationState(a=Parameter(alpha=p), u=f), f), a, [p]
        return c.do('DeflationState', lambda: DeflationState(u=f), f), a, []
    (s, a, p), (r, b, q) = one(), one()
    c.describe('periodic states sizes %s m=%d cont=%s on %s' % ((a.shape[0], b.shape[0]), m, cont, list(dom)))
    w = setw(c, s, 1, len(p))
    r.weights = np.array(w)
    x = inside(rng, dom, 7)
    t = gen.to_ref(dom, x)
    A, B = gen.teval(a, t).real, gen.teval(b, t).real
    S = np.sum(np.abs(a)) + np.sum(np.abs(b)) + 1

    def chk(label, z, val, num, sc=1.0):
        c.close('%s function' % label, np.real(V(z.funcs[0], x, m)), val, 2e-11, scale=S * sc)
        for u, v in zip(z.reals, num):
            c.close('%s number' % label, float(np.real(u)), v, 1e-12, scale=S * sc)
        c.true('%s kind' % label, type(z) is type(s) and len(z.reals) == len(p) and z.funcs[0].istrig)
        c.close('%s weights' % label, np.asarray(z.weights, float), w, 0)
    k = float(rng.choice([-1.5, .25, 2.0]))
    for name, fn, val, num in (('s+r', lambda: s + r, A + B, [i + j for i, j in zip(p, q)]), ('s-r', lambda: s - r, A - B, [i - j for i, j in zip(p, q)]),
                               ('k*s', lambda: k * s, k * A, [k * i for i in p]), ('s/k', lambda: s / k, A / k, [i / k for i in p]),
                               ('-s', lambda: -s, -A, [-i for i in p]), ('combination', lambda: 2.0 * s - r / 4, 2 * A - B / 4, [2 * i - j / 4 for i, j in zip(p, q)])):
        chk(name, c.do(name, fn, s, r), val, num, 4)
    N = a.shape[0] + b.shape[0] + 2
    y = -1 + 2 * np.arange(N) / N
    ip = lambda u, v: w[0] * np.sum((gen.teval(u, y) * np.conj(gen.teval(v, y))).real) * 2 / N * h
    ref = ip(a, b) + (w[1] * p[0] * q[0] if cont else 0)
    for name, fn in (('dot', lambda: np.dot(s, r)), ('dot reversed', lambda: np.dot(r, s)), ('inner', lambda: np.inner(s, r))):
        d = np.asarray(c.do(name, fn, s, r))
        c.true('%s is one number' % name, d.size == 1, lambda: str(d.shape))
        c.close(name, np.real(d).reshape(-1), [ref], 1e-11, scale=3 * S * S * h * m * np.max(w) + 1)
    N = 2 * a.shape[0] + 2
    y = -1 + 2 * np.arange(N) / N
    n2 = ip(a, a) + (w[1] * p[0] ** 2 if cont else 0)
    c.close('norm', float(np.real(c.do('norm', lambda: s.norm(), s))) ** 2, n2, 1e-11, scale=3 * S * S * h * m * np.max(w) + 1)
    u = copy.deepcopy(s)
    u += r
    chk('+=', u, A + B, [i + j for i, j in zip(p, q)])
    u *= k
    chk('*=', u, k * (A + B), [k * (i + j) for i, j in zip(p, q)], 4)
    chk('the original of a copy', s, A, p)
    v = c.do('asarray', lambda: np.asarray(s), s)
    if a.shape[0] % 2:
        z = c.do('from_coeffs', lambda: (ContinuationState.from_coeffs(v, 'alpha', m, domain=dom, type='trig') if cont else DeflationState.from_coeffs(v, m, domain=dom, type='trig')), v)
        c.close('from coefficients', np.real(V(z.funcs[0], x, m)), A, 1e-11, scale=S)
        if cont:
            c.close('from coefficients number', float(np.real(z.reals[0])), p[0], 1e-14)
    M = a.shape[0] + 1 + int(rng.integers(0, 20))
    M += 1 - M % 2
    z = c.do('prolong', lambda: copy.deepcopy(s).prolong(M), s)
    chk('prolonged', z, A, p)
    c.true('prolonged length', z.funcs[0].n == M)
    c.seen('periodic', m, cont, a.shape[0], b.shape[0])


def quantities(c):
    """What a state says about itself, its diagram coordinates, and the other ways of making one."""
    from funpy.vectorspaces import ContinuationState, DeflationState, TwoParContState, TwoParameterState, Parameter
    rng = c.rng
    s, cs, rs, dom, m, kind, pars = make(c)
    n, nf, nr = cs[0].shape[0], len(cs), len(rs)
    h = half(dom)
    S = sum(np.sum(np.abs(a)) for a in cs) + 1
    got = c.do('quantities', lambda: (int(s.columns), s.number_func, s.number_real, s.number_cheb, s.number_trig, tuple(s.fshape), bool(s.istrig), len(s), bool(s.is_constant)), s)
    c.true('quantities', got == (nf * m, nf, nr, nf, 0, (nf, nr), False, n, n == 1), lambda: str(got))
    c.true('shape', tuple(s.shape) == ((2 * n if kind == 'T2' else n), m), lambda: '%s for %s functions of %s' % (s.shape, nf, (n, m)))
    c.true('domain of a state', [float(v) for v in s.domain] == [float(v) for v in dom])
    c.true('names', sorted(s.keys()) == sorted(pars), lambda: '%s %s' % (list(s.keys()), pars))
    text = c.do('pars', lambda: s.pars, s)
    c.true('text of the parameters', all(('%s = %.4g ' % (k, v)) in text for k, v in list(pars.items()) + list(zip(('alpha', 'lam'), rs))), text)
    ok, cut = c.do('happy', lambda: s.happy(), s)
    each = [q.happy() for q in s.funcs]
    c.true('resolved when all are', bool(ok) == all(bool(np.all(e[0])) for e in each) and cut == max(e[1] for e in each), lambda: '%s %s %s' % (ok, cut, each))
    # diagram coordinates
    j = int(rng.integers(m))
    a = cs[0][:, [j]]
    x, w = np.polynomial.legendre.leggauss(2 * n + 3)
    l2 = lambda b: np.sqrt(np.sum(w @ gen.ceval(b, x) ** 2) * h)
    var = np.ptp(gen.ceval(a, np.cos(np.linspace(0, np.pi, 8 * n + 9))))
    slope, left = gen.ceval(gen.cder(a), [-1.0])[0, 0], gen.ceval(a, [-1.0])[0, 0]
    b = a.copy()
    b[0] -= np.sum(gen.cdefint(a)) / 2
    left0 = gen.ceval(b, [-1.0])[0, 0]
    coord = {'C': lambda: rs[0], 'T': lambda: rs[0], 'T2': lambda: rs[0]}.get(kind)
    A = np.sum(np.abs(a)) + 1e-300
    cases = [('Sturm', np.sign(slope) * l2(a), abs(slope) > 1e-6 * A * n * n)]
    if kind != 'D':
        cases += [('SturmNeumann', np.sign(left) * l2(a), abs(left) > 1e-8 * A), ('SturmNeumann0', np.sign(left0) * l2(b), abs(left0) > 1e-6 * A),
                  ('L2', l2(a), True), ('Wkp', np.sqrt(l2(a) ** 2 + np.sum(w @ gen.ceval(gen.cder(a), x) ** 2) / h), n < 40)]
    if n > 2 and var > 1e-3 * A:
        for name, ref, known in cases:
            if not known:
                continue
            r = c.do('plot_values', lambda: s.plot_values(j) if kind == 'D' else s.plot_values(j, norm_type=name), s)
            r = (0.0, r) if kind == 'D' else r
            c.close('diagram coordinate %s' % name, float(np.real(r[1])), float(ref), 1e-9, scale=abs(float(ref)) + 1e-3 * A * np.sqrt(h) + (1e-6 * A * n ** 2 / np.sqrt(h) if name == 'Wkp' else 0))
            if coord:
                c.true('diagram parameter', float(r[0]) == coord(), lambda: '%s %s' % (r[0], coord()))
    # made from functions and from other states
    u = gen.fun(cs[0], dom)
    p = float(rng.standard_normal())
    mk = {'D': lambda: DeflationState.from_fun(u), 'C': lambda: ContinuationState.from_fun(u, 'alpha', p), 'T': lambda: TwoParContState.from_fun(u, 'alpha', p, 'lam', -p)}.get(kind)
    if mk:
        z = c.do('from_fun', mk, u)
        check(c, 'from_fun', z, cs, {'D': [], 'C': [p], 'T': [p, -p]}[kind], dom)
        c.true('names from_fun', [q.name for q in z.reals] == ['alpha', 'lam'][:nr])
        v = V(z.u, inside(rng, dom, 4), m)
        u *= 3.0
        check(c, 'state after the function changed', z, cs, {'D': [], 'C': [p], 'T': [p, -p]}[kind], dom)
    if kind in ('C', 'T', 'D'):
        z = c.do('from_state', lambda: ContinuationState.from_state(s, 'omega', p), s)
        check(c, 'from_state', z, cs, [p], dom)
        expect = dict(pars, omega=p, **dict(zip(('alpha', 'lam'), rs)))
        c.true('parameters of from_state', {k: float(v) for k, v in z.items()} == expect, lambda: '%s %s' % (dict(z.items()), expect))
        z *= 2.0
        check(c, 'source of from_state', s, cs, rs, dom)
        # a name that becomes a coordinate is no longer one of the fixed parameters, whatever it was before
        have = dict(pars, **dict(zip(('alpha', 'lam'), rs)))
        names = list(rng.permutation(list(have) + ['omega', 'tau']))[:2]
        how = int(rng.integers(3))
        if how == 0:
            z = c.do('from_state', lambda: ContinuationState.from_state(s, str(names[0]), p), s)
            act = {str(names[0]): p}
        else:
            cls = TwoParContState if how == 1 else TwoParameterState
            z = c.do('from_state', lambda: cls.from_state(s, str(names[0]), p, str(names[1]), p - 1.0), s)
            act = {str(names[0]): p, str(names[1]): p - 1.0}
        got = [(str(k), float(v)) for k, v in z.items()]
        c.true('every parameter once', sorted(got) == sorted(dict(have, **act).items()), lambda: '%s instead of %s' % (got, dict(have, **act)))
        c.true('coordinates are not fixed parameters', not any(k in z.keys() for k in act), lambda: '%s of %s' % (list(z.keys()), act))
        check(c, 'from_state', z, [cs[0]] + ([cs[0] * 0.0] if how == 2 else []), [act[q.name] for q in z.reals], dom)
    # the name space and the weights belong to the state
    t = copy.deepcopy(s)
    before = np.array(s.weights, float)
    t.weights *= 2.0
    c.close('the original keeps its weights', np.asarray(s.weights, float), before, 0)
    t['q'] = Parameter(q=7.5)
    c.true('parameter set', dict((k, float(v)) for k, v in t.items())['q'] == 7.5)
    c.true('the original keeps its parameters', {k: float(v) for k, v in s.items()} == dict(pars, **dict(zip(('alpha', 'lam'), rs))))
    c.seen('quantities', kind, m, n, bool(pars))


def numbers(c):
    """A parameter is its number, with a name."""
    from funpy.vectorspaces import Parameter
    rng = c.rng
    v, w = [float(q) * 10.0 ** int(rng.integers(-3, 4)) for q in rng.standard_normal(2)]
    z = complex(v, w) if rng.random() < .4 else v
    p, q = Parameter(alpha=z), Parameter(alpha=w)
    c.describe('parameters %s %s' % (z, w))
    for name, fn, ref in (('p+q', lambda: p + q, z + w), ('p-q', lambda: p - q, z - w), ('p*q', lambda: p * q, z * w), ('p/q', lambda: p / q, z / w), ('-p', lambda: -p, -z),
                          ('p+2', lambda: p + 2., z + 2), ('3-p', lambda: 3 - p, 3 - z), ('2*p', lambda: 2 * p, 2 * z), ('p**2', lambda: p ** 2, z ** 2), ('abs', lambda: np.abs(p), abs(z)),
                          ('sin', lambda: np.sin(p), np.sin(z)), ('real', lambda: np.real(p), np.real(z)), ('imag', lambda: np.imag(p), np.imag(z)), ('conj', lambda: np.conj(p), np.conj(z)),
                          ('sum', lambda: np.sum(p), z), ('zeros_like', lambda: np.zeros_like(p), 0.), ('ones_like', lambda: np.ones_like(p), 1.)):
        r = c.do('parameter ' + name, fn)
        if not np.isfinite(ref):
            continue
        c.true('parameter %s keeps its name' % name, isinstance(r, Parameter) and r.name == 'alpha')
        c.close('parameter ' + name, np.asarray(r.value), ref, 1e-14, scale=abs(ref) + abs(z) + abs(w))
        c.true('operands of parameter ' + name, p.value == z and q.value == w)
    c.close('product of parameters', [np.dot(p, q), np.inner(p, q)], [z * w, z * w], 1e-15)
    if z == v:
        c.true('number of a parameter', float(p) == v and int(p) == int(v) and np.around(p, 2) == np.around(v, 2))
    r = copy.deepcopy(p)
    for name, op, ref in (('+=', operator.iadd, z + w), ('*=', operator.imul, (z + w) * w), ('-=', operator.isub, (z + w) * w - w), ('/=', operator.itruediv, z + w - 1)):
        r2 = c.do('parameter ' + name, lambda: op(r, q))
        c.true('parameter in place', r2 is r and r.name == 'alpha')
        c.close('parameter ' + name, r.value, ref, 1e-13, scale=(1 + abs(z) + abs(w)) ** 2 / min(1, abs(w)))
    c.true('the original parameter', p.value == z and q.value == w)
    c.true('parameter by name', Parameter.from_real('beta', v).name == 'beta' and Parameter.from_real('beta', v).value == v)
    c.raises('parameter with two names', lambda: Parameter(a=1, b=2))
    c.seen('numbers', np.iscomplexobj(z), round(np.log10(abs(v) + 1e-9)), round(np.log10(abs(w) + 1e-9)))


GROUPS = {'arithmetic': (arithmetic, 1200, 14000), 'inplace': (inplace, 1000, 12000), 'products': (products, 1400, 16000),
          'structure': (structure, 1400, 16000), 'pair': (pair, 480, 4800), 'periodic': (periodic, 1000, 10000),
          'quantities': (quantities, 1200, 12000), 'numbers': (numbers, 400, 4000)}
