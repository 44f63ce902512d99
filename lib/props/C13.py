"""Copies and saved files reproduce the object."""
import copy
import io
import operator
import numpy as np
import gen
from gen import V, inside, domain
from props.C10 import setup as tsetup, size_of

RULE = ('functions (1..600 coefficients, 1..7 columns, random domains and scales), parameters, name spaces and continuation states '
        'are written to HDF5 in memory and read back, copied and deep-copied, and put through their flat coefficient form; the copy '
        'must be the same function with the same attributes and stay what it was when the original changes; distinct by kind, size, columns')


def through(obj, cls, extra=None):
    import h5py
    bio = io.BytesIO()
    with h5py.File(bio, 'w') as fh:
        obj.writeHDF5(fh.create_group('s'))
        if extra is not None:
            extra.writeHDF5(fh.create_group('other'))
    with h5py.File(bio, 'r') as fh:
        return cls.from_hdf5(fh['s'])


def mk(c, big=0.05):
    rng = c.rng
    dom, n, m = domain(rng), gen.size(rng, big), gen.cols(rng)
    sc = float(10.0 ** rng.choice([0, 0, -12, 12, 100]))
    a = gen.coeffs(rng, n, m, scale=sc)
    return dom, a, gen.fun(a, dom)


def same(c, label, g, f, a, dom, exact=True):
    m = a.shape[1]
    c.true(label + ': columns', g.m == m and g.shape[1] == m)
    c.true(label + ': type', g.type == f.type)
    c.true(label + ': domain', np.array_equal(np.array(g.domain, float), np.array(f.domain, float)))
    x = inside(c.rng, dom, 9)
    c.close(label + ': values', V(g, x, m), V(f, x, m), 1e-14 if exact else 1e-9, scale=max(np.max(np.sum(np.abs(a), axis=0)), 1e-300))
    if exact:
        c.true(label + ': coefficients', np.array_equal(np.asarray(g.onefun.coeffs), np.asarray(f.onefun.coeffs)))


def hdf5(c):
    from funpy import Fun
    dom, a, f = mk(c)
    c.describe('hdf5 n=%d m=%d on %s' % (*a.shape, list(dom)))
    other = gen.fun(np.ones((3, 2)), [0, 5])
    eps = float(c.rng.choice([2.2e-16, 1e-12, 1e-8]))
    if c.rng.random() < .3:
        f.onefun.eps = eps
    g = c.do('write and read', lambda: through(f, Fun, other if c.rng.random() < .5 else None), f)
    same(c, 'read back', g, f, a, dom)
    o, q = g.onefun, f.onefun
    c.true('attributes', o.eps == q.eps and o.hscale == q.hscale and o.maxLength == q.maxLength and (bool(o.ishappy) or not bool(q.ishappy)),
           lambda: str([(o.eps, q.eps), (o.hscale, q.hscale), (o.maxLength, q.maxLength), (o.ishappy, q.ishappy)]))
    # what is read back works as an operand
    x = inside(c.rng, dom, 7)
    s = c.do('use', lambda: g + f, g, f)
    S = np.max(np.sum(np.abs(a), axis=0))
    c.close('use of what was read', V(s, x, a.shape[1]), 2 * V(f, x, a.shape[1]), 1e-12, scale=2 * S)
    if a.shape[0] > 1:
        d = c.do('derivative', lambda: np.diff(g), g)
        e = np.diff(f)
        c.close('derivative of what was read', V(d, x, a.shape[1]), V(e, x, a.shape[1]), 1e-13, scale=np.max(np.abs(V(e, x, a.shape[1]))) + 1e-13 * S)
    h = c.do('write and read again', lambda: through(g, Fun), g)
    same(c, 'read back twice', h, f, a, dom)
    c.seen('hdf5', *a.shape)


def deep(c):
    rng = c.rng
    trig = rng.random() < .35
    if trig:
        dom = domain(rng)
        a, _, _ = tsetup(c)
        f = gen.tfun(a, dom)
    else:
        dom, a, f = mk(c)
    m = a.shape[1]
    c.describe('deepcopy n=%d m=%d %s on %s' % (*a.shape, f.type, list(dom)))
    g = c.do('deepcopy', lambda: copy.deepcopy(f), f)
    same(c, 'deep copy', g, f, a, dom, exact=False)
    c.true('a deep copy equals the original', bool(c.do('==', lambda: f == g, f, g)) and not bool(f != g))
    if trig:
        from funpy import Fun
        d0, h, k, p = float(dom[0]), 2 * np.pi / float(dom[-1] - dom[0]), int(rng.integers(1, 20)), float(rng.uniform(0, 3))
        ops = [lambda x: np.cos(k * h * (x - d0) + p), lambda x: np.exp(np.sin(h * (x - d0))), lambda x: np.exp(1j * k * h * (x - d0))]
        ops = [ops[int(j)] for j in rng.permutation(3)[:int(rng.integers(1, 4))]]
        u = c.do('construct', lambda: Fun(op=ops, domain=dom, type='trig'))
        v = c.do('deepcopy', lambda: copy.deepcopy(u), u)
        c.true('a deep copy of a constructed function equals the original', bool(c.do('==', lambda: u == v, u, v)) and not bool(v != u))
        v += 1e-3
        c.true('a changed copy differs', not bool(c.do('==', lambda: u == v, u, v)))
    x = inside(rng, dom, 7)
    F = np.array(V(f, x, m))
    S = size_of(a)
    k = float(rng.uniform(.5, 2)) * S
    tgt, keep = (f, g) if rng.random() < .5 else (g, f)
    r = c.do('change one', lambda: operator.iadd(tgt, k), keep)
    c.close('the other', V(keep, x, m), F, 1e-9, scale=S)
    c.close('the changed one', V(r, x, m), F + k, 1e-9, scale=S + k)
    r = c.do('change one', lambda: operator.imul(tgt, 0.5), keep)
    c.close('the other', V(keep, x, m), F, 1e-9, scale=S)
    lst = [keep, keep]
    cp = c.do('deepcopy of a list', lambda: copy.deepcopy(lst), keep)
    c.true('sharing preserved', cp[0] is cp[1])
    c.close('copy in a list', V(cp[0], x, m), F, 1e-9, scale=S)
    if not trig:
        h = c.do('copy', lambda: np.copy(keep), keep)
        c.close('np.copy', V(h, x, m), F, 1e-9, scale=S)
        c.do('change the copy', lambda: operator.iadd(h, k), keep)
        c.close('original of np.copy', V(keep, x, m), F, 1e-9, scale=S)
    c.seen('deep', f.type, *a.shape)
    # nothing is shared
    p = gen.tfun(a, dom) if trig else gen.fun(a, dom)
    q = c.do('deepcopy', lambda: copy.deepcopy(p), p)
    for name, u, w in [('coefficients', p.onefun.coeffs, q.onefun.coeffs), ('domain', p.domain, q.domain)] + (
            [('values', p.onefun.values, q.onefun.values)] if trig else []):
        c.true('deep copies share no %s' % name, not np.shares_memory(u, w) if isinstance(u, np.ndarray) and isinstance(w, np.ndarray) else u is not w or isinstance(u, tuple))
    c.true('deep copies keep tolerance and scale', q.onefun.eps == p.onefun.eps and q.onefun.hscale == p.onefun.hscale and q.onefun.maxLength == p.onefun.maxLength
           and bool(np.all(q.onefun.ishappy == p.onefun.ishappy)), lambda: str((p.onefun.eps, q.onefun.eps, p.onefun.hscale, q.onefun.hscale)))
    if not trig:
        p.onefun.maxLength = 65
        c.true('deep copies keep the maximal length', copy.deepcopy(p).onefun.maxLength == 65)


def flat(c):
    """Flat coefficient vectors and back, and equality."""
    from funpy import Fun
    dom, a, f = mk(c)
    m = a.shape[1]
    c.describe('flat n=%d m=%d' % a.shape)
    v = c.do('flatten', lambda: f.flatten(), f)
    c.close('flat form', v, a.flatten(order='F'), 0)
    g = c.do('from_coeffs', lambda: Fun.from_coeffs(v, m, domain=dom), f)
    same(c, 'from flat', g, f, a, dom)
    c.true('equal', bool(c.do('==', lambda: f == g, f, g)))
    b = a.copy()
    b[int(c.rng.integers(a.shape[0])), int(c.rng.integers(m))] += np.max(np.abs(a))
    c.true('not equal to another function', not bool(c.do('==', lambda: f == gen.fun(b, dom), f)))
    hs = c.do('hstack', lambda: np.hstack([f, g]), f, g)
    x = inside(c.rng, dom, 7)
    c.close('hstack', V(hs, x, 2 * m), np.hstack([V(f, x, m)] * 2), 1e-12, scale=size_of(a))
    parts = c.do('iterate', lambda: [q for q in f], f)
    c.true('as many columns', len(parts) == m, lambda: '%d of %d' % (len(parts), m))
    whole = c.do('hstack of the columns', lambda: np.hstack(parts), f)
    same(c, 'columns put together', whole, f, a, dom)
    c.true('columns put together equal', bool(whole == f))
    c.true('copy equal', bool(c.do('==', lambda: copy.deepcopy(f) == f, f)) and not bool(f != g))
    far = gen.fun(a, [float(dom[0]) + 1, float(dom[-1]) + 1])
    c.true('not equal on another domain', not bool(c.do('==', lambda: f == far, f, far)))
    c.seen('flat', *a.shape)


def states(c):
    from funpy.vectorspaces import ContinuationState, Parameter, Namespace
    rng = c.rng
    dom, a, f = mk(c)
    lam = float(rng.standard_normal() * 10.0 ** rng.integers(-5, 5))
    pars = {k: float(rng.standard_normal()) for k in rng.choice(['q', 'mu', 'beta', 'D'], int(rng.integers(0, 4)), replace=False)}
    name = str(rng.choice(['lam', 'alpha', 'a']))
    c.describe('state n=%d m=%d %s=%g %s' % (*a.shape, name, lam, pars))
    s = c.do('ContinuationState', lambda: ContinuationState(a=Parameter(**{name: lam}), u=f, **pars), f)
    if rng.random() < .5:
        s.weights = np.array([2.0, 0.5])
    t = c.do('write and read', lambda: through(s, ContinuationState), s)
    same(c, 'state function', t.u, f, a, dom)
    c.close('state parameter', t.a, lam, 0)
    c.true('parameter name', t.cpar == name)
    c.true('other parameters', dict(t.items()) == dict(pars, **{name: lam}) == dict(s.items()), lambda: '%s %s' % (dict(t.items()), dict(s.items())))
    c.close('weights', t.weights, s.weights, 0)
    d = c.do('deepcopy', lambda: copy.deepcopy(s), s)
    same(c, 'copied state function', d.u, f, a, dom, exact=False)
    c.true('copied parameters', dict(d.items()) == dict(s.items()) and d.cpar == name)
    c.close('copied weights', d.weights, s.weights, 0)
    x = inside(rng, dom, 7)
    c.do('change the copy', lambda: operator.imul(d, 2.0), s)
    d['q2'] = Parameter(q2=1.0)
    c.true('original keeps its parameters', dict(s.items()) == dict(pars, **{name: lam}))
    c.close('changed copy', V(d.u, x, a.shape[1]), 2 * V(s.u, x, a.shape[1]), 1e-9, scale=2 * size_of(a))
    c.close('changed copy parameter', float(d.a), 2 * lam, 1e-15)
    p = Parameter(**{name: lam})
    q = c.do('parameter', lambda: through(p, Parameter))
    c.true('parameter read back', q.name == name and float(q) == lam)
    q = copy.deepcopy(p)
    q += 1.0
    c.true('parameter copied', p.name == name and float(p) == lam and abs(float(q) - lam - 1) < 1e-12 * (1 + abs(lam)))
    ns = Namespace(**pars)
    r = c.do('namespace', lambda: through(ns, Namespace))
    c.true('namespace read back', dict(r) == pars, lambda: '%s %s' % (dict(r), pars))
    c.seen('states', *a.shape, len(pars))


FIELDS = ('function_names', 'operator_names', 'kernels', 'parameter_names', 'colloc', 'colloc_type', 'domain', 'ftype', 'n_disc', 'n_min', 'eqn', 'cts', 'bcs',
          'cpar', 'eps', 'lin_tol', 'diffOrder', 'linear', 'debug', 'solver_debug')


def operators(c):
    """An operator copied or read back is the same equation, and its own object."""
    import contextlib
    import h5py
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    per = bool(rng.random() < .3)
    a, b = [(-1.0, 1.0), (0.0, 2.0), (-2.0, .5)][int(rng.integers(3))]
    m = int(rng.choice([1, 1, 2]))
    names = ['u', 'v'][:m]
    G = [['-p*u', '+ u**2', '- p*u**3', '+ q*diff(u, x)', '+ sin(u)'][int(k)] for k in rng.integers(0, 5, 2)]
    eqn = ['diff(%s, x, 2) %s %s + q' % (w, *[g.replace('u', names[int(rng.integers(m))] if g != '+ sin(u)' else 'u') for g in G]) for w in names]
    bcs = [] if per else [t for w in names for t in ('%s(%r) - 1' % (w, a), '%s(%r)' % (w, b))]
    pars = dict(p=float(np.round(rng.uniform(.5, 2), 3)), q=float(np.round(rng.uniform(-1, 1), 3)))
    n = int(rng.integers(9, 60))
    kw = dict(functions=list(names), parameters=dict(pars), domain=[a, b], diff_order=2, n=n, colloc='trigspec' if per else 'ultraS')
    if rng.random() < .4:
        kw['cpar'] = ['p']
    if rng.random() < .4:
        kw['eps'] = 1e-11
    for k, v in (('operators', ['K']), ('kernels', ['w'])):
        if rng.random() < .25:
            kw[k] = v
    local = not (kw.get('operators') or kw.get('kernels'))
    c.describe('operator %s %s on %s n=%d %s' % (eqn, bcs, [a, b], n, sorted(kw)))
    op = ChebOp(**kw)
    op.eqn, op.bcs = list(eqn), list(bcs)
    d = c.do('deepcopy', lambda: copy.deepcopy(op))
    bio = io.BytesIO()

    def read():
        with h5py.File(bio, 'w') as fh:
            op.writeHDF5(fh)
        o = ChebOp()
        with h5py.File(bio, 'r') as fh:
            o.readHDF5(fh['ChebOp'])
        return o
    r = c.do('write and read', read)
    for label, o in (('copied', d), ('read back', r)):
        for k in FIELDS:
            A, B = getattr(op, k), getattr(o, k)
            c.true('%s operator: %s' % (label, k), A == B if not isinstance(A, np.ndarray) else np.array_equal(A, B), lambda: '%s became %s' % (A, B))
    # the copies are their own objects
    op.eqn[0] = 'diff(u, x, 2) - 5'
    op.parameter_names['p'] = 77.0
    op.bcs.append('u(%r)' % b)
    op.domain[0] = a - 9
    for label, o in (('copied', d), ('read back', r)):
        c.true('%s operator is its own' % label, o.eqn == eqn and o.bcs == bcs and dict(o.parameter_names) == pars and list(o.domain) == [a, b])
    if local:
        ck = rng.standard_normal((5, m)) * .5 ** np.arange(5)[:, None]
        w = (Fun(op=[(lambda t, j=j: ck[0, j] + ck[1, j] * np.cos(2 * np.pi * (t - a) / (b - a))) for j in range(m)], type='trig', domain=[a, b]) if per
             else Fun(coeffs=np.asfortranarray(ck), domain=[a, b]))
        val = []
        op = ChebOp(**kw)
        op.eqn, op.bcs = list(eqn), list(bcs)
        op.domain = [a, b]
        op.parameter_names = dict(pars)
        N = 33

        def run(o):
            with contextlib.redirect_stdout(io.StringIO()):
                o.compile(ftype='trig' if per else 'cheb')
                st = DeflationState(u=w, **pars).prolong(N)
                o.linSys.setParameters(st)
                z = o(st)
                return V(z, np.linspace(a, b, 7)[1:-1], m), np.array(o.linSys.cts_res, float).ravel() if bcs else np.zeros(0)
        for o in (op, d, r):
            val.append(c.do('apply', lambda: run(o), w))
        for label, (z, k) in (('copied', val[1]), ('read back', val[2])):
            c.close('%s operator acts the same' % label, z, val[0][0], 1e-12, scale=np.max(np.abs(val[0][0])) + 1)
            c.close('%s conditions' % label, k, val[0][1], 1e-12, scale=1)
    c.seen('operator', per, m, len(bcs), *G, 'cpar' in kw, local)


GROUPS = {'hdf5': (hdf5, 2000, 16000), 'deep': (deep, 2500, 24000), 'flat': (flat, 2000, 16000), 'states': (states, 1250, 10000), 'operators': (operators, 60, 900)}
