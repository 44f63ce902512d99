"""Symbolic compilation: residual, linearisation and parameter derivatives of an equation are those of the equation as written."""
import contextlib
import io
import numpy as np
from numpy.polynomial import chebyshev as C
import gen
from gen import V

RULE = ('equations for one to three functions, order 1..4, made of 1..4 random terms (numbers, positive parameters, functions of x and named '
        'constant functions times powers, elementary functions, rational functions, derivatives, fluxes diff(f*diff(g)) and integrals of the '
        'unknowns), Chebyshev and periodic, on random domains, compiled at one set of parameter values and re-evaluated at another; residual, '
        'coefficients of the linearisation applied to random directions, parameter derivatives and the discretised matrix are compared '
        'with complex-step derivatives of an independent evaluation of the same equation; distinct by kind, term kinds, functions')
ASSUMPTIONS = ['parameters are positive (the library declares them so)', 'periodic functions are resolved to 1e-10: 1e-7 allowed']
CASE_CPU = 240.0


class Jet:
    """A function known with its derivatives at the sample points (columns k = 0..K), complex for the complex step."""
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]


def quad(npts=200):
    return np.polynomial.legendre.leggauss(npts)


# every factor: (text, value(env), uses)
def factor(rng, names, ctx):
    f = names[int(rng.integers(len(names)))]
    g = names[int(rng.integers(len(names)))]
    k = int(rng.integers(16))
    if k <= 2:
        return f, lambda e: e[f][0], 'f'
    if k == 3:
        return '%s**2' % f, lambda e: e[f][0] ** 2, 'f2'
    if k == 4:
        return '%s**3' % f, lambda e: e[f][0] ** 3, 'f3'
    if k == 5:
        return 'diff(%s, x)' % f, lambda e: e[f][1], 'df'
    if k == 6:
        return 'diff(%s, x, 2)' % f, lambda e: e[f][2], 'd2f'
    if k == 7:
        return 'diff(%s, x)**2' % f, lambda e: e[f][1] ** 2, 'df2'
    if k == 8:
        return 'diff(%s*diff(%s, x), x)' % (f, g), lambda e: e[f][1] * e[g][1] + e[f][0] * e[g][2], 'flux'
    if k == 9:
        return 'sin(%s)' % f, lambda e: np.sin(e[f][0]), 'sin'
    if k == 10:
        return 'exp(%s)' % f, lambda e: np.exp(e[f][0]), 'exp'
    if k == 11:
        return '1/(2 + %s**2)' % f, lambda e: 1 / (2 + e[f][0] ** 2), 'rational'
    if k == 12:
        return '%s*%s' % (f, g), lambda e: e[f][0] * e[g][0], 'fg'
    if k == 13:
        return '%s*diff(%s, x)' % (f, g), lambda e: e[f][0] * e[g][1], 'f dg'
    if k == 14:
        return 'diff(%s**2, x, 2)' % f, lambda e: 2 * (e[f][1] ** 2 + e[f][0] * e[f][2]), 'd2(f2)'
    return 'cos(b*%s)' % f, lambda e: np.cos(e['b'] * e[f][0]), 'cos bf'


def coefficient(rng, kind, dom):
    k = int(rng.integers(9))
    w = 2 * np.pi / (dom[1] - dom[0])
    if k <= 1:
        v = float(np.round(rng.uniform(-3, 3), 2)) or 1.0
        return '(%r)*' % v, lambda e: v, 'number'
    if k == 2:
        return '', lambda e: 1.0, 'one'
    if k == 3:
        return 'a*', lambda e: e['a'], 'a'
    if k == 4:
        return '(-b**2)*', lambda e: -e['b'] ** 2, 'b2'
    if k == 5:
        return '(a*b + 1)*', lambda e: e['a'] * e['b'] + 1, 'ab'
    if kind == 'cheb':
        if k == 6:
            return 'x*', lambda e: e['x'], 'x'
        if k == 7:
            return '(1 + a*x**2)*', lambda e: 1 + e['a'] * e['x'] ** 2, 'ax2'
        return 'w0*', lambda e: np.cos(e['x']), 'constant function'
    if k == 6:
        return 'cos(%.17g*x)*' % w, lambda e: np.cos(w * e['x']), 'cos'
    return 'a*(2 + sin(%.17g*x))*' % w, lambda e: e['a'] * (2 + np.sin(w * e['x'])), 'a sin'


def integral(rng, names, kind, dom):
    """A term with a definite integral over the domain."""
    w = 2 * np.pi / (dom[1] - dom[0])
    X, XV = ('x', lambda z: z) if kind == 'cheb' else ('cos(%.17g*x)' % w, lambda z: np.cos(w * z))
    f = names[int(rng.integers(len(names)))]
    g = names[int(rng.integers(len(names)))]
    k = int(rng.integers(9))
    I = lambda e, v: e['int'](v)
    if k == 0:
        return 'int(%s, x)' % f, lambda e: I(e, lambda q: q[f]), 'I f'
    if k == 1:
        return 'a*int(%s*%s, x)' % (X, f), lambda e: e['a'] * I(e, lambda q: XV(q['x']) * q[f]), 'I xf'
    if k == 2:
        return '%s*int(%s**2, x)' % (X, f), lambda e: XV(e['x']) * I(e, lambda q: q[f] ** 2), 'x I f2'
    if k == 3:
        return '%s*int(%s**2, x)' % (f, g), lambda e: e[f][0] * I(e, lambda q: q[g] ** 2), 'f I g2'
    if k == 4:
        return 'diff(%s, x)*int(%s*%s, x)' % (f, f, g), lambda e: e[f][1] * I(e, lambda q: q[f] * q[g]), 'df I fg'
    if k == 5:
        return '%s**2*int(%s, x)' % (f, g), lambda e: e[f][0] ** 2 * I(e, lambda q: q[g]), 'f2 I'
    if k == 6:
        return 'int(sin(%s), x)' % f, lambda e: I(e, lambda q: np.sin(q[f])), 'I sin'
    if k == 7:
        return 'exp(int(%s, x)/20)' % f, lambda e: np.exp(I(e, lambda q: q[f]) / 20), 'exp I'
    return 'b*int(%s*%s**2, x)' % (f, g), lambda e: e['b'] * I(e, lambda q: q[f] * q[g] ** 2), 'I fg2'


def equation(rng, names, kind, dom, lead, ints=True):
    texts, vals, tags = [], [], []
    for _ in range(int(rng.integers(1, 4))):
        ct, cv, cn = coefficient(rng, kind, dom)
        if ints and rng.random() < .22:
            ft, fv, fn = integral(rng, names, kind, dom)
        else:
            ft, fv, fn = factor(rng, names, dom)
        if fn == 'rational' and kind == 'trig' and cn in ('cos', 'a sin'):
            ct, cv, cn = 'b*', (lambda e: e['b']), 'b'      # division of a Chebyshev by a periodic function is not offered
        texts.append(ct + ft)
        vals.append(lambda e, cv=cv, fv=fv: cv(e) * fv(e))
        tags.append((cn, fn))
    f, order = lead
    texts.insert(int(rng.integers(len(texts) + 1)), 'a*diff(%s, x, %d)' % (f, order) if order > 1 else 'a*diff(%s, x)' % f)
    vals.append(lambda e: e['a'] * e[f][order])
    tags.append('lead %d' % order)
    if rng.random() < .2:
        texts.append('b')
        vals.append(lambda e: e['b'] + 0 * e['x'])
    return ' + '.join(texts), (lambda e: sum(v(e) for v in vals)), tags


class Space:
    """Random smooth functions known exactly: Chebyshev polynomials or trigonometric polynomials of the domain."""
    def __init__(self, rng, kind, dom, deg=6):
        self.kind, self.dom = kind, dom
        self.h = 2 / (dom[1] - dom[0])
        if kind == 'cheb':
            self.c = .4 * rng.standard_normal(deg) / (1 + np.arange(deg))
        else:
            self.k = np.arange(0, 3)
            self.a = .3 * rng.standard_normal(3) / (1 + self.k)
            self.b = .3 * rng.standard_normal(3) / (1 + self.k)

    def at(self, x, k=0):
        t = (2 * x - self.dom[0] - self.dom[1]) * self.h / 2
        if self.kind == 'cheb':
            d = C.chebder(self.c, k) if k else self.c
            return C.chebval(t, d) * self.h ** k if d.size else 0 * t
        th = np.pi * np.multiply.outer(t, self.k) + k * np.pi / 2
        return ((np.cos(th) @ (self.a * self.k ** k if k else self.a) + np.sin(th) @ (self.b * self.k ** k if k else self.b))
                * (np.pi * self.h) ** k)


def environment(names, funs, dirs, eps, x, pars, dom, q):
    """Jets at x of f + i eps p, and the integration rule."""
    e = {'x': x}
    for n, f, p in zip(names, funs, dirs):
        e[n] = Jet([f.at(x, k) + (1j * eps * p.at(x, k) if p is not None else 0) for k in range(7)])
    e.update(pars)
    z, w = q
    xs = .5 * (dom[0] + dom[1]) + .5 * (dom[1] - dom[0]) * z

    def integ(v):
        m = {'x': xs}
        for n, f, p in zip(names, funs, dirs):
            m[n] = f.at(xs) + (1j * eps * p.at(xs) if p is not None else 0)
        return np.sum(w * v(m)) * .5 * (dom[1] - dom[0])
    e['int'] = integ
    return e


def library_fun(fs, kind, dom):
    from funpy import Fun
    if kind == 'cheb':
        n = max(len(f.c) for f in fs)
        return Fun(coeffs=np.asfortranarray(np.stack([np.r_[f.c, np.zeros(n - len(f.c))] for f in fs], axis=1)), domain=dom)
    return Fun(op=[f.at for f in fs], type='trig', domain=dom)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def build(c, kind, m, ints=True, low=1):
    from funpy.colloc import ChebOp
    rng = c.rng
    names = ['u', 'v', 'w'][:m]
    dom = [[-1., 1.], [0., 2.], [-.5, 1.], [1., 4.], [-np.pi, np.pi], [0., 1.]][int(rng.integers(6))]
    order = int(rng.choice([low, 2, 2, 2, 3, 4])) if m == 1 else int(rng.choice([1, 2, 2]))
    eqs = [equation(rng, names, kind, dom, (names[i], order), ints) for i in range(m)]
    pars = {'a': float(np.round(rng.uniform(.5, 2), 3)), 'b': float(np.round(rng.uniform(.5, 2), 3))}
    cts = []
    if ints and rng.random() < .2:
        # conditions such as a prescribed mass act as terms added to the equations
        for i in range(m):
            if m > 1 and rng.random() < .3:
                cts.append('')
                continue
            f, g = names[i], names[int(rng.integers(m))]
            t, v = [('int(%s, x) - 3' % f, lambda e, f=f: e['int'](lambda q: q[f]) - 3),
                    ('int(%s, x) - b' % f, lambda e, f=f: e['int'](lambda q: q[f]) - e['b']),
                    ('a*int(%s*%s, x)' % (f, g), lambda e, f=f, g=g: e['a'] * e['int'](lambda q: q[f] * q[g])),
                    ('int(%s, x) + 2*int(%s**2, x) - 1' % (f, g), lambda e, f=f, g=g: e['int'](lambda q: q[f]) + 2 * e['int'](lambda q: q[g] ** 2) - 1)][int(rng.integers(4))]
            cts.append(t)
            eqs[i] = (eqs[i][0], (lambda e, v=v, w=eqs[i][1]: w(e) + v(e)), eqs[i][2])
    c.describe('%s %s on %s, %s%s' % (kind, '; '.join(e[0] for e in eqs), dom, pars, ' with %s' % cts if cts else ''))

    def make(par=True):
        op = ChebOp(functions=list(names), n=15, domain=list(dom), diff_order=order, colloc='ultraS' if kind == 'cheb' else 'trigspec',
                    parameters=dict(pars), constant_functions={'w0': 'lambda x: np.cos(x)'} if kind == 'cheb' else {})
        op.eqn = [e[0] for e in eqs]
        if cts:
            op.cts = list(cts)
        op.cpar = ['a', 'b'] if par else []
        return op
    return names, dom, order, eqs, pars, make


def action(c, blk, p, x, q, dom):
    """A block of the linearisation applied to a direction; its values and their size."""
    info = np.asarray(blk.info())
    got, size = np.zeros_like(x), 0.0
    for k, f in enumerate(blk.getCoeffs()):
        v = c.do('coefficient', lambda: V(f, x, 1))[:, 0].real
        if not info[k]:
            c.true('terms marked absent are zero', np.max(np.abs(v)) == 0)
            continue
        got = got + v * p.at(x, k)
        size = max(size, np.max(np.abs(v)) * np.max(np.abs(p.at(x, k))))
    if info[-1] and blk.icoeffs is not None:
        z, w = q
        xs = .5 * (dom[0] + dom[1]) + .5 * (dom[1] - dom[0]) * z
        for a, b in zip(blk.icoeffs, blk.integrand):
            vb = c.do('integrand', lambda: V(b, xs, 1))[:, 0].real
            va = c.do('integral coefficient', lambda: V(a, x, 1))[:, 0].real
            got = got + va * np.sum(w * vb * p.at(xs)) * .5 * (dom[1] - dom[0])
            size = max(size, np.max(np.abs(va)) * np.max(np.abs(vb)) * (dom[1] - dom[0]))
    return got, size


def algebra(c):
    """Linearisations can be added, subtracted, negated and scaled like the operators they are."""
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    kind = 'cheb' if rng.random() < .8 else 'trig'
    m = int(rng.choice([1, 1, 2]))
    names, dom, order, eqs, pars, make = build(c, kind, m)
    op = make()
    op.cpar = ['a']
    c.do('compile', lambda: quiet(op.compile, ftype=kind, par=True))
    ls = op.linSys
    q = quad()
    x = np.linspace(dom[0], dom[1], 17)
    ops, acts, ps = [], [], [Space(rng, kind, dom) for _ in names]

    def table(qo):
        r = [[action(c, qo[i, j], ps[j], x, q, dom) for j in range(m)] for i in range(m)]
        return np.array([[b[0] for b in a] for a in r]), max(b[1] for a in r for b in a)
    for _ in range(2):
        u = library_fun([Space(rng, kind, dom) for _ in names], kind, dom)
        st = quiet(DeflationState, u=u, **pars).prolong(120)
        quiet(ls.setParameters, st)
        ops.append(c.do('linearise', lambda: quiet(ls.quasi, st)))
        acts.append(table(ops[-1]))
    (A, B), ((a, sa), (b, sb)) = ops, acts
    k = float(np.round(rng.uniform(-3, 3), 2))
    S = (sa + sb) * (1 + abs(k)) + 1e-300
    for name, fn, want in (('negative', lambda: -A, -a), ('sum', lambda: A + B, a + b), ('difference', lambda: A - B, a - b), ('positive', lambda: +A, a),
                           ('multiple', lambda: A * k, a * k), ('multiple from the left', lambda: k * A, a * k),
                           ('combination', lambda: -(A - 2 * B) + A, 2 * b), ('sum of three', lambda: A + B + A, 2 * a + b)):
        r = c.do(name, fn)
        got, _ = table(r)
        c.close('%s of operators' % name, got, want, 1e-9, scale=S)
    for o, w in zip(ops, (a, b)):
        c.close('operands', table(o)[0], w, 1e-13, scale=S)
    c.seen('algebra', kind, m, order, str(eqs[0][2][:2]))


def second(c):
    """The action of the linearisation, of the second derivative and of the parameter derivative of the linearisation."""
    from funpy.colloc.bilinearForm import bilinearForm
    rng = c.rng
    kind = 'cheb' if rng.random() < .7 else 'trig'
    m = int(rng.choice([1, 1, 2, 3]))
    names, dom, order, eqs, pars, make = build(c, kind, m, ints=False)
    op = make()
    cpar = str(rng.choice(['a', 'b']))
    op.cpar = [cpar]
    c.do('compile', lambda: quiet(op.compile, ftype=kind, par=True, fold=True))
    src, ls = op.source, op.linSys
    x = np.linspace(dom[0], dom[1], 23)
    fs, ps, rs = ([Space(rng, kind, dom) for _ in names] for _ in range(3))
    u, p, r = (library_fun(f, kind, dom) for f in (fs, ps, rs))
    H = 1e-40

    def ref(move=0., par=0.):
        """Derivative of every equation in the direction p at u + move r, with the parameter moved."""
        class Moved:
            def __init__(self, f, g):
                self.f, self.g = f, g

            def at(self, y, k=0):
                return self.f.at(y, k) + move * self.g.at(y, k)
        pv = dict(pars)
        pv[cpar] += par
        e = environment(names, [Moved(f, g) for f, g in zip(fs, rs)], ps, H, x, pv, dom, quad())
        return np.stack([np.broadcast_to(q[1](e), x.shape).imag / H for q in eqs], axis=1)

    def slope(f, h=.02):
        # eighth order central differences
        return (4 / 5 * (f(h) - f(-h)) - 1 / 5 * (f(2 * h) - f(-2 * h)) + 4 / 105 * (f(3 * h) - f(-3 * h)) - 1 / 280 * (f(4 * h) - f(-4 * h))) / h
    mag = 10 + 4 * max(np.max(np.abs(f.at(x, k))) for s in (fs, ps, rs) for f in s for k in range(order + 1))
    for name, fn, args, want, tol in (('action of the linearisation', src.deqn, (u, p), ref(), 1e-11),
                                      ('second derivative', src.ddeqn, (u, p, r), slope(lambda t: ref(move=t)), 1e-9),
                                      ('second derivative, directions exchanged', src.ddeqn, (u, r, p), slope(lambda t: ref(move=t)), 1e-9),
                                      ('parameter derivative of the linearisation', src.dxdp[cpar], (u, p), slope(lambda t: ref(par=t)), 1e-9)):
        B = bilinearForm(ls.ns, n_disc=15)
        B.build(fn, m)
        c.true('%s has all equations' % name, len(B.functions) == m)
        third = args[2] if len(args) > 2 else []
        if kind == 'cheb':
            got = V(c.do(name, lambda: quiet(B, args[0], args[1], third), *args), x, m)
        else:       # periodic functions are not stacked by the library
            got = np.hstack([V(c.do(name, lambda: quiet(g, *args[0], *args[1], *third), *args), x, 1) for g in B.functions])
        c.close(name, got.real, want, tol, scale=max(mag, np.max(np.abs(want))) * (1 if kind == 'cheb' else 10))
    c.seen('second', kind, m, order, str(eqs[0][2][:2]))


def linear(c):
    """Residual, linearisation and parameter derivatives."""
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    kind = 'cheb' if rng.random() < .6 else 'trig'
    m = int(rng.choice([1, 1, 2, 2, 3]))
    names, dom, order, eqs, pars, make = build(c, kind, m)
    op = make()
    op.cpar = ['a']
    c.do('compile', lambda: quiet(op.compile, ftype=kind, par=True))
    ls = op.linSys
    q = quad()
    x = np.linspace(dom[0], dom[1], 23)
    tol = 1e-12 if kind == 'cheb' else 1e-11
    H = 1e-40
    for rep in range(2):
        if rep:
            pars = {'a': float(np.round(rng.uniform(.5, 2), 3)), 'b': float(np.round(rng.uniform(.5, 2), 3))}
        fs = [Space(rng, kind, dom) for _ in names]
        u = library_fun(fs, kind, dom)
        st = quiet(DeflationState, u=u, **pars).prolong(120)
        quiet(ls.setParameters, st)
        keep = [np.array(f.coeffs) for f in st.funcs]

        def kept(what):
            for f, k in zip(st.funcs, keep):
                a = np.asarray(f.coeffs)
                c.true('the state after the %s' % what, a.shape == k.shape and np.array_equal(a, k), lambda: '%s -> %s' % (k.shape, a.shape))
        env = environment(names, fs, [None] * m, 0, x, pars, dom, q)
        ref = np.stack([np.broadcast_to(e[1](env), x.shape).real for e in eqs], axis=1)
        mag = 10 + 4 * max(np.max(np.abs(f.at(x, k))) for f in fs for k in range(order + 1))
        r = c.do('residual', lambda: quiet(op, st))
        c.close('residual', V(r, x, m), ref, tol, scale=max(mag, np.max(np.abs(ref))))
        kept('residual')
        ek = {} if rng.random() < .7 else dict(eps=1e-15)
        qo = c.do('linearise', lambda: quiet(ls.quasi, st, **ek))
        kept('linearisation')
        c.true('shape of the linearisation', qo.shape == (m, m), str(qo.shape))
        for i in range(m):
            for j in range(m):
                p = Space(rng, kind, dom)
                dirs = [p if k == j else None for k in range(m)]
                e = environment(names, fs, dirs, H, x, pars, dom, q)
                want = np.broadcast_to(eqs[i][1](e), x.shape).imag / H
                got, size = action(c, qo[i, j], p, x, q, dom)
                c.close('derivative of equation %d in function %d' % (i, j), got, want, tol, scale=max(size, mag))
        if kind == 'cheb':
            e = dict(env)
            e['a'] = pars['a'] + 1j * H
            want = np.stack([np.broadcast_to(q_[1](e), x.shape).imag / H for q_ in eqs], axis=1)
            ku = np.array(u.coeffs)
            d = c.do('parameter derivative', lambda: quiet(ls.pDer, u, 'a'), u)
            c.close('function after the parameter derivative', u.coeffs, ku, 0)
            d = c.do('parameter derivative', lambda: quiet(ls.pDer, st.u, 'a'))
            kept('parameter derivative')
            c.close('parameter derivative', V(d, x, m), want, tol, scale=max(mag, np.max(np.abs(want))))
    c.seen(kind, m, order, str(eqs[0][2][:2]))


def matrix(c):
    """The matrix handed to the linear solver is the linearisation acting on coefficients."""
    from funpy import Fun
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    kind = 'cheb' if rng.random() < .5 else 'trig'
    m = int(rng.choice([1, 1, 2, 3])) if kind == 'cheb' else int(rng.choice([1, 2, 2, 3]))
    names, dom, order, eqs, pars, make = build(c, kind, m, low=2)
    n = int(rng.choice([64, 81, 96])) if kind == 'cheb' else int(rng.choice([63, 64, 81, 96]))
    fs = [Space(rng, kind, dom) for _ in names]
    ps = [Space(rng, kind, dom) for _ in names]
    x = np.linspace(dom[0], dom[1], 33)
    q = quad()
    H = 1e-40
    e = environment(names, fs, ps, H, x, pars, dom, q)
    want = np.stack([np.broadcast_to(q_[1](e), x.shape).imag / H for q_ in eqs], axis=1)

    def run():
        op = make(False)
        op.n_disc = n
        if kind == 'cheb':
            op.bcs = [v.replace('u', nm) for nm in names for v in ('u(%r)' % dom[0], 'u(%r)' % dom[1], 'np.diff(u)(%r)' % dom[0], 'np.diff(u)(%r)' % dom[1])[:order]]
        op.setDisc(n)
        s = NewtonSystem(DeflationState(u=library_fun(fs, kind, dom), **pars).prolong(n), op)
        A = s.matrix()[0].to_matrix()
        return (A.toarray() if hasattr(A, 'toarray') else np.asarray(A)), op.diffOrder
    A, top = c.do('discretise', lambda: quiet(run))
    big = max(1.0, np.max(np.abs(want)), max(np.max(np.abs(p.at(x, k))) for p in ps for k in range(order + 1)) * 8)
    if kind == 'cheb':
        from props.C15 import geg
        cc = np.concatenate([np.r_[p.c, np.zeros(n - len(p.c))] for p in ps])
        c.true('rows', A.shape == (n * m, n * m) or top != order, str(A.shape))
        if top != order:
            # the extra conditions are missing: a rectangular problem
            c.seen('rectangular', top, order)
            return
        y = A @ cc
        t = (2 * x - dom[0] - dom[1]) / (dom[1] - dom[0])
        bc = np.array([float(p.at(np.array([dom[v % 2]], float), v // 2)[0]) for p in ps for v in range(order)])
        c.close('conditions', y[:m * order].real, bc, 1e-11, scale=big)
        for i in range(m):
            z = y[m * order + i * (n - order):m * order + (i + 1) * (n - order)]
            got, s = geg(np.r_[z, np.zeros(order)], order, t)
            c.close('matrix times direction', got, want[:, i], 1e-11, scale=max(s, big))
    else:
        ks = np.arange(-(n // 2), (n + 1) // 2)
        t = (2 * x - dom[0] - dom[1]) / (dom[1] - dom[0])
        E = np.exp(1j * np.pi * np.outer(t, ks))
        z = np.zeros(n * m, complex)
        for j, p in enumerate(ps):
            for k, a, b in zip(p.k, p.a, p.b):
                if k == 0:
                    z[j * n + n // 2] += a
                else:
                    z[j * n + n // 2 + k] += .5 * a - .5j * b
                    z[j * n + n // 2 - k] += .5 * a + .5j * b
        c.true('rows', A.shape == (n * m, n * m), str(A.shape))
        y = A @ z
        got = np.stack([E @ y[i * n:(i + 1) * n] for i in range(m)], axis=1)
        c.close('matrix times direction', got, want, 1e-9, scale=big)
    c.seen('matrix', kind, m, order, n)


GROUPS = {'linear': (linear, 150, 2000), 'matrix': (matrix, 100, 1200), 'algebra': (algebra, 40, 600), 'second': (second, 60, 900)}
