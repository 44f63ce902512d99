"""A boundary value problem reported as solved is solved."""
import contextlib
import io
import warnings
import numpy as np
import gen
from gen import V

RULE = ('scalar boundary value problems of order 1..3 with manufactured solutions: variable coefficients, monotone nonlinearities, parameters, '
        'Dirichlet, Neumann, Robin and interior conditions, random domains, starting guesses and discretization sizes, Chebyshev and Fourier; '
        'what the solver reports is compared with the exact solution; distinct by order, coefficients, nonlinearity, conditions, size, domain')
CASE_CPU = 240.0


def solve(make, *args, **kw):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return make(*args, **kw)


def attempt(op, u0, kw, nonlinear):
    """A direct method may meet a singular linearization on the way to a nonlinear solution: that is a reported failure."""
    try:
        return op.solve(u0, **kw)
    except RuntimeError as e:
        if nonlinear and 'singular' in str(e):
            return None, False, np.inf
        raise


def solver(rng):
    r = rng.random()
    if r < .4:
        return {}
    return dict(method=str(rng.choice(['giant', 'nleq', 'nleq-err', 'qnerr', 'lu'])), linear_solver='lu')


def domains(rng):
    return [float(v) for v in [[-1, 1], [-1, 1], [0, 1], [0, 2], [-np.pi / 2, np.pi / 2], [1, 3], [-2, .5], [-.25, .5], [2, 3]][int(rng.integers(9))]]


SOL = ['sin(%s*x + 1)', 'exp(%s*x/2)', 'cos(%s*x)', '1/(2 + x**2) + %s', 'x**3 - %s*x', '%s', 'x*cos(x) + %s', 'exp(-x**2) - %s', 'sin(%s*x)*exp(x/3)']


def exact(rng):
    import sympy as sp
    k = ['1', '2', '3', '1/2', '5'][int(rng.integers(5))]
    return sp.sympify(SOL[int(rng.integers(len(SOL)))] % k), k


def num(expr):
    import sympy as sp
    x = sp.Symbol('x')
    f = sp.lambdify(x, expr, 'numpy')
    return lambda t: np.asarray(f(np.asarray(t, float)) + 0 * np.asarray(t, float), float)


def bvp(c):
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    rng = c.rng
    x = sp.Symbol('x')
    order = int(rng.choice([1, 2, 2, 2, 2, 3]))
    dom = domains(rng)
    a, b = dom
    ue, ksol = exact(rng)
    f = num(ue)
    d = [num(sp.diff(ue, x, j)) for j in range(4)]
    A = ['1', '2', '(1 + x**2/2)', 'exp(x/4)', '(3 + sin(x))', 'A0'][int(rng.integers(6))]
    B = ['0', '0', '1/2', 'sin(x)', 'x/3', 'cos(2*x)', 'A1*x'][int(rng.integers(7))]
    # monotone zeroth order part: unique solvability by the maximum principle
    if order == 2:
        G = ['0', '-u', '-(2 + x)*u' if a > -2.1 else '-u', '-exp(x)*u', '-u**3', '-exp(u)', '-u - sin(u)/2', '-u**3 - u', '-A2*u', '-A2*u**3'][int(rng.integers(10))]
    elif order == 1:
        G = ['0', 'u', '-u/2', 'x*u', 'cos(x)*u', 'sin(u)', 'u + u**3', 'A2*u'][int(rng.integers(8))]
    else:
        G = ['0', 'u/4', '-u/3', 'x*u/4'][int(rng.integers(4))]
        B = ['0', '1/4', '-1/5'][int(rng.integers(3))]
    if G == '-exp(u)' and np.max(np.abs(f(np.linspace(a, b, 50)))) > 4:
        G = '-u'
    pars = dict(A0=float(rng.uniform(.5, 2)), A1=float(rng.uniform(-1, 1)), A2=float(rng.uniform(.2, 3)))
    used = {k: v for k, v in pars.items() if k in A + B + G}
    S = lambda t: sp.sympify(t, locals=dict(u=ue, x=x)).subs({sp.Symbol(k): sp.Float(v, 17) for k, v in pars.items()})
    lead = sp.diff(ue, x, order)
    rhs = S(A) * lead + S(B) * sp.diff(ue, x, order - 1 if order > 1 else 1) * (1 if order > 1 else 0) + S(G)
    dn = lambda j: 'u' if j == 0 else 'diff(u, x)' if j == 1 else 'diff(u, x, %d)' % j
    eqn = '%s*%s' % (A, dn(order))
    if order > 1 and B != '0':
        eqn += ' + (%s)*%s' % (B, dn(order - 1))
    if G != '0':
        eqn += ' + (%s)' % G
    eqn += ' - (%s)' % sp.sstr(rhs)
    # conditions
    val = lambda j, t: float(d[j](np.array([t]))[0])
    h = 1.0
    D0, D1 = 'u(%r) - (%r)' % (a, val(0, a)), 'u(%r) - (%r)' % (b, val(0, b))
    N0, N1 = 'np.diff(u)(%r) - (%r)' % (a, val(1, a)), 'np.diff(u)(%r) - (%r)' % (b, val(1, b))
    R1 = '2*u(%r) + np.diff(u)(%r) - (%r)' % (b, b, 2 * val(0, b) + val(1, b))
    mono = G not in ('0', '-u - sin(u)/2')
    if order == 1:
        bcs = [D0]
    elif order == 2:
        bcs = [[D0, D1], [D0, D1], [D0, N1], [N0, D1], [D0, R1]][int(rng.integers(5))]
    else:
        bcs = [[D0, N0, D1], [D0, D1, N1]][int(rng.integers(2))]
    if rng.random() < .4:
        bcs = bcs[::-1]
    n = int(rng.choice([0, 16, 24, 33, 48, 64, 96]))
    guess = str(rng.choice(['default', 'near', 'constant']))
    kw = solver(rng)
    c.describe('%s ; %s ; on %s, n=%d, guess %s, %s' % (eqn, bcs, dom, n, guess, kw))

    def run():
        op = ChebOp(functions=['u'], parameters=dict(used), domain=dom, diff_order=order,
                    **(dict(n=n) if n else {}))
        op.eqn = [eqn]
        op.bcs = list(bcs)
        return op, attempt(op, u0, kw, not linear)
    linear = G in ('0', '-u', '-(2 + x)*u', '-exp(x)*u', '-A2*u', 'u', '-u/2', 'x*u', 'cos(x)*u', 'u/4', '-u/3', 'x*u/4', 'A2*u')
    u0 = None
    if guess == 'constant':
        u0 = Fun(coeffs=np.array([[.5]]), domain=dom)
    elif guess == 'near':
        u0 = Fun(op=lambda t: f(t) * 1.1 + .05, domain=dom)
    op, (s, ok, res) = c.do('solve', lambda: solve(run), *([] if u0 is None else [u0]))
    c.event('reported solved' if ok else 'reported failure')
    t = np.linspace(a, b, 101)
    if ok:
        e = f(t)
        sc = max(np.max(np.abs(d[j](t))) for j in range(order + 1)) + 1
        c.true('columns', s.shape[1] == 1)
        c.true('domain', np.array_equal(np.array(s.domain, float), dom))
        c.close('solution', V(s, t, 1)[:, 0], e, 1e-8, scale=sc)
        c.true('reported residual small', float(res) < 1e-5 * sc, lambda: 'residual %g' % float(res))
        c.event('linear solved' if linear else 'nonlinear solved')
    # unique solvability and a mild nonlinearity: the solver must get there
    if linear and order < 3:
        c.true('linear problems are solved', ok, lambda: 'residual %s' % res)
    c.event('method ' + kw.get('method', 'default'))
    c.seen('bvp', order, A, B, G, len(bcs), n, guess)


def periodic(c):
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    rng = c.rng
    x = sp.Symbol('x')
    dom = [float(v) for v in [[-1, 1], [0, 1], [0, 2 * np.pi], [-np.pi, np.pi], [-2, 2], [1, 3]][int(rng.integers(6))]]
    w = 2 * np.pi / (dom[1] - dom[0])
    k = int(rng.integers(1, 4))
    W = sp.Float(w, 17)
    ue = [sp.sin(k * W * x), sp.cos(k * W * x) + sp.Rational(1, 2), sp.exp(sp.sin(W * x)), 1 / (2 + sp.cos(W * x)), sp.sin(W * x) * sp.cos(k * W * x)][int(rng.integers(5))]
    A = ['1', '2', '(2 + cos(%r*x))' % w, 'A0'][int(rng.integers(4))]
    B = ['0', '0', 'sin(%r*x)' % w, '1/2'][int(rng.integers(4))]
    G = ['-u', '-(2 + sin(%r*x))*u' % w, '-u - u**3', '-A2*u'][int(rng.integers(4))]
    pars = dict(A0=float(rng.uniform(.5, 2)), A2=float(rng.uniform(.4, 3)))
    used = {q: v for q, v in pars.items() if q in A + B + G}
    S = lambda t: sp.sympify(t, locals=dict(u=ue, x=x)).subs({sp.Symbol(q): sp.Float(v, 17) for q, v in pars.items()})
    rhs = S(A) * sp.diff(ue, x, 2) + S(B) * sp.diff(ue, x) + S(G)
    eqn = '%s*diff(u, x, 2)' % A + (' + (%s)*diff(u, x)' % B if B != '0' else '') + ' + (%s) - (%s)' % (G, sp.sstr(rhs))
    f = num(ue)
    c.describe('%s on %s' % (eqn, dom))
    guess = str(rng.choice(['near', 'other']))
    kw = solver(rng)

    def run():
        op = ChebOp(functions=['u'], parameters=dict(used), colloc='trigspec', domain=dom)
        op.eqn = [eqn]
        return attempt(op, u0, kw, 'u**3' in G)
    u0 = Fun(op=(lambda t: f(t) * 1.05 + .01) if guess == 'near' else (lambda t: .3 * np.cos(w * t) + .2), type='trig', domain=dom)
    s, ok, res = c.do('solve', lambda: solve(run), u0)
    c.event('reported solved' if ok else 'reported failure')
    t = np.linspace(dom[0], dom[1], 64, endpoint=False)
    if ok:
        c.close('periodic solution', V(s, t, 1)[:, 0], f(t), 2e-7, scale=np.max(np.abs(f(t))) * max(1, (k * w) ** 2) + 1)
        c.true('columns', s.shape[1] == 1)
    c.seen('periodic', A, B, G, k, tuple(dom))


def psystem(c):
    """Periodic systems: diagonally dominant couplings, so that the solution is unique."""
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    rng = c.rng
    x = sp.Symbol('x')
    dom = [float(v) for v in [[-1, 1], [0, 1], [0, 2 * np.pi], [-np.pi, np.pi], [-2, 2], [1, 3]][int(rng.integers(6))]]
    w = 2 * np.pi / (dom[1] - dom[0])
    W = sp.Float(w, 17)
    m = int(rng.choice([2, 2, 3]))
    names = ['u', 'v', 'w'][:m]
    pool = [sp.sin(W * x) + sp.Rational(1, 2), sp.cos(2 * W * x), sp.exp(sp.sin(W * x)), 1 / (2 + sp.cos(W * x)), sp.sin(W * x) * sp.cos(W * x) - sp.Rational(1, 3)]
    ue = [pool[int(i)] for i in rng.permutation(len(pool))[:m]]
    loc = dict(zip(names, ue))
    loc['x'] = x
    pars = dict(A0=float(rng.uniform(.5, 2)), A2=float(rng.uniform(3, 5)))
    eqns, used = [], {}
    for i, nm in enumerate(names):
        A = ['1', '2', 'A0', '(2 + cos(%r*x))' % w][int(rng.integers(4))]
        D = ['-4*%s', '-A2*%s', '-(4 + sin(%r*x))*%%s' % w, '-3*%s - %s**3'][int(rng.integers(4))].replace('%s', nm)
        e = '%s*diff(%s, x, 2) + (%s)' % (A, nm, D)
        for j, o in enumerate(names):
            if j != i and rng.random() < .75:
                e += ' + (%s)*%s' % (['1/2', '-1', 'cos(%r*x)' % w, 'A0/2'][int(rng.integers(4))], o)
        L = sp.sympify(e.replace('diff(', 'Derivative('), locals=loc).doit().subs({sp.Symbol(k): sp.Float(v, 17) for k, v in pars.items()})
        eqns.append('%s - (%s)' % (e, sp.sstr(L)))
        used.update({k: v for k, v in pars.items() if k in e})
    F = [num(u) for u in ue]
    kw = solver(rng)
    near = rng.random() < .5
    c.describe('periodic system %s on %s, %s' % (eqns, dom, kw))

    def run():
        op = ChebOp(functions=list(names), parameters=dict(used), colloc='trigspec', domain=dom)
        op.eqn = list(eqns)
        return attempt(op, u0, kw, True)
    u0 = Fun(op=[(lambda t, f=f: f(t) * 1.05 + .01) if near else (lambda t, i=i: .3 * np.cos(w * t) + .2 * i) for i, f in enumerate(F)], type='trig', domain=dom)
    s, ok, res = c.do('solve', lambda: solve(run), u0)
    c.event('reported solved' if ok else 'reported failure')
    t = np.linspace(dom[0], dom[1], 64, endpoint=False)
    if ok:
        e = np.stack([f(t) for f in F], axis=1)
        c.true('columns', s.shape[1] == m)
        c.close('periodic solution', np.real(V(s, t, m)), e, 2e-7, scale=np.max(np.abs(e)) * max(1, 4 * w * w) + 1)
    if not any('**3' in e for e in eqns) and 'method' not in kw:
        c.true('linear systems are solved', ok, lambda: 'residual %s' % res)
    c.seen('psystem', m, tuple(dom), near, kw.get('method'), *[e.count('diff') for e in eqns], *[e[:20] for e in eqns])


def nonlocal_(c):
    """Conditions at the ends and integrals of the unknown in the equation, with small factors so that the solution is unique."""
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    rng = c.rng
    x = sp.Symbol('x')
    dom = domains(rng)
    a, b = dom
    ue, ksol = exact(rng)
    f = num(ue)
    d1 = num(sp.diff(ue, x))
    q, wq = np.polynomial.legendre.leggauss(80)
    xq, wq = (a + b) / 2 + (b - a) / 2 * q, wq * (b - a) / 2
    kap = .2 / max(1.0, (b - a) ** 2)
    eqn, rhs = 'diff(u, x, 2)', sp.diff(ue, x, 2)
    G = ['0', '-u', '-(2 + x)*u' if a > -2.1 else '-u', '-u**3', 'x*diff(u, x)/4'][int(rng.integers(5))]
    if G != '0':
        eqn += ' + (%s)' % G
        rhs += sp.sympify(G.replace('diff(', 'Derivative('), locals=dict(u=ue, x=x)).doit()
    terms = []
    for k in range(int(rng.integers(1, 3))):
        out = ['', 'x*', 'cos(x)*', '2*'][int(rng.integers(4))]
        inn = ['u', 'x*u', 'cos(x)*u', 'u', 'exp(x/4)*u'][int(rng.integers(5))]
        terms.append('%s int(%s)' % (out, inn))
        val = float(np.sum(wq * np.asarray(num(sp.sympify(inn, locals=dict(u=ue, x=x)))(xq), float)))
        sc = kap / 4 / 3
        eqn += ' + %r*%sint(%s)' % (sc, out, inn)
        rhs += sc * (sp.sympify(out[:-1]) if out else 1) * sp.Float(val, 17)
    eqn += ' - (%s)' % sp.sstr(rhs)
    bcs = ['u(%r) - (%r)' % (a, float(f(np.array([a]))[0])),
           ['u(%r) - (%r)' % (b, float(f(np.array([b]))[0])), 'np.diff(u)(%r) - (%r)' % (b, float(d1(np.array([b]))[0]))][int(rng.integers(2))]]
    if G == 'x*diff(u, x)/4':
        bcs[1] = 'u(%r) - (%r)' % (b, float(f(np.array([b]))[0]))
    kw = solver(rng)
    c.describe('%s ; %s ; on %s, %s' % (eqn, bcs, dom, kw))

    def run():
        op = ChebOp(functions=['u'], domain=dom, diff_order=2)
        op.eqn = [eqn]
        op.bcs = list(bcs)
        return attempt(op, None, kw, 'u**3' in G)
    s, ok, res = c.do('solve', lambda: solve(run))
    c.event('reported solved' if ok else 'reported failure')
    t = np.linspace(a, b, 61)
    if ok:
        e = f(t)
        c.close('nonlocal solution', V(s, t, 1)[:, 0], e, 1e-8, scale=np.max(np.abs(e)) + np.max(np.abs(num(sp.diff(ue, x, 2))(t))) + 1)
    if 'u**3' not in G:
        c.true('linear problems are solved', ok, lambda: 'residual %s' % res)
    c.seen('nonlocal', G, *terms)


def pnonlocal(c):
    """Periodic equations with integrals of the unknown, with small factors so that the solution is unique."""
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    rng = c.rng
    x = sp.Symbol('x')
    dom = [float(v) for v in [[-1, 1], [0, 1], [0, 2 * np.pi], [-np.pi, np.pi], [-2, 2], [1, 3]][int(rng.integers(6))]]
    a, b = dom
    w = 2 * np.pi / (b - a)
    k = int(rng.integers(1, 4))
    W = sp.Float(w, 17)
    ue = [sp.sin(k * W * x), sp.cos(k * W * x) + sp.Rational(1, 2), sp.exp(sp.sin(W * x)), 1 / (2 + sp.cos(W * x)), sp.sin(W * x) * sp.cos(k * W * x)][int(rng.integers(5))]
    f = num(ue)
    q = np.linspace(a, b, 400, endpoint=False)
    A = ['1', '2', '(2 + cos(%r*x))' % w][int(rng.integers(3))]
    G = ['-u', '-(2 + sin(%r*x))*u' % w, '-u - u**3', '-A2*u'][int(rng.integers(4))]
    pars = dict(A2=float(rng.uniform(.6, 3))) if 'A2' in G else {}
    S = lambda t: sp.sympify(t, locals=dict(u=ue, x=x)).subs({sp.Symbol(n): sp.Float(v, 17) for n, v in pars.items()})
    rhs = S(A) * sp.diff(ue, x, 2) + S(G)
    eqn = '%s*diff(u, x, 2) + (%s)' % (A, G)
    terms, products = [], 0
    for j in range(int(rng.integers(1, 3))):
        out = ['', 'cos(%r*x)*' % w, '(1 + sin(%r*x))*' % w, '2*', 'u*'][int(rng.integers(5))]
        inn = ['u', 'sin(%r*x)*u' % w, '(2 + cos(%r*x))*u' % w, 'u**2', 'u'][int(rng.integers(5))]
        products += out == 'u*' or inn == 'u**2'
        terms.append(out[:4] + inn[:5])
        val = float(np.mean(np.asarray(num(S(inn))(q), float)) * (b - a))
        sc = float(np.round(.1 / (b - a), 6)) * (1 if rng.random() < .5 else -1)
        eqn += ' + (%r)*%sint(%s)' % (sc, out, inn)
        rhs += sc * (S(out[:-1]) if out else 1) * sp.Float(val, 17)
    eqn += ' - (%s)' % sp.sstr(rhs)
    kw = solver(rng)
    n = int(rng.choice([0, 48, 65]))
    linear = '**' not in G and products == 0
    c.describe('%s on %s %s n=%d' % (eqn, dom, kw, n))

    def run():
        op = ChebOp(functions=['u'], parameters=dict(pars), colloc='trigspec', domain=dom, **(dict(n=n) if n else {}))
        op.eqn = [eqn]
        return attempt(op, u0, kw, not linear)
    u0 = Fun(op=lambda t: f(t) * 1.05 + .01, type='trig', domain=dom)
    s, ok, res = c.do('solve', lambda: solve(run), u0)
    c.event('reported solved' if ok else 'reported failure')
    t = np.linspace(a, b, 64, endpoint=False)
    if ok:
        c.close('periodic nonlocal solution', V(s, t, 1)[:, 0], f(t), 2e-7, scale=np.max(np.abs(f(t))) * max(1, (k * w) ** 2) + 1)
    if linear and 'method' not in kw:
        c.true('linear problems are solved', ok, lambda: 'residual %s' % res)
    c.seen('pnonlocal', A, G, k, *terms)


def mass(c):
    """Conservation laws with zero flux or periodic: the solution is determined by its mass, a constraint added to the equation."""
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    x = sp.Symbol('x')
    per = bool(rng.random() < .5)
    dom = [float(v) for v in [[-1, 1], [0, 1], [-2, 2], [1, 3], [0, 2 * np.pi] if per else [0, 2]][int(rng.integers(5))]]
    a, b = dom
    w = 2 * np.pi / (b - a)
    W = sp.Float(w, 17)
    m = int(rng.choice([1, 1, 1, 2]))
    names = ['u', 'v'][:m]
    if per:
        pool = [sp.sin(W * x) + 1, sp.cos(2 * W * x) + sp.Rational(1, 2), sp.exp(sp.sin(W * x)), 2 + sp.sin(W * x) * sp.cos(W * x)]
    else:
        pool = [sp.sin(x + 1), sp.exp(x / 2), sp.cos(2 * x) + sp.Rational(1, 2), 1 / (2 + x ** 2), (x ** 3 - x) / 6]
    ue = [pool[int(k)] for k in rng.permutation(len(pool))[:m]]
    fl = [num(e) for e in ue]
    q, wq = np.polynomial.legendre.leggauss(100)
    xq, wq = (a + b) / 2 + (b - a) / 2 * q, wq * (b - a) / 2
    sub = {sp.Symbol(n): e for n, e in zip(names, ue)}
    loc = dict(x=x, A0=sp.Symbol('A0'), **{n: sp.Symbol(n) for n in names})
    pars = dict(A0=float(np.round(rng.uniform(.5, 2), 3)))
    eqns, cts, used, nonlin = [], [], {}, False
    for i, nm in enumerate(names):
        D = ['1', '2', 'A0', '(2 + cos(%r*x))' % w if per else '(3 + sin(x))', '(2 + %s**2/8)' % nm][int(rng.integers(5))]
        nonlin |= '**2' in D
        txt = 'diff(%s*diff(%s, x), x)' % (D, nm) if D != '1' else 'diff(%s, x, 2)' % nm
        rhs = sp.diff(sp.sympify(D, locals=loc).subs(sub) * sp.diff(ue[i], x), x)
        if m == 2 and rng.random() < .6:
            o = names[1 - i]
            txt += ' + 0.2*diff(%s, x, 2)' % o
            rhs += sp.Rational(1, 5) * sp.diff(ue[1 - i], x, 2)
        if 'A0' in D:
            used['A0'] = pars['A0']
        rhs = rhs.subs(sp.Symbol('A0'), sp.Float(pars['A0'], 17))
        eqns.append('%s - (%s)' % (txt, sp.sstr(rhs)))
        weight = ['%s', '%s', '(2 + cos(%r*x))*%%s' % w][int(rng.integers(3))] % nm
        val = float(np.sum(wq * num(sp.sympify(weight, locals=loc).subs(sub))(xq)))
        how = int(rng.integers(3))
        if how == 2:
            used['M%d' % i] = val
        cts.append('int(%s, x) - %s' % (weight, ['(%r)' % val, '(%r)' % val, 'M%d' % i][how]) if how else '2*int(%s, x) - (%r)' % (weight, 2 * val))
    used = {k: v for k, v in used.items()}
    neg = [k for k, v in used.items() if v <= 0]
    for k in neg:
        cts = [t.replace(k, '(%r)' % used[k]) for t in cts]
        del used[k]
    bcs = [] if per else ['np.diff(%s)(%r) - (%r)' % (nm, e, float(num(sp.diff(u, x))(np.array([e]))[0])) for nm, u in zip(names, ue) for e in (a, b)]
    kw = solver(rng)
    guess = str(rng.choice(['near', 'far']))
    c.describe('%s with %s ; %s ; on %s %s %s %s' % (eqns, cts, bcs, dom, used, guess, kw))
    g = (lambda f: lambda t: f(t) * 1.05 + .03) if guess == 'near' or nonlin else (lambda f: lambda t: .5 + 0 * t)

    def run():
        op = ChebOp(functions=list(names), parameters=dict(used), domain=dom, diff_order=2, **(dict(colloc='trigspec') if per else {}))
        op.eqn = list(eqns)
        op.cts = list(cts)
        if bcs:
            op.bcs = list(bcs)
        return attempt(op, u0, kw, nonlin)
    u0 = Fun(op=[g(f) for f in fl], type='trig' if per else 'cheb', domain=dom)
    s, ok, res = c.do('solve', lambda: solve(run), u0)
    c.event('reported solved' if ok else 'reported failure')
    t = np.linspace(a, b, 61)
    if ok:
        e = np.stack([f(t) for f in fl], axis=1)
        big = max(np.max(np.abs(num(sp.diff(u, x, 2))(t))) for u in ue) + np.max(np.abs(e)) + 1
        got = V(s, t, m)
        c.close('solution of given mass', got, e, 2e-7 if per else 1e-8, scale=big)
        v = V(s, xq, m)
        for i in range(m):
            c.close('mass', np.sum(wq * v[:, i]), np.sum(wq * fl[i](xq)), 2e-7 if per else 1e-8, scale=big * (b - a))
    if not nonlin and 'method' not in kw:
        c.true('linear problems are solved', ok, lambda: 'residual %s' % res)
    c.seen('mass', per, m, nonlin, tuple(sorted(used)), *[e[:30] for e in eqns])


def sweep(c):
    """One operator, solved again and again while its parameters change: each answer belongs to the current values."""
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    per = rng.random() < .35
    dom = [float(v) for v in [[-1, 1], [0, 1], [0, 2], [1, 3], [-2, 2]][int(rng.integers(5))]]
    a, b = dom
    x, A0, A2 = sp.symbols('x A0 A2')
    W = sp.Float((2 if per else 1) * np.pi / (b - a), 17)
    psi = sp.sin(W * (x - sp.Float(a)))
    e0 = float(np.round(rng.uniform(-1, 1), 2))
    ue = A0 * psi + e0
    G = ['A2*u', 'A2*u + u**3', 'A2*u - sin(u)/4', '(A2 + x)*u' if not per and a > -.5 else 'A2*u'][int(rng.integers(4))]
    rhs = sp.diff(ue, x, 2) - sp.sympify(G, locals=dict(u=ue, x=x, A2=A2))
    kw = solver(rng) if rng.random() < .5 else {}
    vals = [(float(np.round(rng.uniform(.2, 2), 3)), float(np.round(rng.uniform(.5, 4), 3))) for _ in range(int(rng.integers(2, 5)))]
    vals = [(0.0 if k and rng.random() < .3 else p, 0.0 if k and not per and G == 'A2*u + u**3' and rng.random() < .3 else q)
            for k, (p, q) in enumerate(vals)]
    c.describe('sweep %s per=%s on %s over %s %s' % (G, per, dom, vals, kw))
    op = ChebOp(functions=['u'], domain=dom, diff_order=2, parameters=dict(A0=vals[0][0], A2=vals[0][1]), colloc='trigspec' if per else 'ultraS')
    op.eqn = ['diff(u, x, 2) - (%s) - (%s)' % (G, sp.sstr(rhs))]
    if not per:
        op.bcs = ['u(%r) - (%r)' % (a, e0), 'u(%r) - (%r)' % (b, e0)]
    t = np.linspace(a, b, 41)
    P = num(psi)(t)
    start = Fun(op=lambda s: .2 + 0 * s, type='trig', domain=dom) if per else Fun(coeffs=np.array([[.2]]), domain=dom)
    u, old = start, []
    for k, (p, q) in enumerate(vals):
        mode = int(rng.integers(3))
        if mode == 0:
            op.parameter_names.update(A0=p, A2=q)
            st = u
        elif mode == 1:
            st = c.do('state', lambda: DeflationState(u=u, A0=p, A2=q), u)
        else:
            st = c.do('state', lambda: DeflationState(u=start, A0=p, A2=q), start)
        s, ok, res = c.do('solve', lambda: solve(lambda: op.solve(st, state=True, **kw)), *[o for o, _, _ in old], st)
        if not ok:
            c.event('reported failure')
            c.true('linear problems are solved', 'u**3' in G or 'sin(u)' in G or bool(kw), lambda: 'residual %s' % res)
            continue
        c.event('reported solved at new parameters' if k else 'reported solved')
        w = 1 + (p + abs(e0)) * max(1, float(W) ** 2)
        c.close('solution for the current parameters', np.real(V(s.u, t, 1))[:, 0], p * P + e0, 1e-7 if per else 1e-8, scale=w)
        c.true('state keeps the parameters', {i: float(v) for i, v in s.items()} == dict(A0=p, A2=q), lambda: str(dict(s.items())))
        u = s.u
        old.append((u, p, q))
    for o, p, q in old:
        c.close('earlier solutions stay', np.real(V(o, t, 1))[:, 0], p * P + e0, 1e-7, scale=1 + p * max(1, float(W) ** 2) + abs(e0))
    c.seen('sweep', per, G, len(vals), kw.get('method'))


def residual(c):
    """The operator applied to a function is the differential expression; the conditions are evaluated with it."""
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    dom = domains(rng)
    a, b = dom
    x, u = sp.Symbol('x'), sp.Function('u')(sp.Symbol('x'))
    n = int(rng.choice([40, 64, 100]))
    terms = ['diff(u, x, 2)', 'x*diff(u, x)', 'u**2', 'sin(u)', 'u*diff(u, x)', 'exp(x)*u', 'cos(x)', 'A0*u', 'A0*u**3', 'diff(u, x)**2', 'exp(-u)', 'u/(1 + x**2)']
    T = ['diff(u, x, 2)'] + [terms[int(i)] for i in rng.permutation(len(terms) - 1)[:int(rng.integers(1, 5))] + 1]
    eqn = ' + '.join(T)
    A0 = float(rng.uniform(-2, 2))
    al, be = float(rng.standard_normal()), float(rng.standard_normal())
    bcs = ['u(%r) - (%r)' % (a, al), 'np.diff(u)(%r) + 2*u(%r) - (%r)' % (b, b, be)]
    ck = rng.standard_normal(6) * .5 ** np.arange(6)
    c.describe('%s on %s' % (eqn, dom))

    def run():
        op = ChebOp(functions=['u'], parameters=dict(A0=A0), domain=dom, diff_order=2, n=n)
        op.eqn = [eqn]
        op.bcs = list(bcs)
        op.compile(ftype='cheb')
        v = Fun(coeffs=ck[:, None].copy(), domain=dom)
        st = DeflationState(u=v, A0=A0).prolong(n)
        op.linSys.setParameters(st)
        r = op(st)
        return r, np.array(op.linSys.cts_res, float).ravel()
    r, cts = c.do('apply', lambda: solve(run))
    t = np.linspace(a, b, 33)
    y = gen.to_ref(dom, t)
    h = 2 / (b - a)
    U, U1, U2 = (gen.ceval(gen.cder(ck[:, None], j), y)[:, 0] * h ** j for j in range(3))
    env = dict(x=t, A0=A0, exp=np.exp, sin=np.sin, cos=np.cos)
    val = {'diff(u, x, 2)': U2, 'x*diff(u, x)': t * U1, 'u**2': U ** 2, 'sin(u)': np.sin(U), 'u*diff(u, x)': U * U1, 'exp(x)*u': np.exp(t) * U,
           'cos(x)': np.cos(t), 'A0*u': A0 * U, 'A0*u**3': A0 * U ** 3, 'diff(u, x)**2': U1 ** 2, 'exp(-u)': np.exp(-U), 'u/(1 + x**2)': U / (1 + t ** 2)}
    ref = sum(val[k] for k in T)
    c.close('operator applied', V(r, t, 1)[:, 0], ref, 1e-9, scale=sum(np.max(np.abs(val[k])) for k in T))
    e = lambda j, s: float(gen.ceval(gen.cder(ck[:, None], j), np.array([s]))[0, 0]) * h ** j
    c.close('conditions', cts, [e(0, -1.) - al, e(1, 1.) + 2 * e(0, 1.) - be], 1e-11, scale=10 * max(h, 1))
    c.seen('residual', n, *sorted(T))


def system(c):
    """Systems with conditions at the ends, given as text or as functions, for one unknown or tying several together."""
    import sympy as sp
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    rng = c.rng
    x = sp.Symbol('x')
    order = int(rng.choice([1, 2, 2]))
    dom = domains(rng)
    a, b = dom
    m = int(rng.choice([2, 2, 3]))
    names = ['u', 'v', 'w'][:m]
    ue = [exact(rng)[0] for _ in names]
    loc = dict(zip(names, ue), x=x)
    pars = dict(A0=float(rng.uniform(.5, 2)), A2=float(rng.uniform(1, 3)))
    eqns, used, linear = [], {}, True
    dn = lambda nm, j: nm if j == 0 else 'diff(%s, x)' % nm if j == 1 else 'diff(%s, x, %d)' % (nm, j)
    cpl = .3 / max(1.0, (b - a))
    for i, nm in enumerate(names):
        A = ['1', '2', 'A0', '(3 + sin(x))', 'exp(x/4)'][int(rng.integers(5))]
        if order == 2:
            D = ['-%s', '-A2*%s', '-(3 + cos(x))*%s', '-%s - %s**3', '-2*%s + x*diff(%s, x)/4'][int(rng.integers(5))].replace('%s', nm)
        else:
            D = ['%s', '-%s/2', 'x*%s/2', 'A2*%s/2', 'sin(%s)/2'][int(rng.integers(5))].replace('%s', nm)
        linear &= '**3' not in D and 'sin(' + nm not in D
        e = '%s*%s + (%s)' % (A, dn(nm, order), D)
        for j, o in enumerate(names):
            if j != i and rng.random() < .75:
                e += ' + %r*(%s)*%s' % (cpl, ['1', '-1', 'cos(x)', 'x/3'][int(rng.integers(4))], dn(o, int(rng.integers(order)) if rng.random() < .4 else 0))
        L = sp.sympify(e.replace('diff(', 'Derivative('), locals=loc).doit().subs({sp.Symbol(k): sp.Float(v, 17) for k, v in pars.items()})
        eqns.append('%s - (%s)' % (e, sp.sstr(L)))
        used.update({k: v for k, v in pars.items() if k in e})
    D = [[num(sp.diff(q, x, j)) for j in range(order + 1)] for q in ue]
    val = lambda i, j, t: float(D[i][j](np.array([t]))[0])
    # conditions: (terms, value); a term is (factor, unknown, derivative, place)
    conds = []
    end = [a, b][int(rng.integers(2))]
    for i in range(m):
        if order == 1:
            conds.append([(1, i, 0, end)])
        else:
            conds.append([(1, i, 0, a)])
            conds.append([[(1, i, 0, b)], [(1, i, 1, b)], [(2, i, 0, b), (1, i, 1, b)]][int(rng.integers(3))])
    tie = rng.random() < .4
    if tie:      # replace two conditions by their sum and difference: the same set of functions satisfies them
        p, q = (0, 1) if order == 1 else (0, 2)
        conds[p], conds[q] = conds[p] + conds[q], conds[p] + [(-f, i, j, t) for f, i, j, t in conds[q]]
    conds = [conds[int(k)] for k in rng.permutation(len(conds))]
    kind = str(rng.choice(['text', 'function', 'both']))
    bcs = []
    for k, cond in enumerate(conds):
        v = sum(f * val(i, j, t) for f, i, j, t in cond)
        txt = ' + '.join('%r*%s(%r)' % (f, names[i] if j == 0 else 'np.diff(%s)' % names[i], t) for f, i, j, t in cond) + ' - (%r)' % v
        bcs.append(txt if kind == 'text' or kind == 'both' and k % 2 else eval('lambda %s: %s' % (', '.join(names), txt), dict(np=np)))
    kw = solver(rng) if rng.random() < .6 else {}
    n = int(rng.choice([0, 24, 40, 64]))
    guess = str(rng.choice(['default', 'near', 'constant']))
    c.describe('system %s ; %s %s ; on %s n=%d %s %s' % (eqns, conds, kind, dom, n, guess, kw))
    u0 = None
    if guess == 'near':
        u0 = Fun(op=[(lambda t, q=q: q[0](t) * 1.1 + .05) for q in D], domain=dom)
    elif guess == 'constant':
        u0 = Fun(coeffs=.5 + np.zeros((1, m)), domain=dom)

    def run():
        op = ChebOp(functions=list(names), parameters=dict(used), domain=dom, diff_order=order, **(dict(n=n) if n else {}))
        op.eqn = list(eqns)
        op.bcs = list(bcs)
        return attempt(op, u0, kw, not linear)
    s, ok, res = c.do('solve', lambda: solve(run), *([] if u0 is None else [u0]))
    c.event('reported solved' if ok else 'reported failure')
    t = np.linspace(a, b, 61)
    if ok:
        e = np.stack([q[0](t) for q in D], axis=1)
        sc = max(np.max(np.abs(f(t))) for q in D for f in q) + 1
        c.true('columns', s.shape[1] == m)
        c.close('solution of the system', V(s, t, m), e, 1e-8, scale=sc)
    if linear and not kw:
        c.true('linear systems are solved', ok, lambda: 'residual %s' % res)
    c.seen('system', order, m, kind, tie, len(kw), n, guess, *[q[:24] for q in eqns])


def driver(c):
    """The adaptive driver in front of a solver that fails where it is told to."""
    from funpy.colloc.adapt import SolverAdaptive
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    d = int(rng.choice([1, 3, 12, 20, 40, 70, 130, 260, int(rng.integers(1, 400))]))
    a = rng.standard_normal(d) / (1 + .02 * np.arange(d))
    a[-1] = 1.
    dom = [[-1., 1.], [0., 3.]][int(rng.integers(2))]
    n0 = int(rng.choice([1, 5, 16, 17, 18, 33, 60, 100]))
    # the solver fails at random levels; up to two failures before the first success are to be survived, and any number after it
    script = [bool(v) for v in rng.random(20) < rng.choice([.5, .8, 1.])]
    mode = str(rng.choice(['kind', 'free']))
    if mode == 'kind':
        script[:3] = [[True, True, True], [False, True, True], [False, False, True], [True, False, True], [True, True, False]][int(rng.integers(5))]
        if rng.random() < .7:
            script[3:] = [True] * 17
    kw = {} if rng.random() < .7 else dict(eps=float(rng.choice([1e-6, 1e-10])))
    c.describe('degree %d from %d coefficients, script %s' % (d, n0, ''.join('+-'[not s] for s in script)))
    log = []

    class System:
        def setDisc(self, n):
            log.append(('n', n))

    class Solver:
        system = System()
        neval = 0

        def solve(self, state, **kwargs):
            n = state.shape[0]
            k = sum(1 for e in log if e[0] == 'solve')
            ok = script[min(k, 19)]
            b = np.zeros((n, 1), order='F')
            if ok:
                b[:min(n, d), 0] = a[:n]
            else:
                b[:, 0] = 1e3
            u = np.array(state.u.coeffs, copy=True)
            log.append(('solve', n, u, ok, b))
            return DeflationState(u=gen.fun(b, dom).prolong(n)), ok, 3
    g = gen.fun(rng.standard_normal(n0), dom).prolong(n0)
    start = np.array(g.coeffs, copy=True)
    state, ok, it = c.do('adaptive solve', lambda: SolverAdaptive(Solver()).solve(DeflationState(u=g).prolong(n0), **kw))
    sizes = [e[1] for e in log if e[0] == 'n']
    runs = [e for e in log if e[0] == 'solve']
    c.true('solver is called', len(runs) > 0)
    c.true('the system has the size of the guess', [e[1] for e in runs] == sizes, '%s %s' % ([e[1] for e in runs], sizes))
    c.true('sizes grow', all(p < q for p, q in zip(sizes, sizes[1:])), str(sizes))
    c.true('the guess is never cut', sizes[0] >= n0, str(sizes))
    # every guess is what the last successful solve returned
    last = start
    for e in runs:
        u = e[2]
        c.true('guess has the size asked for', u.shape[0] == e[1])
        L = max(len(u), len(last))
        q = np.zeros(L)
        q[:len(last)] = last[:, 0]
        w = np.zeros(L)
        w[:len(u)] = u[:, 0]
        c.close('guess', w, q, 1e-12, scale=np.sum(np.abs(q)) + 1e-300)
        if e[3]:
            last = e[4]
    c.true('success is that of the last solve', bool(ok) == runs[-1][3])
    good = [e for e in runs if e[3]]
    got = np.asarray(state.u.coeffs)[:, 0].real
    if good:
        # what is returned agrees with what the solver last found
        L = max(len(got), len(good[-1][4]))
        q = np.zeros(L)
        q[:len(good[-1][4])] = good[-1][4][:, 0]
        w = np.zeros(L)
        w[:len(got)] = got
        c.close('returned', w, q, 2 * kw.get('eps', 1e-8), scale=1 + np.max(np.abs(q)))
    if len(runs) >= 2 and runs[-1][3] and runs[-1][1] < 2000 and sizes[-1] < 17 * 2 ** 5:
        # stopped early with success: the solution had settled
        c.true('settled', len(good) >= 2 and d <= good[-1][1] and d <= good[-2][1], 'sizes %s degree %d' % (sizes, d))
    if mode == 'kind' and all(script):
        c.true('the solution is found', bool(ok) and sizes[-1] >= d)
        c.close('solution', got[:d], a[:len(got[:d])], 1e-7, scale=1 + np.max(np.abs(a)))
    if mode == 'kind' and all(script[3:]):
        # one or two failures before the first success, or one after it
        c.true('failures are survived', bool(ok) and sizes[-1] >= d, str(sizes))
    c.seen('driver', n0, d > n0, len(runs), bool(ok))


GROUPS = {'driver': (driver, 160, 2400), 'bvp': (bvp, 90, 1400), 'periodic': (periodic, 36, 600), 'psystem': (psystem, 30, 440), 'system': (system, 42, 600), 'nonlocal': (nonlocal_, 36, 600), 'pnonlocal': (pnonlocal, 30, 500), 'mass': (mass, 36, 600), 'sweep': (sweep, 36, 600), 'residual': (residual, 60, 1000)}
