"""Newton's method with known solutions divided out."""
import contextlib
import io
import numpy as np
from numpy.polynomial import chebyshev as C
import gen
from props.C21 import dense

RULE = ('deflation factors of 0..4 known solutions (powers 1..3, shifts 0.5..2, 1..3 components, known solutions shorter and longer than the '
        'state) against the product of explicit H1 distances; deflated residuals and deflated Jacobians of nonlinear boundary value problems and '
        'systems (1..3 components, 0..3 known solutions, random directions) against the product rule on quadrature; the deflated linear solve and '
        'preconditioner applied back; whole deflated solves, in sequence, from one starting guess: everything reported as found satisfies the '
        'equation and the constraints and is none of the known solutions; functionals of a function against quadrature, with and without derivatives')
ASSUMPTIONS = ['Chebyshev discretizations only: the library defines the functional on Chebyshev coefficients',
               'a deflated solve may report failure; only what it reports as found is judged']

XG, WG = np.polynomial.legendre.leggauss(400)


def h1(a, b, dom):
    """H1 product of two lists of Chebyshev coefficient columns."""
    h = 2 / (dom[1] - dom[0])
    s = 0.
    for p, q in zip(a, b):
        s += np.sum(WG * C.chebval(XG, p) * C.chebval(XG, q)) / h
        s += np.sum(WG * C.chebval(XG, C.chebder(p)) * C.chebval(XG, C.chebder(q))) * h
    return s


def cols(rng, m, n, size=1.):
    return [size * rng.standard_normal(n) / (1 + np.arange(n)) ** 1.5 for _ in range(m)]


def pad(a, n):
    return [np.r_[p, np.zeros(n - len(p))] for p in a]


def sub(a, b):
    n = max(len(a[0]), len(b[0]))
    return [p - q for p, q in zip(pad(a, n), pad(b, n))]


def fun(a, dom):
    return gen.fun(np.column_stack(a), list(dom))


DOMS = [[-1., 1.], [0., 1.], [0., 2.], [0., 10.], [-3., 2.], [1., 4.]]


def factor(c):
    from funpy.newton.deflation import deflation
    rng = c.rng
    m = int(rng.integers(1, 4))
    dom = DOMS[int(rng.integers(len(DOMS)))]
    u = cols(rng, m, int(rng.integers(1, 30)), 10. ** rng.uniform(-1, 1))
    kn = [cols(rng, m, int(rng.integers(1, 40))) for _ in range(int(rng.integers(0, 5)))]
    power, shift = float(rng.choice([1., 2., 2., 3.])), float(rng.choice([.5, 1., 1., 2.]))
    c.describe('%d components, %d known, power %g, shift %g on %s' % (m, len(kn), power, shift, dom))
    U, K = fun(u, dom), [fun(k, dom) for k in kn]
    kw = {} if (power, shift) == (2., 1.) else dict(power=power, shift=shift)
    e = c.do('deflation', lambda: deflation(U, K, **kw), U, *K)
    ref = 1.
    for k in kn:
        d = sub(u, k)
        ref *= shift + h1(d, d, dom) ** (-power / 2)
    c.close('factor', float(e), ref, 1e-10, scale=ref)
    c.seen('factor', m, len(kn), power, shift)


def functional(c):
    from funpy import Functional
    rng = c.rng
    m = int(rng.integers(1, 4))
    n = int(rng.choice([1, 2, 3, 8, 17, 32, 60]))
    order = int(rng.integers(0, 2))
    dom = DOMS[int(rng.integers(len(DOMS)))]
    f, v = cols(rng, m, n), cols(rng, m, n)
    N = 2 * n + 3
    c.describe('order %d, %d x %d on %s' % (order, n, m, dom))
    F = fun(pad(f, N), dom)
    L = c.do('Functional', lambda: Functional(F, order=order), F)
    k = np.asarray(L).size // m
    c.true('size', k >= n, '%d' % k)
    x = np.concatenate([np.r_[p, np.zeros(k - n)] for p in v])
    got = c.do('apply', lambda: np.dot(np.asarray(L).ravel(), x))
    h = 2 / (dom[1] - dom[0])
    ref = sum(np.sum(WG * C.chebval(XG, p) * C.chebval(XG, q)) / h for p, q in zip(f, v))
    sc = sum(np.sum(np.abs(p)) * np.sum(np.abs(q)) for p, q in zip(f, v)) * 2 / h
    if order:
        ref = h1(f, v, dom)
        sc += sum(np.sum(np.abs(p) * np.arange(n) ** 2) * np.sum(np.abs(q) * np.arange(n) ** 2) for p, q in zip(f, v)) * 2 * h
    c.close('functional', float(np.squeeze(got)), ref, 1e-12, scale=sc + 1e-300)
    c.seen('functional', m, n, order)


def eqs(rng):
    """Nonlinear problems: equations, unknowns, boundary conditions (as texts of the end points)."""
    pool = [(['diff(u, x, 2) + u - u**3'], ['u(%r)', 'u(%r)']),
            (['0.3*diff(u, x, 2) + u*diff(u, x) + u**2 - 1'], ['u(%r)', 'u(%r)']),
            (['diff(u, x, 2) + exp(0.3*u)'], ['u(%r)', 'np.diff(u)(%r)']),
            (['diff(u, x, 2) - sin(u) + x*u**2'], ['u(%r)', 'u(%r)']),
            (['diff(u, x, 2) + u*v', 'diff(v, x, 2) - v + u**2'], ['u(%r)', 'u(%r)', 'v(%r)', 'v(%r)']),
            (['diff(u, x, 2) + v**2 - u', 'diff(v, x, 2) + u - v**3', 'diff(w, x, 2) + u*v*w'],
             ['u(%r)', 'u(%r)', 'v(%r)', 'v(%r)', 'w(%r)', 'w(%r)'])]
    return pool[int(rng.integers(len(pool)))]


def make(eq, bc, dom, n):
    from funpy.colloc.chebOp import ChebOp
    m = len(eq)
    op = ChebOp(functions=['u', 'v', 'w'][:m], n=n, domain=list(dom), diff_order=2)
    op.eqn = list(eq)
    op.bcs = [b % dom[i % 2] for i, b in enumerate(bc)]
    return op


def linear(c):
    """The Jacobian of eta F at u, applied to v, is eta F'(u) v + eta'(u)[v] F(u)."""
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    eq, bc = eqs(rng)
    m = len(eq)
    n = int(rng.choice([24, 32, 33, 48, 64]))
    dom = DOMS[int(rng.integers(len(DOMS)))]
    d = n // 4
    u, v = cols(rng, m, d), cols(rng, m, d)
    kn = [cols(rng, m, int(rng.choice([3, d, d]))) for _ in range(int(rng.integers(0, 4)))]
    longer = [rng.random() < .3 for _ in kn]
    c.describe('%s on %s n=%d, %d known' % ('; '.join(eq), dom, n, len(kn)))

    def st(a):
        return DeflationState(u=fun(pad(a, n), dom).prolong(n)).prolong(n)
    U = st(u)
    K = [fun(pad(k, n), dom).prolong(2 * n if q else n) for k, q in zip(kn, longer)]

    def run():
        with contextlib.redirect_stdout(io.StringIO()):
            op = make(eq, bc, dom, n)
            plain = NewtonSystem(U, op, exact='lu')
            F0 = np.array(plain.rhs(U))
            A = dense(plain.matrix()[0].to_matrix())
            defl = NewtonSystem(U, make(eq, bc, dom, n), ks=K, exact='lu')
            G0 = np.array(defl.rhs(U))
            x = np.array(defl.linSys.solve(-G0)[0])
            M = defl.matrix()[0]
            B = dense(M.to_matrix())
            y = M @ np.concatenate(pad(v, n))
            # the residual away from the point of linearisation
            T = st(z)
            F1, G1 = np.array(plain.rhs(T)), np.array(defl.rhs(T))
        return F0, A, G0, B, x, y, F1, G1
    z = [p + .5 * q for p, q in zip(u, v)]
    F0, A, G0, B, x, y, F1, G1 = c.do('deflated system', run, *K)
    eta = 1.
    dv = 0.
    dsize = 0.
    for k in kn:
        e = sub(u, k)
        q = h1(e, e, dom)
        eta *= 1 + 1 / q
        t = -2 * h1(e, pad(v, len(e[0])), dom) / q ** 2 / (1 + 1 / q)
        dv += t
        dsize += abs(t) + 2 * np.sqrt(q * h1(v, v, dom)) / q ** 2 / (1 + 1 / q)
    dv, dsize = dv * eta, dsize * eta
    sF = np.max(np.abs(F0)) + 1e-300
    c.close('deflated residual', G0, eta * F0, 1e-10, scale=eta * sF)
    eta1 = 1.
    for k in kn:
        e = sub(z, k)
        eta1 *= 1 + 1 / h1(e, e, dom)
    c.close('deflated residual elsewhere', G1, eta1 * F1, 1e-10, scale=eta1 * (np.max(np.abs(F1)) + 1e-300))
    w = np.concatenate(pad(v, n))
    Aw = A @ w
    scale = eta * np.max(np.abs(A) @ np.abs(w)) + dsize * sF
    c.close('deflated Jacobian', B @ w, eta * Aw + dv * F0, 1e-10, scale=scale)
    c.close('deflated Jacobian as operator', np.asarray(y).ravel(), eta * Aw + dv * F0, 1e-10, scale=scale)
    c.close('deflated step', B @ x, -G0, 1e-8, scale=np.max(np.abs(B) @ np.abs(x)) + eta * sF)
    c.seen('linear', m, n, len(kn), int(any(longer)))


def precond(c):
    """The preconditioner of the deflated system inverts the rank one update of the matrix it factorised."""
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    # constant coefficients after linearisation about a constant: the rough matrix is the matrix itself
    m = int(rng.integers(1, 3))
    eq, bc = (['diff(u, x, 2) + u - u**3'], ['u(%r)', 'u(%r)']) if m == 1 else (['diff(u, x, 2) + u*v', 'diff(v, x, 2) - v + u**2'], ['u(%r)', 'u(%r)', 'v(%r)', 'v(%r)'])
    n = int(rng.choice([16, 24, 33]))
    dom = DOMS[int(rng.integers(len(DOMS)))]
    u = [np.array([float(rng.uniform(.2, 1.5))]) for _ in range(m)]
    kn = [cols(rng, m, 5) for _ in range(int(rng.integers(0, 4)))]
    c.describe('%s about constants on %s n=%d, %d known' % ('; '.join(eq), dom, n, len(kn)))
    U = DeflationState(u=fun(pad(u, n), dom).prolong(n)).prolong(n)
    K = [fun(k, dom).prolong(n) for k in kn]

    def run():
        with contextlib.redirect_stdout(io.StringIO()):
            s = NewtonSystem(U, make(eq, bc, dom, n), ks=K)
            M, P, _ = s.matrix(precond=True)
            B = dense(M.to_matrix())
            z = rng.standard_normal(n * m)
            return B, z, np.asarray(P.matvec(z)).ravel()
    B, z, y = c.do('preconditioner', run, *K)
    c.close('inverse', B @ y, z, 1e-8, scale=np.max(np.abs(B) @ np.abs(y)) + 1)
    c.seen('precond', m, n, len(kn))


def sequence(c):
    """Solving again and again from one guess, dividing out what has been found."""
    from funpy.newton.newton import Newton
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    kind = str(rng.choice(['allen', 'bratu', 'quadratic']))
    n = int(rng.choice([48, 64]))
    L = float(rng.uniform(6, 11)) if kind == 'allen' else 1.
    dom = [0., L] if rng.random() < .5 else [-L / 2, L / 2]
    mid = .5 * (dom[0] + dom[1])
    lam = float(rng.uniform(.5, 3.))
    eq = {'allen': 'diff(u, x, 2) + u - u**3', 'bratu': 'diff(u, x, 2) + %.17g*exp(u)' % lam,
          'quadratic': 'diff(u, x, 2) + %.17g*u*(1 - u)' % (12 * lam + 12)}[kind]
    amp = float(rng.uniform(.2, .8))
    g = lambda x: amp * np.cos(np.pi * (x - mid) / L)
    c.describe('%s on %s from amplitude %g' % (eq, dom, amp))
    from funpy import Fun
    G = Fun(op=[g], domain=list(dom), type='cheb').prolong(n)
    method = str(rng.choice(['lu', 'nleq', 'giant', 'qnerr'])) if rng.random() < .4 else 'lu'
    sols = []
    steps = 3
    t = np.linspace(dom[0], dom[1], 301)
    for k in range(steps):
        def run():
            with contextlib.redirect_stdout(io.StringIO()):
                op = make([eq], ['u(%r)', 'u(%r)'], dom, n)
                nw = Newton(op)
                nw.known_solutions = list(sols)
                try:
                    return nw.solve(DeflationState(u=G).prolong(n), method=method, tol=1e-9, miter=60)
                except RuntimeError as e:
                    # an iterate that went astray: the factorisation says so
                    if 'singular' in str(e):
                        return None, False, 0
                    raise
        try:
            x, ok, it = c.do('solve', run, *sols)
        except (OverflowError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError):
            break
        if not ok:
            break
        f = x.u
        a = np.asarray(f.coeffs)[:, 0].real
        # of a solution that is resolved; judged through the library independent series
        z = (t - mid) * 2 / L
        val, der = C.chebval(z, a), C.chebval(z, C.chebder(a, 2)) * (2 / L) ** 2
        if not np.all(np.isfinite(a)) or np.max(np.abs(a[-4:])) > 1e-9 * np.max(np.abs(a)) or np.max(np.abs(val)) > 50:
            break
        with np.errstate(all='ignore'):
            r = der + {'allen': val - val ** 3, 'bratu': lam * np.exp(val), 'quadratic': (12 * lam + 12) * val * (1 - val)}[kind]
        c.close('solution', r, 0 * r, 2e-5, scale=1 + np.max(np.abs(der)))
        c.close('constraints', val[[0, -1]], [0., 0.], 1e-8, scale=1 + np.max(np.abs(val)))
        for s in sols:
            b = np.asarray(s.coeffs)[:, 0].real
            e = sub([a], [b])
            c.true('a known solution is found again', h1(e, e, dom) > 1e-8, 'step %d' % k)
        sols.append(f)
    c.seen('sequence', kind, method, len(sols))
    return len(sols)


def seeker(c):
    """The seeker divides out by itself what it has found: what it reports solves the equation and is new, its list grows by
    exactly what it reported (unless asked not to learn), its memory and the caller's are apart."""
    from funpy import Fun
    from funpy.newton import NewtonSeeker
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    n = int(rng.choice([40, 48, 64]))
    L = float(rng.uniform(5, 10))
    dom = [0., L] if rng.random() < .5 else [-L / 2, L / 2]
    mid = .5 * (dom[0] + dom[1])
    kind = str(rng.choice(['allen', 'bratu']))
    lam = float(rng.uniform(.3, 2.)) / L ** 2
    eq = {'allen': 'diff(u, x, 2) + u - u**3', 'bratu': 'diff(u, x, 2) + %.17g*exp(u)' % lam}[kind]
    amp = float(rng.uniform(.2, 1.2))
    G = Fun(op=[lambda x: amp * np.cos(np.pi * (x - mid) / L)], domain=list(dom), type='cheb').prolong(n)
    method = str(rng.choice(['giant', 'nleq', 'nleq-err', 'NLEQ']))
    c.describe('%s on %s from amplitude %g by %s' % (eq, dom, amp, method))
    t = np.linspace(dom[0], dom[1], 301)
    z = (t - mid) * 2 / L
    seek = NewtonSeeker(make([eq], ['u(%r)', 'u(%r)'], dom, n))
    given = []
    if kind == 'allen' and rng.random() < .5:
        zero = DeflationState(u=Fun(op=[lambda x: 0.0 * x], domain=list(dom), type='cheb').prolong(n))
        given = [np.zeros((n, 1))]
        if rng.random() < .5:
            seek.append(zero)
        else:
            seek.append([zero.u])
        c.true('known solutions taken over', len(seek.known_solutions) == 1)
    found = list(given)
    for k in range(3):
        learn = bool(rng.random() < .75)
        kw = {} if learn and rng.random() < .5 else {'learn_solution': learn}
        s = DeflationState(u=G).prolong(n)

        def run():
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    return seek.solve(s, method=method, tol=1e-9, miter=60, **kw)
                except RuntimeError as e:
                    if 'singular' in str(e):
                        return None, False, 0
                    raise
        try:
            x, ok, it = c.do('seek', run, s)
        except (OverflowError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError):
            break
        c.true('learns exactly what it reports', len(seek.known_solutions) == len(found) + int(bool(ok) and learn), lambda: '%d known after %d' % (len(seek.known_solutions), len(found)))
        if not ok:
            break
        a = np.asarray(x.u.coeffs)[:, 0].real
        if not np.all(np.isfinite(a)) or np.max(np.abs(a[-4:])) > 1e-9 * np.max(np.abs(a)) + 1e-12 or np.max(np.abs(a)) > 50:
            break
        val, der = C.chebval(z, a), C.chebval(z, C.chebder(a, 2)) * (2 / L) ** 2
        r = der + {'allen': val - val ** 3, 'bratu': lam * np.exp(val)}[kind]
        c.close('solution sought', r, 0 * r, 2e-5, scale=1 + np.max(np.abs(der)))
        c.close('constraints', val[[0, -1]], [0., 0.], 1e-8, scale=1 + np.max(np.abs(val)))
        for b in found:
            e = sub([a], [b[:, 0]])
            c.true('a known solution is found again', h1(e, e, dom) > 1e-8, 'step %d' % k)
        if learn:
            found.append(a[:, None])
            known = np.asarray(seek.known_solutions[-1].coeffs)[:, 0].real
            c.close('what was learned', np.append(known, np.zeros(max(0, a.size - known.size)))[:a.size], a, 1e-13, scale=np.max(np.abs(a)) + 1e-300)
    c.seen('seeker', kind, method, len(found), len(given))


GROUPS = {'factor': (factor, 400, 6000), 'functional': (functional, 400, 6000), 'linear': (linear, 240, 3600), 'precond': (precond, 160, 2400),
          'sequence': (sequence, 60, 1000), 'seeker': (seeker, 60, 1000)}
