"""Eigenvalues of a differential operator are eigenvalues of that operator."""
import contextlib
import io
import numpy as np
import scipy.linalg as LA
import gen

RULE = ('linear operators of order 1..4 (boundary conditions of value, slope and mixed type at either end, constant and variable '
        'coefficients) and linearisations of nonlinear operators about given functions on random intervals, and periodic operators and '
        'two-function periodic systems; the eigenvalues converged in an independent collocation must appear, with the exact '
        'answer for constant coefficients; distinct by order, conditions, size, coefficients')
ASSUMPTIONS = ['only eigenvalues converged in the independent discretization are judged, to 1e-6 relative']
CASE_CPU = 120.0


def cheb(n):
    """Differentiation matrix on n points, from -1 to 1 (independent of the library)."""
    x = -np.cos(np.pi * np.arange(n) / (n - 1))
    w = np.ones(n)
    w[0] = w[-1] = 2
    w *= (-1) ** np.arange(n)
    X = x[:, None] - x[None, :]
    D = np.outer(w, 1 / w) / (X + np.eye(n))
    return D - np.diag(D.sum(axis=1)), x


def oracle(coef, bcs, dom, n):
    """Generalised eigenvalues of sum_k coef_k(x) D^k with boundary rows, by collocation."""
    D, t = cheb(n)
    h = 2 / (dom[1] - dom[0])
    D = D * h
    x = .5 * (dom[0] + dom[1]) + t / h
    order = len(coef) - 1
    P = [np.eye(n)]
    for _ in range(order):
        P.append(D @ P[-1])
    L = sum(np.asarray(f(x) + 0 * x)[:, None] * P[k] for k, f in enumerate(coef))
    nb = len(bcs)
    # project the equation on n - nb Chebyshev points of the first kind
    m = n - nb
    s = -np.cos(np.pi * (np.arange(m) + .5) / m)
    V = np.polynomial.chebyshev.chebvander(t, n - 1)
    R = np.linalg.solve(V.T, np.polynomial.chebyshev.chebvander(s, n - 1).T).T
    rows = []
    for end, c0, c1 in bcs:
        e = np.zeros(n)
        e[0 if end == 0 else -1] = 1
        rows.append(c0 * e + c1 * (e @ D))
    A = np.vstack(rows + [R @ L])
    B = np.vstack([np.zeros((nb, n)), R])
    al, be = LA.eig(A, B, right=False, homogeneous_eigvals=True)
    keep = np.abs(be) > 1e-12 * np.max(np.abs(be))
    return al[keep] / be[keep]


def converged(a, b, many=8, tol=1e-8):
    """Eigenvalues of a, smallest first, that also appear in b."""
    a = a[np.argsort(np.abs(a))]
    out = []
    for z in a[:40]:
        if np.min(np.abs(b - z)) > tol * max(1, abs(z)):
            break
        out.append(z)
    return np.array(out[:many])


def match(c, label, want, got, tol):
    """Every wanted eigenvalue appears, as often as wanted."""
    got = list(np.asarray(got))
    for z in want:
        if not got:
            c.true(label, False, 'no eigenvalue left for %s' % z)
            return
        k = int(np.argmin(np.abs(np.array(got) - z)))
        c.true(label, abs(got[k] - z) <= tol * max(1, abs(z)), '%s missing, nearest %s' % (z, got[k]))
        got.pop(k)


def eigs_of(eqn, bcs, dom, n, colloc, f, functions=('u',), pars={}):
    from funpy.colloc import ChebOp
    from funpy.colloc.eig import eigs
    with contextlib.redirect_stdout(io.StringIO()):
        op = ChebOp(functions=list(functions), n=n, domain=list(dom), diff_order=2, colloc=colloc, parameters=dict(pars))
        op.eqn = list(eqn)
        op.bcs = list(bcs)
        return eigs(op, f=f)


def bounded(c):
    from funpy import Fun
    rng = c.rng
    order = int(rng.choice([2, 2, 2, 3, 4]))
    dom = [[-1., 1.], [0., 1.], [0., 2.], [0., np.pi], [1., 3.], [-.5, .5]][int(rng.integers(6))]
    h = 2 / (dom[1] - dom[0])
    pool = [('1.5', lambda x: 1.5 + 0 * x), ('x', lambda x: x), ('sin(x)', np.sin), ('(1 + x**2)', lambda x: 1 + x ** 2), ('(-2)', lambda x: -2 + 0 * x)]
    coef = [lambda x: 0 * x] * (order + 1)
    texts = []
    lead = [('1', lambda x: 1 + 0 * x), ('2', lambda x: 2 + 0 * x), ('(3 + x)', lambda x: 3 + x), ('exp(x/4)', lambda x: np.exp(x / 4))][int(rng.integers(4))]
    coef[order] = lead[1]
    texts.append('%s*diff(u, x, %d)' % (lead[0], order))
    for k in range(order):
        if rng.random() < .4:
            s, g = pool[int(rng.integers(len(pool)))]
            coef[k] = g
            texts.append('%s*%s' % (s, 'u' if k == 0 else 'diff(u, x)' if k == 1 else 'diff(u, x, %d)' % k))
    # nonlinear terms, linearised about f
    fc = [.5, .3]
    nl = rng.random() < .4
    if nl:
        f0 = lambda x: fc[0] + fc[1] * ((2 * x - dom[0] - dom[1]) * h / 2)
        k = int(rng.integers(3))
        old = coef[0]
        if k == 0:
            texts.append('u**3')
            coef[0] = lambda x: old(x) + 3 * f0(x) ** 2
        elif k == 1:
            texts.append('sin(u)')
            coef[0] = lambda x: old(x) + np.cos(f0(x))
        else:
            o1 = coef[1]
            texts.append('u*diff(u, x)')
            coef[0] = lambda x: old(x) + fc[1] * h
            coef[1] = lambda x: o1(x) + f0(x)
    names = []
    ends = [(0, 1., 0.), (1, 1., 0.), (0, 0., 1.), (1, 0., 1.), (0, 1., .5), (1, 1., -1.)]
    if order == 2:
        bcs = [ends[int(rng.choice([0, 2, 4]))], ends[int(rng.choice([1, 3, 5]))]]
    elif order == 3:
        bcs = [ends[0], ends[1], ends[int(rng.choice([2, 3]))]]
    else:
        bcs = [ends[0], ends[1], ends[2], ends[3]]
    bcs = [bcs[i] for i in rng.permutation(len(bcs))]
    for e, a, b in bcs:
        p = dom[e]
        names.append(' + '.join(([('u(%r)' % p) if a == 1 else '%r*u(%r)' % (a, p)] if a else []) + (['%r*np.diff(u)(%r)' % (b, p)] if b else [])))
    n = int(rng.choice([40, 48, 57, 64]))
    eqn = ' + '.join(texts[i] for i in rng.permutation(len(texts)))
    c.describe('%s; %s on %s n=%d' % (eqn, names, dom, n))
    f = Fun(coeffs=np.asfortranarray(np.r_[fc, np.zeros(n - 2)][:, None]), domain=dom, simplify=False)
    ok, lam = c.do('eigs', lambda: eigs_of([eqn], names, dom, n, 'ultraS', f), f)
    c.true('computation reported successful', bool(ok))
    want = converged(oracle(coef, bcs, dom, 40), oracle(coef, bcs, dom, 52), many=5)
    c.event('eigenvalues judged', len(want))
    match(c, 'eigenvalue', want, lam, 1e-6)
    if order == 2 and not any(np.ptp(np.r_[g(np.linspace(*dom, 7))]) for g in coef) and all(a == 1 and b == 0 for e, a, b in bcs):
        # constant coefficients, zero at both ends: exact
        A, B, C0 = [float(g(np.array([dom[0]]))[0]) for g in coef[::-1]]
        ex = [C0 - B * B / (4 * A) - A * (k * np.pi / (dom[1] - dom[0])) ** 2 for k in range(1, 5)]
        match(c, 'exact eigenvalue', ex, lam, 1e-6)
        c.event('exact spectra')
    c.seen('bounded', order, n, len(texts), str(bcs), nl)


def periodic(c):
    from funpy import Fun
    rng = c.rng
    m = int(rng.choice([1, 1, 2]))
    dom = [[-1., 1.], [0., 2.], [0., 1.], [-np.pi, np.pi], [1., 4.]][int(rng.integers(5))]
    h = 2 / (dom[1] - dom[0])
    wave = np.pi * h
    N = 48
    k = np.arange(-N, N + 1)
    names = ['u', 'v'][:m]
    x = dom[0] + (dom[1] - dom[0]) * np.arange(2 * N + 1) / (2 * N + 1)
    F = np.exp(1j * wave * np.outer(x - .5 * (dom[0] + dom[1]), k))
    Fi = np.linalg.inv(F)
    Dk = lambda o: F @ np.diag((1j * wave * k) ** o) @ Fi
    I = np.eye(2 * N + 1)
    u0 = [lambda s, j=j: 1 + .3 * np.sin(wave * s + j) for j in range(m)]
    du0 = [lambda s, j=j: .3 * wave * np.cos(wave * s + j) for j in range(m)]
    pool = [('1.5', lambda s: 1.5 + 0 * s), ('cos(%.17g*x)' % wave, lambda s: np.cos(wave * s)), ('(2 + sin(%.17g*x))' % wave, lambda s: 2 + np.sin(wave * s)), ('(-1)', lambda s: -1 + 0 * s)]
    eqs = []
    A = np.zeros((m * (2 * N + 1),) * 2, complex)
    for i in range(m):
        t = []
        blk = [np.zeros_like(Dk(0)) for _ in range(m)]
        s, g = pool[int(rng.choice([0, 2]))]
        t.append('%s*diff(%s, x, 2)' % (s, names[i]))
        blk[i] = blk[i] + g(x)[:, None] * Dk(2)
        for _ in range(int(rng.integers(1, 4))):
            j = int(rng.integers(m))
            s, g = pool[int(rng.integers(4))]
            q = int(rng.integers(4))
            if q == 0:
                t.append('%s*%s' % (s, names[j]))
                blk[j] = blk[j] + np.diag(g(x))
            elif q == 1:
                t.append('%s*diff(%s, x)' % (s, names[j]))
                blk[j] = blk[j] + g(x)[:, None] * Dk(1)
            elif q == 2:
                t.append('%s*%s**2' % (s, names[j]))
                blk[j] = blk[j] + np.diag(2 * g(x) * u0[j](x))
            else:
                l = int(rng.integers(m))
                t.append('%s*%s*diff(%s, x)' % (s, names[j], names[l]))
                blk[j] = blk[j] + np.diag(g(x) * du0[l](x))
                blk[l] = blk[l] + (g(x) * u0[j](x))[:, None] * Dk(1)
        eqs.append(' + '.join(t[q] for q in rng.permutation(len(t))))
        for j in range(m):
            A[i * (2 * N + 1):(i + 1) * (2 * N + 1), j * (2 * N + 1):(j + 1) * (2 * N + 1)] = blk[j]
    n = int(rng.choice([64, 65, 81]))
    c.describe('%s on %s n=%d' % ('; '.join(eqs), dom, n))
    f = Fun(op=[lambda s, g=g: g(s) for g in u0], type='trig', domain=dom).prolong(n)
    ok, lam = c.do('eigs', lambda: eigs_of(eqs, [], dom, n, 'trigspec', f, names), f)
    c.true('computation reported successful', bool(ok))
    c.true('as many eigenvalues as unknowns', len(lam) == n * m, '%d' % len(lam))
    E = LA.eigvals(A)
    # the same with fewer modes
    sel = np.abs(k) <= N - 12
    idx = np.concatenate([np.where(sel)[0] + i * (2 * N + 1) for i in range(m)])
    T = LA.block_diag(*[F] * m)
    Ti = LA.block_diag(*[Fi] * m)
    E2 = LA.eigvals((Ti @ A @ T)[np.ix_(idx, idx)])
    want = converged(E, E2, many=7)
    # well conditioned ones only
    c.event('eigenvalues judged', len(want))
    want = [z for z in want if np.sum(np.abs(E - z) < 1e-3 * max(1, abs(z))) == 1]
    match(c, 'periodic eigenvalue', want, lam, 2e-6)
    c.seen('periodic', m, n, len(eqs[0]))


def coupled(c):
    """Systems of second order operators with conditions at the ends."""
    from funpy import Fun
    rng = c.rng
    m = int(rng.choice([2, 2, 3]))
    names = ['u', 'v', 'w'][:m]
    dom = [[-1., 1.], [0., 1.], [0., 2.], [0., np.pi], [1., 3.], [-.5, .5]][int(rng.integers(6))]
    h = 2 / (dom[1] - dom[0])
    one = lambda x: 1 + 0 * x
    pool = [('1.5', lambda x: 1.5 + 0 * x), ('x', lambda x: x), ('sin(x)', np.sin), ('(1 + x**2)', lambda x: 1 + x ** 2), ('(-2)', lambda x: -2 + 0 * x)]
    f0 = [(lambda x, j=j: .5 + .2 * j + (.3 - .1 * j) * ((2 * x - dom[0] - dom[1]) * h / 2)) for j in range(m)]
    g0 = [(.3 - .1 * j) * h for j in range(m)]
    terms = []      # equation, unknown, derivative, factor
    eqs = []
    for i in range(m):
        A, g = [('1', one), ('2', lambda x: 2 + 0 * x), ('(3 + x)', lambda x: 3 + x), ('exp(x/4)', lambda x: np.exp(x / 4))][int(rng.integers(4))]
        t = ['%s*diff(%s, x, 2)' % (A, names[i])]
        terms.append((i, i, 2, g))
        for _ in range(int(rng.integers(1, 4))):
            j = int(rng.integers(m))
            S, g = pool[int(rng.integers(len(pool)))]
            q = int(rng.integers(4))
            if q < 2:
                t.append('%s*%s' % (S, [names[j], 'diff(%s, x)' % names[j]][q]))
                terms.append((i, j, q, g))
            elif q == 2:
                t.append('%s*%s**2' % (S, names[j]))
                terms.append((i, j, 0, lambda x, g=g, j=j: 2 * g(x) * f0[j](x)))
            else:
                l = int(rng.integers(m))
                t.append('%s*%s*diff(%s, x)' % (S, names[j], names[l]))
                terms.append((i, j, 0, lambda x, g=g, l=l: g(x) * g0[l]))
                terms.append((i, l, 1, lambda x, g=g, j=j: g(x) * f0[j](x)))
        eqs.append(' + '.join(t[q] for q in rng.permutation(len(t))))
    ends = [(0, 1., 0.), (1, 1., 0.), (0, 0., 1.), (1, 0., 1.), (0, 1., .5), (1, 1., -1.)]
    bcs = []
    for i in range(m):
        bcs += [(i,) + ends[int(rng.choice([0, 2, 4]))], (i,) + ends[int(rng.choice([1, 3, 5]))]]
    bcs = [bcs[k] for k in rng.permutation(len(bcs))]
    txt = []
    for i, e, a, b in bcs:
        p = dom[e]
        s = ' + '.join(([('%s(%r)' % (names[i], p)) if a == 1 else '%r*%s(%r)' % (a, names[i], p)] if a else []) + (['%r*np.diff(%s)(%r)' % (b, names[i], p)] if b else []))
        txt.append(s if rng.random() < .6 else eval('lambda %s: %s' % (', '.join(names), s), dict(np=np)))

    def spectrum(n):
        D, t = cheb(n)
        D = D * h
        x = .5 * (dom[0] + dom[1]) + t / h
        P = [np.eye(n), D, D @ D]
        s = -np.cos(np.pi * (np.arange(n - 2) + .5) / (n - 2))
        R = np.linalg.solve(np.polynomial.chebyshev.chebvander(t, n - 1).T, np.polynomial.chebyshev.chebvander(s, n - 1).T).T
        L = np.zeros((m * (n - 2), m * n))
        B = np.zeros((m * (n - 2), m * n))
        for i, j, k, g in terms:
            L[i * (n - 2):(i + 1) * (n - 2), j * n:(j + 1) * n] += R @ (g(x)[:, None] * P[k])
        for i in range(m):
            B[i * (n - 2):(i + 1) * (n - 2), i * n:(i + 1) * n] = R
        C = np.zeros((2 * m, m * n))
        for r, (i, e, a, b) in enumerate(bcs):
            q = 0 if e == 0 else n - 1
            C[r, i * n + q] += a
            C[r, i * n:(i + 1) * n] += b * D[q]
        al, be = LA.eig(np.vstack([C, L]), np.vstack([0 * C, B]), right=False, homogeneous_eigvals=True)
        keep = np.abs(be) > 1e-12 * np.max(np.abs(be))
        return al[keep] / be[keep]
    n = int(rng.choice([40, 48, 57]))
    c.describe('%s; %s on %s n=%d' % ('; '.join(eqs), bcs, dom, n))
    cf = np.zeros((n, m), order='F')
    for j in range(m):
        cf[:2, j] = .5 + .2 * j, .3 - .1 * j
    f = Fun(coeffs=cf, domain=dom, simplify=False)
    ok, lam = c.do('eigs', lambda: eigs_of(eqs, txt, dom, n, 'ultraS', f, names), f)
    c.true('computation reported successful', bool(ok))
    E = spectrum(44)
    want = converged(E, spectrum(36), many=6)
    want = [z for z in want if np.sum(np.abs(E - z) < 1e-3 * max(1, abs(z))) == 1]
    c.event('eigenvalues judged', len(want))
    match(c, 'eigenvalue of the system', want, lam, 1e-6)
    c.seen('coupled', m, n, str(bcs), *[q[:16] for q in eqs])


GROUPS = {'coupled': (coupled, 80, 1000), 'bounded': (bounded, 240, 3000), 'periodic': (periodic, 160, 1800)}
