"""Ultraspherical operator matrices and basis conversions act as the operators they stand for."""
import numpy as np
from numpy.polynomial import chebyshev as C
import gen
from gen import V, inside, domain

RULE = ('derivative, conversion, multiplication, integration and evaluation matrices of 1..260 coefficients, orders and bases 0..4, '
        'applied to random series and compared with the series evaluated in the Gegenbauer basis; coefficient arrays converted between '
        'all pairs of bases; whole discretizations of linear operators on random domains; distinct by kind, size, order, basis, parity')


def dense(A):
    return np.asarray(A.toarray() if hasattr(A, 'toarray') else A)


def geg(c, lam, x):
    """Values of sum c_j C_j^(lam) (lam = 0: Chebyshev T) by the three-term recurrence, and a bound of their size."""
    c = np.asarray(c)
    if lam == 0:
        return C.chebval(x, c), float(np.sum(np.abs(c))) + 1e-300
    p0, p1 = np.ones_like(x), 2 * lam * x
    b0, b1 = 1.0, 2.0 * lam
    v, s = c[0] * p0, abs(c[0]) * b0
    for j in range(1, len(c)):
        v = v + c[j] * p1
        s += abs(c[j]) * b1
        p0, p1 = p1, (2 * (j + lam) * x * p1 - (j + 2 * lam - 1) * p0) / (j + 1)
        b0, b1 = b1, b1 * (j + 2 * lam) / (j + 1)
    return v, float(s) + 1e-300


def dim(rng, lo=1):
    n = int(rng.choice([lo, 2, 3, 4, 5, 8, 16, 17, 32, 50, 99, 100, 101, 128, 200, 257, int(rng.integers(lo, 260))]))
    return max(n, lo)


def vec(rng, n):
    d = float(rng.choice([0, 1, 2, 3]))
    u = rng.standard_normal(n) / (1 + np.arange(n)) ** d
    k = rng.random()
    if k < .15:
        u[::2] = 0
    elif k < .3:
        u[1::2] = 0
    if not u.any():
        u[-1] = 1.0
    return u * float(10.0 ** rng.choice([0, 0, -15, 9]))


def fmt(rng):
    return str(rng.choice(['csr', 'csc', 'csr', 'dia']))


def calculus(c):
    from funpy.colloc.ultraS import matrices as M
    rng = c.rng
    n, m = dim(rng), int(rng.integers(0, 5))
    u, x = vec(rng, n), np.cos(rng.uniform(0, np.pi, 21))
    c.describe('n=%d order %d' % (n, m))
    D = dense(c.do('derivative matrix', lambda: M.diffmat(n, m, format='csr')))
    c.true('shape', D.shape == (n, n))
    got, s = geg(D @ u, m, x)
    ref = C.chebval(x, C.chebder(u, m)) if m else C.chebval(x, u)
    c.close('derivative', got, ref, 1e-12, scale=max(s, 1e-300))
    I = dense(c.do('integration matrix', lambda: M.intmat(max(n, 2), format=fmt(rng))))
    uu = np.r_[u, np.zeros(max(n, 2) - n)]
    r = I @ uu
    c.close('integral', r[:1], [gen.cdefint(uu[:, None])[0]], 1e-13, scale=np.sum(np.abs(u)))
    c.true('only the first row', not np.any(r[1:]))
    R = dense(c.do('projection', lambda: M.realmat(n, format=fmt(rng))))
    c.true('projection on the constant', np.array_equal(R @ u, np.r_[u[:1], np.zeros(n - 1)]))
    if n > 1:
        y = rng.uniform(-1, 1, 1)
        if rng.random() < .3:
            y = np.array([float(rng.choice([-1., 1., 0.]))])
        E = dense(c.do('evaluation functional', lambda: M.evalfun(n, y)))
        t = -np.cos(np.pi * np.arange(n) / (n - 1))
        c.close('evaluation', E @ C.chebval(t, u), C.chebval(y, u), 1e-12, scale=np.sum(np.abs(u)))
    D2 = dense(M.diffmat(n, m, format='csr'))
    c.true('repeated', np.array_equal(D, D2))
    c.seen('calculus', n, m)


def convert(c):
    from funpy.colloc.ultraS import matrices as M
    rng = c.rng
    n = dim(rng, 2)
    K1, K2 = int(rng.integers(0, 4)), int(rng.integers(-1, 4))
    u, x = vec(rng, n), np.cos(rng.uniform(0, np.pi, 21))
    c.describe('n=%d from C^(%d) to C^(%d)' % (n, K1, K2 + 1))
    S = dense(c.do('conversion', lambda: M.convertmat(n, K1, K2, format='csr')))
    got, s = geg(S @ u, max(K1, K2 + 1), x)
    ref, s0 = geg(u, K1, x)
    c.close('converted series', got, ref, 1e-12, scale=s + s0)
    Si = dense(c.do('inverse conversion', lambda: M.convertmat_inv(n, K1, K2, format='csr')))
    c.close('back', Si @ (S @ u), u, 1e-12, scale=np.max(np.abs(Si) @ np.abs(S) @ np.abs(u)))
    w = vec(rng, n)
    got, s = geg(Si @ w, K1, x)
    ref, s0 = geg(w, max(K1, K2 + 1), x)
    c.close('converted back', got, ref, 1e-11, scale=s + s0 + geg(np.abs(Si) @ np.abs(w), K1, np.ones(1))[1])
    c.seen('convert', n, K1, K2)


def multiply(c):
    from funpy.colloc.ultraS import matrices as M
    from funpy import Fun
    rng = c.rng
    k, lam = dim(rng, 1), int(rng.integers(0, 5))
    nf = int(rng.choice([1, 2, 3, 4, 5, 8, 13, 20, k, max(k // 2, 1)]))
    nf = max(1, min(nf, k))
    if lam >= 2 and k > (150 if lam == 2 else 48):
        # the recurrence loses digits like k^(2 lam - 2): sizes at which most of them are left
        k = 150 if lam == 2 else 48
        nf = min(nf, k)
    a = rng.standard_normal(nf) * np.exp(-float(rng.choice([0.1, .4])) * np.arange(nf))
    par = rng.random()
    if nf > 1 and par < .3:
        a[::2] = 0
    elif nf > 2 and par < .5:
        a[1::2] = 0
    elif par < .65:
        a[:-1] = 0          # a single term
    if not a.any():
        a[-1] = 1.0
    sc = float(10.0 ** rng.choice([0, 0, 0, -14, -30, 8]))
    a = a * sc
    c.describe('k=%d, function of %d coefficients, C^(%d), scale %g' % (k, nf, lam, sc))
    f = gen.fun(a[:, None], (-1, 1))
    A = dense(c.do('multiplication matrix', lambda: M.multmat(k, f, lam, format='csr'), f))
    c.true('shape', A.shape == (k, k))
    x = np.cos(rng.uniform(0, np.pi, 21))
    p = k - nf + 1              # the product of p coefficients with f fits
    u = vec(rng, k)
    u[p:] = 0
    if not u.any():
        u[0] = 1.0
    got, s = geg(A @ u, lam, x)
    ref, s0 = geg(u, lam, x)
    fv = C.chebval(x, a)
    s = max(s, geg(np.abs(A) @ np.abs(u), lam, x)[1] if lam > 2 else 0)
    c.close('product', got, ref * fv, 2e-11 if lam < 3 else 2e-10, scale=s + s0 * np.sum(np.abs(a)))
    # entries do not depend on the size: the k x k matrix is a section of a larger one
    if lam < 2 or k < 100:
        B = dense(M.multmat(k + 7, f, lam, format='csr'))[:k, :k]
        c.close('section', A, B, 1e-12, scale=np.max(np.abs(B)) + np.sum(np.abs(a)))
    c.seen('multiply', k, nf, lam, 'odd' if par < .3 else 'even' if par < .5 else 'any')


def bases(c):
    from funpy.ultra import ultra2ultra
    from funpy import Fun
    rng = c.rng
    n, m = int(rng.choice([1, 2, 3, 4, 7, 16, 33, 60, 100, int(rng.integers(1, 100))])), int(rng.integers(1, 4))
    li, lo = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    a = np.column_stack([vec(rng, n) for _ in range(m)])
    c.describe('%d x %d from C^(%d) to C^(%d)' % (n, m, li, lo))
    x = np.cos(rng.uniform(0, np.pi, 15))
    keep = a.copy()
    r = c.do('ultra2ultra', lambda: ultra2ultra(a, li, lo), a)
    c.true('shape', r.shape == (n, m))
    for j in range(m):
        got, s = geg(r[:, j], lo, x)
        ref, s0 = geg(keep[:, j], li, x)
        c.close('converted', got, ref, 1e-11, scale=s + s0)
    back = ultra2ultra(np.array(r), lo, li)
    for j in range(m):
        c.close('round trip', back[:, j], keep[:, j], 1e-12, scale=geg(keep[:, j], li, x)[1] + geg(r[:, j], lo, x)[1])
    dom = domain(rng)
    v = keep.ravel(order='F').copy()
    f = c.do('from_ultra', lambda: Fun.from_ultra(v, m, li, domain=dom), v)
    t = inside(rng, dom, 9)
    y = gen.to_ref(dom, t)
    got = V(f, t, m)
    for j in range(m):
        ref, s0 = geg(keep[:, j], li, y)
        c.close('function from ultraspherical coefficients', got[:, j], ref, 5e-11, scale=s0)
    c.seen('bases', n, m, li, lo)


def operator(c):
    """The discretization of a linear operator applied to coefficients of u gives the coefficients of L u."""
    import contextlib, io
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    order = int(rng.integers(1, 4))
    dom = [float(v) for v in domain(rng)]
    if dom[1] - dom[0] > 20 or dom[1] - dom[0] < .1:
        dom = [0.0, 2.0]
    n = int(rng.choice([16, 24, 33, 48, 64, 100, 120, 160]))
    mid, w = .5 * (dom[0] + dom[1]), .5 * (dom[1] - dom[0])
    pool = [('1.5', lambda x: 1.5 + 0 * x), ('x', lambda x: x), ('(x**2 - 2)', lambda x: x ** 2 - 2),
            ('sin(x)', np.sin), ('(1 + x - x**3)', lambda x: 1 + x - x ** 3), ('cos(2*x)', lambda x: np.cos(2 * x))]
    terms, funs = [], []
    for j in range(order + 1):
        if j < order and rng.random() < .3:
            funs.append(lambda x: 0 * x)
            continue
        s, g = pool[int(rng.integers(len(pool)))]
        terms.append('%s*%s' % (s, 'u' if j == 0 else 'diff(u, x)' if j == 1 else 'diff(u, x, %d)' % j))
        funs.append(g)
    eqn = ' + '.join(terms)
    if not any(t.endswith('*u') for t in terms):
        eqn += ' + 2*u'
        f0 = funs[0]
        funs[0] = lambda x: f0(x) + 2
    c.describe('%s on %s, n=%d' % (eqn, dom, n))

    def run():
        with contextlib.redirect_stdout(io.StringIO()):
            op = ChebOp(functions=['u'], n=n, domain=dom, diff_order=order)
            op.eqn = [eqn]
            op.bcs = [['u(%r)' % dom[0]], ['u(%r)' % dom[0], 'u(%r)' % dom[1]],
                      ['u(%r)' % dom[0], 'u(%r)' % dom[1], 'np.diff(u)(%r)' % dom[0]]][order - 1]
            u0 = Fun(coeffs=np.array([[1.0], [.5]]), domain=dom)
            sysm = NewtonSystem(DeflationState(u=u0).prolong(n), op)
            return dense(sysm.matrix()[0].to_matrix())
    A = c.do('discretize', run)
    c.true('shape', A.shape == (n, n))
    # u of few coefficients, so that L u fits
    k = min(n // 3, 12)
    a = rng.standard_normal(k)
    y = A @ np.r_[a, np.zeros(n - k)]
    # boundary rows
    h = 2 / (dom[1] - dom[0])
    bc = [C.chebval(-1., a)] + ([C.chebval(1., a)] if order > 1 else []) + ([C.chebval(-1., C.chebder(a)) * h] if order > 2 else [])
    c.close('boundary rows', y[:order], bc, 1e-10, scale=np.sum(np.abs(a)) * k ** 2 * max(h, 1))
    # differential rows: coefficients in C^(order), the last `order` ones cut off
    z = np.linspace(-1, 1, 400)
    xs = mid + w * z
    ref = np.zeros_like(xs)
    size = 0.0
    for j in range(order + 1):
        d = C.chebval(z, C.chebder(a, j) if j else a) * h ** j
        ref = ref + funs[j](xs) * d
        size = max(size, float(np.max(np.abs(funs[j](xs))) * np.max(np.abs(d))))
    got, s = geg(np.r_[y[order:], np.zeros(order)], order, z)
    # entire coefficient functions of moderate frequency are resolved by n/2 coefficients when n is large enough
    if n >= 48 and w <= 4:
        c.close('L u', got, ref, 1e-10, scale=max(s, size) * (1 if w < 2.5 else 100))
    c.seen('operator', order, n, len(terms))


GROUPS = {'calculus': (calculus, 1600, 20000), 'convert': (convert, 1200, 16000), 'multiply': (multiply, 2000, 20000),
          'bases': (bases, 1600, 16000), 'operator': (operator, 240, 2400)}
