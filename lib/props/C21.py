"""Fourier discretization matrices act as the operators they stand for."""
import contextlib
import io
import numpy as np
import scipy.sparse as sps
import gen
from gen import V, domain
from props.C10 import tsize

RULE = ('differentiation, multiplication, integration, aggregation and evaluation-grid matrices of the Fourier discretizations in coefficient '
        'and collocation form, every parity, sizes 1..300, orders 0..4, multipliers shorter and longer than the matrix, random domains, '
        'applied to random trigonometric polynomials; quadrature of the non-local operator; whole periodic operators with variable '
        'coefficients and systems; oracle is the explicit sum of exponentials; distinct by matrix, size, parity, order')
ASSUMPTIONS = ['the Nyquist coefficient of an even length stands for a cosine: its odd derivatives are zero']


def dense(A):
    return A.toarray() if sps.issparse(A) or hasattr(A, 'toarray') else np.asarray(A)


def ks(n):
    return np.arange(-(n // 2), (n + 1) // 2)


def poly(rng, K, real=False):
    """Random trigonometric polynomial with wave numbers -K..K."""
    c = (rng.standard_normal(2 * K + 1) + 1j * rng.standard_normal(2 * K + 1)) / (1 + np.abs(np.arange(-K, K + 1)))
    if real:
        c = .5 * (c + np.conj(c[::-1]))
    return c


def ev(c, t, order=0):
    K = len(c) // 2
    k = np.arange(-K, K + 1)
    return np.exp(1j * np.pi * np.outer(t, k)) @ (c * (1j * np.pi * k) ** order)


def embed(c, n):
    K = len(c) // 2
    z = np.zeros(n, complex)
    z[n // 2 - K:n // 2 + K + 1] = c
    return z


def series(z, t):
    n = len(z)
    return np.exp(1j * np.pi * np.outer(t, ks(n))) @ z


def spectral(c):
    from funpy import Fun
    from funpy.colloc.trigspec import matrices as M
    from funpy.colloc.trigspec.trigspec import trigspec
    rng = c.rng
    n = max(1, min(300, tsize(rng)))
    dom = [float(v) for v in domain(rng)]
    h = 2 / (dom[1] - dom[0])
    c.describe('n=%d on %s' % (n, dom))
    t = np.sort(rng.uniform(-1, 1, 15))
    T = c.do('discretization', lambda: trigspec(source=None, domain=dom, dimension=n))
    # differentiation
    K = (n - 1) // 2
    K = int(rng.integers(0, K + 1))
    p = poly(rng, K)
    z = embed(p, n)
    for m in range(int(rng.integers(0, 3)), 5):
        D = c.do('diffmat', lambda: dense(M.diffmat(n, m)))
        c.true('shape', D.shape == (n, n), str(D.shape))
        ref = z * (1j * ks(n)) ** m
        c.close('diffmat order %d' % m, D @ z, ref, 1e-12, scale=max(1, K) ** m * np.max(np.abs(p)))
        E = c.do('diff', lambda: dense(T.diff(m)))
        c.close('differentiation order %d' % m, series(E @ z, t), ev(p, t, m) * h ** m, 1e-11,
                scale=np.sum(np.abs(p)) * (np.pi * max(1, K) * h) ** m)
        off = D - np.diag(np.diag(D))
        c.true('diagonal', not np.any(off))
        if n % 2 == 0:
            c.close('Nyquist term', D[0, 0], 0 if m % 2 else (1j * n / 2) ** m, 1e-12, scale=max(1.0, n / 2) ** m)
    # integration
    S = c.do('intmat', lambda: dense(M.intmat(n)))
    y = S @ z
    c.close('integral', y, embed(np.array([2 * p[K]]), n), 1e-13, scale=max(1, np.max(np.abs(p))))
    S = c.do('int', lambda: dense(T.int()))
    c.close('integral on the domain', S @ z, embed(np.array([2 * p[K] / h]), n), 1e-13, scale=max(1, np.max(np.abs(p))) / h)
    # non-local operator: half the integral over 0 <= r <= 1 of u(x + r) - u(x - r)
    if n > 1:
        A = c.do('aggregation', lambda: dense(T.aggregation()))
        r, w = np.polynomial.legendre.leggauss(120 + 8 * K if K * h < 60 else 600)
        r, w = .5 + .5 * r, .5 * w
        if K * h < 60:
            u = lambda s: ev(p, s)
            ref = .5 * sum(wi * (u(t + h * ri) - u(t - h * ri)) for ri, wi in zip(r, w))
            c.close('aggregation', series(A @ z, t), ref, 1e-12, scale=np.sum(np.abs(p)))
    c.seen('spectral', n, K, n % 2)


def multiply(c):
    from funpy import Fun
    from funpy.colloc.trigspec import matrices as M
    from funpy.colloc.trigspec.trigspec import trigspec
    rng = c.rng
    n = max(2, min(260, tsize(rng)))
    nf = max(1, min(300, tsize(rng)))
    real = bool(rng.random() < .5)
    dom = [float(v) for v in domain(rng)]
    f = gen.tcoeffs(rng, nf, 1, real=real)
    if nf % 2 == 0:
        f[0] = 0
    if rng.random() < .1:
        f[:] = 0
        f[int(rng.integers(nf)) if not real else nf // 2] = 1.5
        if nf % 2 == 0:
            f[0] = 0
    F = c.do('function', lambda: Fun(coeffs=np.asfortranarray(f), type='trig', domain=dom, simplify=False))
    g = np.array(F.coeffs)[:, 0]
    c.describe('n=%d multiplier of length %d' % (n, nf))
    A = c.do('multmat', lambda: dense(M.multmat(n, F)), F)
    c.true('shape', A.shape == (n, n), str(A.shape))
    kf = dict(zip(ks(len(g)), g))
    ref = np.array([[kf.get(i - j, 0) for j in range(n)] for i in range(n)])
    c.close('multiplication matrix', A, ref, 1e-13, scale=max(1e-300, np.max(np.abs(g))))
    T = trigspec(source=None, domain=dom, dimension=n)
    B = c.do('mult', lambda: dense(T.mult(F)), F)
    c.close('multiplication on the domain', B, ref, 1e-13, scale=max(1e-300, np.max(np.abs(g))))
    K = (n - 1) // 2 - len(g) // 2
    if K >= 0:
        p = poly(rng, K)
        t = np.sort(rng.uniform(-1, 1, 15))
        a, b = dom
        xs = .5 * (a + b) + .5 * (b - a) * t
        c.close('product', series(A @ embed(p, n), t), np.asarray(V(F, xs, 1))[:, 0] * ev(p, t), 5e-12,
                scale=np.sum(np.abs(p)) * np.sum(np.abs(g)))
    c.seen('multiply', n % 2, nf % 2, n < nf, real, n)


def collocation(c):
    from funpy.colloc.trigcolloc import matrices as M
    rng = c.rng
    n = max(2, min(200, tsize(rng)))
    m = int(rng.integers(0, 4))
    K = int(rng.integers(0, (n - 1) // 2 + 1))
    p = poly(rng, K)
    t = -1 + 2 * np.arange(n) / n
    c.describe('n=%d order %d' % (n, m))
    D = c.do('collocation diffmat', lambda: dense(M.diffmat(n, m)))
    c.true('shape', D.shape == (n, n), str(D.shape))
    c.close('derivative at the grid', D @ ev(p, t), ev(p, t, m), 1e-12, scale=np.sum(np.abs(p)) * (np.pi * n / 2) ** m)
    c.close('constants', D @ np.ones(n), np.ones(n) if m == 0 else np.zeros(n), 1e-12, scale=(np.pi * n / 2) ** m)
    if n % 2 == 0 and m:
        # the highest mode is a cosine
        q = np.cos(np.pi * n / 2 * t)
        ref = 0 * t if m % 2 else q * (-1) ** (m // 2) * (np.pi * n / 2) ** m
        c.close('highest mode', D @ q, ref, 1e-11, scale=(np.pi * n / 2) ** m)
    c.seen('collocation', n, m)


def operator(c):
    """The whole discretization of a linear periodic problem or system."""
    from funpy import Fun
    from funpy.colloc import ChebOp
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    rng = c.rng
    m = int(rng.choice([1, 1, 2, 3]))
    names = ['u', 'v', 'w'][:m]
    dom = [[-1., 1.], [0., 2.], [0., 1.], [-np.pi, np.pi], [1., 4.], [0., 20.]][int(rng.integers(6))]
    h = 2 / (dom[1] - dom[0])
    n = int(rng.choice([31, 32, 48, 63, 64, 80, 101]))
    order = int(rng.integers(1, 5)) if m == 1 else int(rng.integers(1, 3))
    wave = 2 * np.pi / (dom[1] - dom[0])
    pool = [('1.5', lambda x: 1.5 + 0 * x), ('(-0.7)', lambda x: -.7 + 0 * x), ('cos(%.17g*x)' % wave, lambda x: np.cos(wave * x)),
            ('(2 + sin(%.17g*x))' % wave, lambda x: 2 + np.sin(wave * x)), ('cos(%.17g*x)**2' % wave, lambda x: np.cos(wave * x) ** 2)]
    eqs, forms = [], []
    for i in range(m):
        texts, terms = [], []
        for j in range(m):
            for k in range(order + 1):
                if (i == j and k == order) or rng.random() < .45:
                    s, g = pool[int(rng.integers(len(pool)))]
                    texts.append('%s*%s' % (s, names[j] if k == 0 else 'diff(%s, x, %d)' % (names[j], k) if k > 1 else 'diff(%s, x)' % names[j]))
                    terms.append((j, k, g))
        order_ = rng.permutation(len(texts))
        eqs.append(' + '.join(texts[q] for q in order_))
        forms.append(terms)
    c.describe('%s on %s n=%d' % ('; '.join(eqs), dom, n))

    def run():
        with contextlib.redirect_stdout(io.StringIO()):
            op = ChebOp(functions=list(names), n=n, domain=list(dom), diff_order=order, colloc='trigspec')
            op.eqn = list(eqs)
            u0 = Fun(op=[lambda x, s=s: 1 + .3 * np.sin(wave * x + s) for s in range(m)], type='trig', domain=dom)
            s = NewtonSystem(DeflationState(u=u0).prolong(n), op)
            return dense(s.matrix()[0].to_matrix())
    A = c.do('discretize', run)
    c.true('shape', A.shape == (n * m, n * m), str(A.shape))
    K = (n - 1) // 2 - 3
    K = min(K, 8)
    ps = [poly(rng, K, real=rng.random() < .5) for _ in names]
    y = A @ np.concatenate([embed(p, n) for p in ps])
    t = np.sort(rng.uniform(-1, 1, 21))
    x = .5 * (dom[0] + dom[1]) + t / h
    for i in range(m):
        ref = np.zeros(len(t), complex)
        size = 0.
        for j, k, g in forms[i]:
            d = ev(ps[j], t, k) * h ** k
            ref = ref + g(x) * d
            size += 3 * np.max(np.abs(d))
        c.close('equation %d' % i, series(y[i * n:(i + 1) * n], t), ref, 2e-11, scale=size)
    c.seen('operator', m, order, n, len(forms[0]))


GROUPS = {'spectral': (spectral, 1000, 18000), 'multiply': (multiply, 1200, 21000), 'collocation': (collocation, 1200, 18000),
          'operator': (operator, 160, 2700)}
