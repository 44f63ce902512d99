"""Generators and independent reference implementations (numpy only)."""
import numpy as np
from numpy.polynomial import chebyshev as C


# -- domains -----------------------------------------------------------------
def domain(rng, plain=0.3):
    u = rng.random()
    if u < plain:
        d = [-1.0, 1.0]
    elif u < plain + 0.35:
        a = float(rng.uniform(-5, 5))
        d = [a, a + float(rng.uniform(0.2, 8))]
    else:
        d = [[0.0, 1.0], [-np.pi, np.pi], [0.0, 2 * np.pi], [-0.5, 0.5], [1.0, 5.0], [-3.0, -1.0], [0.0, 1e-2],
             [0.0, 100.0], [-1000.0, 1000.0], [10.0, 11.0], [-2.0, 1.0], [0.0, 2.0]][int(rng.integers(12))]
    return np.array(d) if rng.random() < 0.3 else d


def inside(rng, dom, k=17):
    """Points of the domain, its ends included."""
    a, b = float(dom[0]), float(dom[-1])
    x = a + (b - a) * rng.random(k)
    x = np.clip(x, a, b)
    return np.concatenate(([a], np.sort(x), [b]))


def to_ref(dom, x):
    a, b = float(dom[0]), float(dom[-1])
    return np.clip((2 * np.asarray(x) - a - b) / (b - a), -1, 1)


# -- Chebyshev -----------------------------------------------------------------
SIZES = (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34, 40, 49, 50, 51, 52, 63, 64, 65, 66, 80, 100,
         127, 128, 129, 130, 150, 200, 256, 257)
BIG = (300, 400, 511, 512, 513, 514, 515, 600, 1000, 1025)


def size(rng, big=0.04):
    u = rng.random()
    if u < big:
        return int(rng.choice(BIG))
    if u < 0.5:
        return int(rng.integers(1, 40))
    return int(rng.choice(SIZES))


def cols(rng):
    return int(rng.choice([1, 1, 1, 2, 2, 3, 4, 7]))


def coeffs(rng, n, m, decay=None, scale=1.0):
    """n x m coefficients: fast, slow or no decay, some exactly zero entries, non-zero last row."""
    if decay is None:
        decay = rng.choice([0.0, 1.0, 2.0, -1.0, -2.0])
    k = np.arange(n)[:, None]
    w = 1.0 / (1 + k) ** decay if decay >= 0 else (0.7 if decay == -1 else 0.5) ** np.minimum(k, 40 if decay == -1 else 28)
    c = rng.standard_normal((n, m)) * w
    u = rng.random()
    if u < 0.12:
        c[1::2] = 0          # even
    elif u < 0.24:
        c[0::2] = 0          # odd
    elif u < 0.32:
        c[rng.random((n, m)) < 0.5] = 0
    if not np.any(c):
        c[0, :] = 1.0
    if c[-1].any() == 0 and n > 1:
        c[-1, :] = w[-1] * 0.5
    if m > 1 and n > 2 and rng.random() < .2:      # columns of different length
        keep = int(rng.integers(m))
        for j in range(m):
            if j != keep:
                c[int(rng.integers(1, n + 1)):, j] = 0
        if not np.all(np.any(c, axis=0)):
            c[0, ~np.any(c, axis=0)] = 1.0
    return np.asfortranarray(scale * c)


def ceval(c, t):
    """Values (len(t), m) of the Chebyshev series c (n, m) on [-1, 1], by the definition T_k = cos(k acos t)."""
    c = np.asarray(c)
    if c.ndim == 1:
        c = c[:, None]
    v = C.chebval(np.asarray(t, float), c)
    return v.T


def cder(c, k=1):
    c = np.asarray(c)
    out = c
    for _ in range(k):
        n = out.shape[0]
        if n <= 1:
            out = np.zeros((1, out.shape[1]))
            continue
        out = C.chebder(out, axis=0)
    return out


def cint(c):
    """Coefficients of the antiderivative vanishing at -1."""
    return C.chebint(np.asarray(c), lbnd=-1, axis=0)


def cmul(a, b):
    """Column-wise product of Chebyshev series."""
    m = a.shape[1]
    out = np.zeros((a.shape[0] + b.shape[0] - 1, m), dtype=np.result_type(a, b))
    for j in range(m):
        p = C.chebmul(a[:, j], b[:, j])
        out[:len(p), j] = p
    return out


def cdefint(c):
    k = np.arange(c.shape[0])
    w = np.zeros(c.shape[0])
    w[::2] = 2.0 / (1.0 - k[::2] ** 2.0)
    return w @ c


def fun(c, dom=(-1, 1)):
    from funpy import Fun
    c = np.asfortranarray(np.array(c, dtype=float))
    if c.ndim == 1:
        c = c[:, None]
    return Fun.from_coeffs(c, c.shape[1], domain=dom)


def V(f, x, m):
    """Values of f at x as (len(x), m)."""
    v = np.asarray(f(np.asarray(x, float)))
    if v.size != len(x) * m:
        raise ValueError('evaluation at %d points of %d columns returned shape %s' % (len(x), m, v.shape))
    return v.reshape(len(x), m)


# -- Fourier -------------------------------------------------------------------
def freqs(n):
    """Frequencies of the stored coefficients; for even n the first is the cosine of frequency n/2."""
    return np.arange(n) - n // 2


def tcoeffs(rng, n, m, real=True, decay=None):
    if decay is None:
        decay = rng.choice([0.0, 1.0, 2.0, -1.0])
    k = np.abs(freqs(n))[:, None]
    w = 1.0 / (1 + k) ** decay if decay >= 0 else 0.75 ** np.minimum(k, 30)
    c = (rng.standard_normal((n, m)) + 1j * rng.standard_normal((n, m))) * w
    if real:
        if n % 2:
            c = 0.5 * (c + np.conj(c[::-1]))
        else:
            c[1:] = 0.5 * (c[1:] + np.conj(c[1:][::-1]))
            c[0] = c[0].real
    return np.asfortranarray(c)


def teval(c, t):
    c = np.asarray(c)
    n = c.shape[0]
    k = freqs(n)
    E = np.exp(1j * np.pi * np.outer(t, k))
    if n % 2 == 0:
        E[:, 0] = np.cos(np.pi * (n // 2) * np.asarray(t))
    return E @ c


def tder(c, k=1):
    """Values are taken with teval_d."""
    return c


def teval_d(c, t, d):
    """d-th derivative (with respect to the reference variable) at t."""
    n = c.shape[0]
    k = freqs(n)
    E = np.exp(1j * np.pi * np.outer(t, k)) * (1j * np.pi * k) ** d
    if n % 2 == 0:
        w = np.pi * (n // 2)
        s = [np.cos, lambda z: -np.sin(z), lambda z: -np.cos(z), np.sin][d % 4]
        E[:, 0] = w ** d * s(w * np.asarray(t))
    return E @ c


def tfun(c, dom=(-1, 1)):
    from funpy import Fun
    c = np.asfortranarray(np.array(c, dtype=complex))
    if c.ndim == 1:
        c = c[:, None]
    return Fun(coeffs=c, type='trig', domain=dom)


def noise(op, dom, x):
    """How far rounding of the argument on this domain can move op: eps * offset * slope (per reference length)."""
    a, b = float(dom[0]), float(dom[-1])
    off = 1 + (abs(a) + abs(b)) / (b - a)
    g = np.linspace(a, b, 4001)
    v = op(g)
    slope = np.max(np.abs(np.diff(v, axis=0)), axis=0) * 2000
    return 8e-15 * off * slope


def lip(c):
    """Bound for |f'| on [-1, 1] of a Chebyshev series."""
    k = np.arange(np.shape(c)[0])
    return np.max(k ** 2 @ np.abs(np.asarray(c)))


def argtol(c, dom):
    """Absolute effect of argument rounding on the values of the series c."""
    a, b = float(dom[0]), float(dom[-1])
    return 4e-15 * (1 + (abs(a) + abs(b)) / (b - a)) * lip(c)
