"""Functions are values: histories of operations never change a function that is not their target."""
import copy
import operator
import numpy as np
import gen
from gen import V, domain
from props.C10 import setup as tsetup, size_of

RULE = ('histories of 12..60 random operations on a pool of Chebyshev or trigonometric functions (shared and independent ones, '
        'copies, columns, in-place targets, results reused as operands, arrays handed out and scribbled on); after every step every '
        'function of the pool is compared with its recorded values, and recorded calls are repeated at the end of the history and on '
        'fresh functions; distinct by pairs of consecutive operations')

T = np.array([-1.0, -0.93, -0.71, -0.44, -0.1037, 0.0, 0.218, 0.377, 0.59, 0.7774, 0.96, 1.0])


def TOL(name, trig):
    if name in ('sin', 'exp'):
        return 2e-8 if trig else 5e-10           # resolved anew
    return 1e-10 if 'simplify' in name else 2e-11


class Pool:
    def __init__(self, c, trig):
        self.c, self.trig = c, trig
        rng = c.rng
        self.dom = domain(rng)
        self.m = int(rng.choice([1, 1, 2, 3]))
        a, b = float(self.dom[0]), float(self.dom[-1])
        self.x = np.clip(a + (T + 1) / 2 * (b - a), a, b)
        self.items = []          # [function, recorded values, size]
        self.tol = 1e-11

    def fresh(self):
        rng = self.c.rng
        n = int(rng.choice([1, 2, 3, 5, 8, 9, 16, 17, 20, 33]))
        if self.trig:
            a, _, _ = tsetup(self.c, m=self.m, n=n)
            a = np.asfortranarray(a / size_of(a))
            return gen.tfun(a, self.dom)
        a = gen.coeffs(rng, n, self.m, decay=-1)
        return gen.fun(a / np.max(np.sum(np.abs(a), axis=0)), self.dom)

    def values(self, f):
        return np.array(V(f, self.x, f.m))

    def add(self, f):
        v = self.values(f)
        if not np.all(np.isfinite(v)) or np.max(np.abs(v)) > 1e3 or f.shape[0] > 500:
            return
        self.items.append([f, v, max(np.max(np.abs(v)), 1e-3), f.shape[0]])
        if len(self.items) > 9:
            del self.items[int(self.c.rng.integers(len(self.items) - 1))]

    def pick(self):
        return self.items[int(self.c.rng.integers(len(self.items)))]

    def verify(self, label, skip=None):
        for f, v, s, n in self.items:
            if f is skip:
                continue
            self.c.close('bystander after %s' % label, self.values(f), v, self.tol, scale=s)
            self.c.true('columns of a bystander after %s' % label, f.m == v.shape[1])
            self.c.true('length of a bystander after %s' % label, f.shape[0] == n, lambda: '%s became %s' % (n, f.shape[0]))
            d = np.array(f.domain, float)
            self.c.true('domain of a bystander after %s' % label, d[0] == float(self.dom[0]) and d[-1] == float(self.dom[-1]))


def fval(p, f):
    return p.values(f)


def plain(x):
    return np.array(np.asarray(x), copy=True)


# name -> (number of operands, call, pointwise reference or None, kind of result)
class _Lazy:
    def __getattr__(self, k):
        import funpy
        return getattr(funpy, k)


_f = _Lazy()
COMMON = {
    'f+g': (2, lambda f, g: f + g, operator.add), 'f-g': (2, lambda f, g: f - g, operator.sub),
    'f*g': (2, lambda f, g: f * g, operator.mul), 'f+1': (1, lambda f: f + 1.25, lambda v: v + 1.25),
    '2*f': (1, lambda f: 2 * f, lambda v: 2 * v), '1-f': (1, lambda f: 1 - f, lambda v: 1 - v), '-f': (1, lambda f: -f, lambda v: -v),
    '+f': (1, lambda f: +f, lambda v: v), 'f/3': (1, lambda f: f / 3.0, lambda v: v / 3.0),
    'f**2': (1, lambda f: f ** 2, lambda v: v ** 2), 'f*f': (1, lambda f: f * f, lambda v: v * v),
    'f*1': (1, lambda f: f * 1.0, lambda v: v), 'f+0': (1, lambda f: f + 0.0, lambda v: v), 'f**1': (1, lambda f: f ** 1, lambda v: v),
    'exp': (1, lambda f: np.exp(f * 0.25), lambda v: np.exp(v * .25)), 'sin': (1, lambda f: np.sin(f * 0.5), lambda v: np.sin(v * .5)),
    'deepcopy': (1, lambda f: copy.deepcopy(f), lambda v: v),
    'real': (1, lambda f: np.real(f), np.real), 'diff': (1, lambda f: np.diff(f), None), 'diff2': (1, lambda f: np.diff(f, n=2), None),
    'simplify of a copy': (1, lambda f: copy.deepcopy(f).simplify(), lambda v: v),
    'prolong of a copy': (1, lambda f: copy.deepcopy(f).prolong(f.shape[0] + 5), lambda v: v),
}
CHEB = {'hstack of one': (1, lambda f: np.hstack([f]), lambda v: v), 'np.copy': (1, lambda f: np.copy(f), lambda v: v),
        'hstack and columns': (2, lambda f, g: np.hstack([f, g])[f.m:f.m + g.m], lambda v, w: w), 'cumsum': (1, lambda f: np.cumsum(f), None), 'restrict': None}
TRIG = {'conj': (1, lambda f: np.conj(f), np.conj), 'imag': (1, lambda f: np.imag(f), np.imag),
        'zero': (1, lambda f: f - f, lambda v: v * 0)}
NUMBERS = {
    'sum': (1, lambda f: plain(np.sum(f))), 'inner': (2, lambda f, g: plain(np.inner(f, g))),
    'norm': (1, lambda f: plain(_f.norm(f))), 'evaluate': (1, lambda f: None),
}
CHEBNUM = {'roots': (1, lambda f: plain(_roots(f))),
           'minandmax': (1, lambda f: [plain(q) for q in _f.minandmax(f)]), 'norm inf': (1, lambda f: plain(_f.norm(f, p=np.inf))),
           'h1norm': (1, lambda f: plain(_f.h1norm(f))), 'dot': (2, lambda f, g: plain(np.dot(f, g))),
           'innerw': (2, lambda f, g: plain(_f.innerw(f, g)))}
INPLACE = {'+=': (operator.iadd, operator.add), '-=': (operator.isub, operator.sub), '*=': (operator.imul, operator.mul)}


def _roots(f):
    import funpy
    r = funpy.roots(f)
    return np.concatenate([np.ravel(np.asarray(q, float)) for q in r] + [[]]) if isinstance(r, (list, tuple)) else np.ravel(r)


def history(c, trig):
    rng = c.rng
    p = Pool(c, trig)
    ops = dict(COMMON, **(TRIG if trig else {k: v for k, v in CHEB.items() if v}))
    nums = dict(NUMBERS, **({} if trig else CHEBNUM))
    for _ in range(3):
        p.add(p.fresh())
    log = []
    prev = 'start'
    steps = int(rng.integers(12, 40 if c.tier == 'quick' else 60))
    c.describe('%s history of %d steps, m=%d on %s' % ('trig' if trig else 'cheb', steps, p.m, list(p.dom)))
    for step in range(steps):
        if len(p.items) < 2:
            p.add(p.fresh())
            continue
        u = rng.random()
        if u < .55:
            name = str(rng.choice(list(ops)))
            k, call, ref = ops[name]
            it = [p.pick() for _ in range(k)]
            if name in ('exp', 'sin') and it[0][2] > 8:
                continue
            r = c.do(name, lambda: call(*[q[0] for q in it]))
            v = p.values(r)
            if ref is not None:
                s = max([q[2] for q in it]) ** k + max(q[2] for q in it) + 1.25
                c.close('result of %s' % name, v, ref(*[q[1] for q in it]), TOL(name, trig), scale=2 * s)
            log.append((name, call, [copy.deepcopy(q[0]) for q in it], v))
            c.event('pure operations')
            if rng.random() < .3:
                # the result is a function of its own: change it in place
                r2 = c.do('+= on a result', lambda: operator.iadd(r, 0.5))
                c.close('+= on a result of %s' % name, p.values(r2), v + 0.5, 2e-11, scale=np.max(np.abs(v)) + 1)
                p.verify('+= on a result of %s' % name)
                c.event('results changed in place')
            elif rng.random() < .8:
                p.add(r)
        elif u < .7:
            name = str(rng.choice(list(nums)))
            k, call = nums[name]
            it = [p.pick() for _ in range(k)]
            if name == 'evaluate':
                xx = p.x[rng.permutation(len(p.x))]
                keep = xx.copy()
                r = c.do(name, lambda: it[0][0](xx))
                c.true('evaluation points kept', np.array_equal(xx, keep))
                r = np.asarray(r)
                r *= 0       # scribble on what was handed out
            else:
                r = c.do(name, lambda: call(*[q[0] for q in it]))
                if name not in ('roots', 'minandmax'):
                    log.append((name, call, [copy.deepcopy(q[0]) for q in it], r))
            c.event('queries')
        elif u < .85:
            name = str(rng.choice(list(INPLACE)))
            iop, op = INPLACE[name]
            it, other = p.pick(), p.pick()
            if other[0] is it[0] or other[2] * it[2] > 50:
                continue
            arg = (other[0], other[1]) if rng.random() < .6 else (0.75, 0.75)
            tgt = it[0]
            r = c.do('f %s' % name, lambda: iop(tgt, arg[0]))
            v = p.values(r)
            c.close('f %s' % name, v, op(it[1], arg[1]), 5e-8 if trig else 5e-9, scale=2 * (it[2] + 1) * (other[2] + 1))
            p.items = [q for q in p.items if q[0] is not tgt]
            p.verify('f %s' % name)
            p.add(r)
            c.event('in-place operations')
        elif u < .93:
            it = p.pick()
            j = int(rng.integers(it[0].m))
            name = 'column'
            g = c.do(name, lambda: it[0][j])
            c.close('column', p.values(g), it[1][:, j:j + 1], p.tol, scale=it[2])
            w = c.do('use of a column', lambda: g * 2 + 1)
            c.close('use of a column', p.values(w), 2 * it[1][:, j:j + 1] + 1, p.tol, scale=2 * it[2] + 1)
            cols = c.do('iteration', lambda: [q for q in it[0]])
            c.true('iteration gives all columns', len(cols) == it[0].m)
            for q, vv in zip(cols, it[1].T):
                c.close('iterated column', p.values(q)[:, 0], vv, p.tol, scale=it[2])
        else:
            name = 'grid scribbled on'
            it = p.pick()
            y = c.do('grid', lambda: np.asarray(it[0].x if rng.random() < .5 else it[0].onefun.x))
            keep = y.copy()
            try:
                y += 1.0
            except ValueError:
                pass
            if not trig:
                z = c.do('values', lambda: np.asarray(it[0].onefun.get_values() if hasattr(it[0].onefun, 'get_values') else it[0].onefun.values))
                try:
                    z *= 0
                except ValueError:
                    pass
            h = c.do('after scribbling', lambda: p.fresh())
            c.event('arrays scribbled on')
        p.verify(name)
        c.seen('trig' if trig else 'cheb', prev, name)
        prev = name
    # the recorded calls give the same answers again, on the operands they had
    for name, call, fs, v in [log[int(k)] for k in rng.permutation(len(log))[:8]]:
        r = c.do(name + ' again', lambda: call(*fs))
        w = p.values(r) if hasattr(r, 'onefun') else r
        c.close('%s again' % name, w, v, 1e-10, scale=max(np.max(np.abs(v)), 1.0))
        c.event('calls repeated')


def cheb(c):
    history(c, False)


def trig(c):
    history(c, True)


def caller(c):
    """Arrays given by the caller are copied and left alone."""
    from funpy import Fun
    rng = c.rng
    dom = domain(rng)
    n, m = int(rng.integers(2, 40)), int(rng.integers(1, 4))
    v = np.asfortranarray(rng.standard_normal((n, m)))
    keep = v.copy()
    kind = int(rng.integers(4))
    a, b = float(dom[0]), float(dom[-1])
    x = np.clip(a + (T + 1) / 2 * (b - a), a, b)
    c.describe('caller arrays kind %d n=%d m=%d' % (kind, n, m))
    if kind == 0:
        f = c.do('from_coeffs', lambda: Fun.from_coeffs(v, m, domain=dom), v)
    elif kind == 1:
        f = c.do('from values', lambda: Fun.from_values(v, m, domain=dom), v)
    elif kind == 2:
        f = c.do('trig from values', lambda: Fun(values=v, type='trig', domain=dom), v)
    else:
        f = c.do('trig from coefficients', lambda: Fun(coeffs=v, type='trig', domain=dom), v)
    F = np.array(V(f, x, m))
    for name, call in (('+', lambda: f + f), ('*', lambda: f * f), ('diff', lambda: np.diff(f)), ('roots', lambda: _roots(f)), ('neg', lambda: -f)):
        if name == 'roots' and kind >= 2:
            continue
        c.do(name, call, f)
        c.true('caller\'s array after %s' % name, np.array_equal(v, keep))
    g = copy.deepcopy(f)
    c.do('+=', lambda: operator.iadd(g, 1.0), f)
    c.true('caller\'s array after += on a copy', np.array_equal(v, keep))
    if kind in (2, 3):
        v[:] = 7.0
        c.close('function after the caller reuses the array', V(f, x, m), F, 1e-12, scale=np.max(np.abs(F)))
    c.seen('caller', kind, n, m)


def _restrict(f):
    return f.onefun.restrict(np.array([-.5, .25]))


ONE = {'roots': (_roots, 'c'), 'minandmax': (lambda f: _f.minandmax(f), 'ct'), 'norm': (lambda f: _f.norm(f), 'ct'),
       'sup norm': (lambda f: _f.norm(f, p=np.inf), 'c'), 'h1norm': (lambda f: _f.h1norm(f), 'ct'), 'diff': (np.diff, 'ct'),
       'cumsum': (np.cumsum, 'c'), 'sum': (np.sum, 'ct'), 'exp': (np.exp, 'ct'), 'abs': (np.abs, 'ct'), 'power': (lambda f: f ** 3, 'ct'),
       'functional': (lambda f: _f.Functional(f, n=2 * f.n), 'c'), 'short functional': (lambda f: _f.Functional(f, n=max(1, f.n // 2)), 'c'),
       'conversion': (lambda f: _f.asfun(f, type='cheb'), 't'), 'qr': (lambda f: _f.qr(f), 'c'), 'restrict': (_restrict, 'c'),
       'flipud': (lambda f: f.onefun.flipud(), 'c'), 'fliplr': (lambda f: f.onefun.fliplr(), 'c'), 'normalize': (lambda f: _f.normalize(f), 'ct'),
       'prolong': (lambda f: _f.prolong(f, 2 * f.n), 'ct'), 'truncate': (lambda f: _f.prolong(f, max(1, f.n // 2)), 'c'), 'negative': (operator.neg, 'ct'),
       'plus a row': (lambda f: f + np.arange(1.0, f.m + 1).reshape(1, -1), 'ct'), 'happy': (lambda f: f.happy(), 'c'),
       'real': (np.real, 'ct'), 'shift': (lambda f: np.roll(f, .3), 't'), 'no shift': (lambda f: np.roll(f, 0.0), 't'), 'zeroth derivative': (lambda f: np.diff(f, n=0), 'ct'),
       'plus zero': (lambda f: f + 0, 'ct'), 'times one': (lambda f: f * 1, 'ct'), 'over one': (lambda f: f / 1, 'ct'), 'first power': (lambda f: f ** 1, 'ct'), 'plus': (operator.pos, 'ct'), 'conj': (np.conj, 'ct'), 'imag': (np.imag, 't'),
       'zeros': (np.zeros_like, 'ct'), 'minus zero': (lambda f: f - 0.0, 'ct'), 'one times': (lambda f: 1.0 * f, 'ct'), 'asarray': (lambda f: np.asarray(f.onefun), 'ct'),
       'deepcopy': (copy.deepcopy, 'ct'), 'simplify a copy': (lambda f: copy.deepcopy(f).simplify(), 'ct'), 'column': (lambda f: f[0], 'ct'),
       'values': (lambda f: f.values, 'ct'), 'flatten': (lambda f: f.flatten(), 'ct'), 'scale': (lambda f: f.vscale, 'ct'), 'text': (lambda f: (str(f), repr(f)), 'ct')}
TWO = {'add': (operator.add, 'ct'), 'subtract': (operator.sub, 'ct'), 'multiply': (operator.mul, 'ct'), 'divide': (lambda f, g: f / (g * g + 2.0), 'ct'),
       'inner': (np.inner, 'ct'), 'dot': (np.dot, 'ct'), 'innerw': (lambda f, g: _f.innerw(f, g), 'c'), 'hstack': (lambda f, g: np.hstack((f, g)), 'c'),
       'equal': (operator.eq, 'ct'), 'maximum': (np.maximum, 'c'), 'convolve': (np.convolve, '1'), 'adhesion': (lambda f, g: _f.fun.adhesion(f, g), '1'),
       '+=': (operator.iadd, 'ctI'), '-=': (operator.isub, 'ctI'), '*=': (operator.imul, 'ctI')}


def lengths(c):
    """Every operation leaves coefficients and length of its operands alone, also where they carry trailing zeros or rounding noise."""
    rng = c.rng
    trig = bool(rng.random() < .35)
    m = int(rng.choice([1, 1, 2, 3]))
    h = float(rng.choice([1, 1, .5, 2, np.pi]))
    dom = [-h, h] if trig else domain(rng)

    def make():
        n = int(rng.choice([1, 2, 3, 5, 6, 9, 12, 17, 20, 33, 65]))
        pad = int(rng.choice([0, 0, 1, 3, 8, 40]))
        if trig:
            a, _, _ = tsetup(c, m=m, n=n | 1)
            z = np.zeros((pad, m))
            return gen.tfun(np.asfortranarray(np.vstack((z, a / size_of(a), z))), dom)
        a = gen.coeffs(rng, n, m, decay=-1)
        z = np.zeros((pad, m)) if rng.random() < .6 else 1e-18 * rng.standard_normal((pad, m))
        return gen.fun(np.asfortranarray(np.vstack((a, z))), dom)
    tag = 't' if trig else 'c'
    f, g = make(), make()
    c.describe('%s lengths %d, %d m=%d on %s' % ('trig' if trig else 'cheb', f.n, g.n, m, list(dom)))
    for k, (call, where) in [(k, q) for k, q in {**ONE, **TWO}.items() if tag in q[1] or (trig and m == 1 and '1' in q[1])]:
        if rng.random() < .5:
            continue
        fs = [f] if k in ONE else [f, g]
        target = 'I' in where
        if target:
            fs = [copy.deepcopy(f), g]
        before = [(np.array(q.coeffs), np.array(q.values)) for q in fs]
        r = c.do(k, lambda: call(*fs))
        if not target and k != 'column' and getattr(r, 'coeffs', None) is not None:
            # what is handed out is a function of its own
            own = [(np.array(q.coeffs), np.array(q.values)) for q in fs]
            t = r.onefun if hasattr(r, 'onefun') else r
            c.true('%s hands out its operand' % k, not any(t is q.onefun for q in fs))
            for z in (t.coeffs, getattr(t, 'values', None)):
                if isinstance(z, np.ndarray) and z.flags.writeable:
                    z += 1.0
            for q, (b, v) in zip(fs, own):
                c.true('an operand changes with the result of %s' % k, np.array_equal(q.coeffs, b) and np.array_equal(q.values, v))
                if not np.array_equal(q.coeffs, b):
                    q.coeffs[:] = b
        for j, (q, (b, v)) in enumerate(zip(fs, before)):
            if target and j == 0:
                continue
            a = np.asarray(q.coeffs)
            c.true('length of an operand of %s' % k, a.shape == b.shape, lambda: '%s became %s' % (b.shape, a.shape))
            if a.shape == b.shape:
                c.close('coefficients of an operand of %s' % k, a, b, 1e-15, scale=np.max(np.abs(b)) + 1e-300)
                c.close('values of an operand of %s' % k, q.values, v, 1e-14, scale=np.max(np.abs(v)) + 1e-300)
        c.seen('lengths', k, trig, m)


def caches(c):
    """Process-wide caches of grids and weights survive every use."""
    from funpy.cheb.pts import chebpts_type2, quadwts
    rng = c.rng
    n = int(rng.choice([1, 2, 3, 9, 17, 33, 65, 100]))
    ref = np.cos(np.pi * np.arange(n - 1, -1, -1) / (n - 1)) if n > 1 else np.zeros(1)
    for _ in range(2):
        r = c.do('chebpts', lambda: chebpts_type2(n))
        x = np.asarray(r[0] if isinstance(r, tuple) else r)
        c.close('grid', x, ref, 1e-14, scale=1)
        w = np.asarray(c.do('quadwts', lambda: quadwts(n)), float)
        c.close('weights', np.sum(w), 2.0, 1e-13)
        for z in ([x, w] + ([np.asarray(q) for q in r[1:]] if isinstance(r, tuple) else [])):
            try:
                z[...] = 3.0
            except (ValueError, TypeError):
                pass
    c.seen('caches', n)


GROUPS = {'cheb': (cheb, 1040, 12000), 'trig': (trig, 640, 6000), 'caller': (caller, 800, 8000), 'caches': (caches, 240, 1200),
          'lengths': (lengths, 700, 7000)}
