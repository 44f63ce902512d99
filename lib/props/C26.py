"""Newton iterations: success only at a zero, steps as specified, limits and failures respected."""
import contextlib
import io
import warnings
import numpy as np
import numpy.linalg as LA
import scipy.sparse as sps

RULE = ('nonlinear systems of 1..8 equations given by their residual and Jacobian (linear, mildly and strongly nonlinear, with multiple zeros, '
        'without zeros) handed to each of the four iterations through Newton.solve, with random starting points, tolerances, damping settings, '
        'iteration limits, failures of the linear solver at chosen calls and refusals of the callback; every evaluation and linear solve is '
        'recorded and the trace compared with the iteration it should be: Newton steps, damping factors with the monotonicity test, Broyden '
        'updates; the same problem with recombined equations; distinct by method, problem, dimension, settings, outcome')
ASSUMPTIONS = ['the linear solves are exact (dense), or those of gbit with an exact or nearly exact preconditioner']


class Vec(np.ndarray):
    """A vector that can be asked what a function is asked."""
    istrig = False


def vec(a):
    return np.array(a, float).view(Vec)


class Problem:
    def __init__(self, rng, kind=None, n=None):
        self.n = n = int(rng.choice([1, 1, 2, 3, 5, 8])) if n is None else n
        self.kind = kind = kind or str(rng.choice(['linear', 'mild', 'mild', 'arctan', 'power', 'rosenbrock', 'none', 'none2', 'cubic', 'cubic']))
        if kind in ('power', 'rosenbrock', 'none', 'none2') and n == 1 and kind == 'rosenbrock':
            self.n = n = 2
        self.scale = 10.0 ** int(rng.integers(-2, 3))
        Q = LA.qr(rng.standard_normal((n, n)))[0]
        R = LA.qr(rng.standard_normal((n, n)))[0]
        self.A = self.scale * Q @ np.diag(rng.uniform(.5, 2., n)) @ R
        self.B = rng.standard_normal((n, n)) / n
        self.x = rng.standard_normal(n)
        self.c = float(rng.uniform(.05, .2))
        self.p = int(rng.integers(2, 4))
        self.M = np.eye(n)

    def parts(self, x):
        """G(x) and its derivative; the equations are A G."""
        d = np.asarray(x, float) - self.x
        n = self.n
        if self.kind == 'linear':
            return d, np.eye(n)
        if self.kind == 'mild':
            w = self.B @ d
            return d + self.c * w ** 2, np.eye(n) + np.diag(2 * self.c * w) @ self.B
        if self.kind == 'cubic':
            w = self.B @ d
            return d + self.c * self.B.T @ w ** 3, np.eye(n) + self.B.T @ np.diag(3 * self.c * w ** 2) @ self.B
        if self.kind == 'arctan':
            return np.arctan(d), np.diag(1 / (1 + d ** 2))
        if self.kind == 'power':                    # a multiple zero
            return d * np.abs(d) ** (self.p - 1), np.diag(self.p * np.abs(d) ** (self.p - 1))
        if self.kind == 'rosenbrock':
            g, J = d.copy(), np.eye(n)
            for i in range(n - 1):
                g[i + 1] = d[i + 1] - d[i] ** 2
                J[i + 1, i] = -2 * d[i]
            return g, J
        if self.kind == 'none':                     # no zero: a component stays above one
            g, J = d.copy(), np.eye(n)
            g[0] = d[0] ** 2 + 1
            J[0, 0] = 2 * d[0]
            return g, J
        g, J = d.copy(), np.eye(n)                  # no zero: decays forever
        with np.errstate(all='ignore'):
            g[0] = np.exp(d[0])
            J[0, 0] = np.exp(d[0])
        return g, J

    def F(self, x):
        return self.M @ self.A @ self.parts(x)[0]

    def J(self, x):
        return self.M @ self.A @ self.parts(x)[1]

    def step(self, x):
        """The Newton step, from the factors (so that the scaling of the equations does not enter)."""
        g, J = self.parts(x)
        with np.errstate(all='ignore'):
            try:
                return -LA.solve(J, g)
            except LA.LinAlgError:
                return np.full(self.n, np.inf)


def standin(prob, log, fail=(), precond=None, junk=1e3):
    """A class to be handed to Newton as the linear system."""
    count = [0]

    class System:
        def __init__(self, u, operator, ks=(), dtype=None, exact=None, **kw):
            self.at = np.array(u, float)
            self.jac = prob.J(self.at)
            log.append(('new', self.at.copy()))
            self.size = prob.n

        def to_vspace(self, y, *a, **kw):
            return vec(y)

        def rhs(self, u):
            f = prob.F(np.array(u, float))
            log.append(('rhs', np.array(u, float), f.copy()))
            return f

        def solve(self, b):
            b = np.array(b, float)
            count[0] += 1
            ok = count[0] not in fail
            try:
                y = LA.solve(self.jac, b)
                ok = ok and bool(np.all(np.isfinite(y)))
            except LA.LinAlgError:
                y, ok = np.zeros(prob.n), False
            log.append(('solve', b, y.copy(), ok))
            return (vec(y) if ok else vec(np.full(prob.n, junk))), ok

        def matrix(self, precond=False):
            P = LA.inv(self.jac) @ (np.eye(prob.n) + (precond_noise(prob.n)))
            return sps.csr_matrix(self.jac), sps.csr_matrix(P), None

    def precond_noise(n):
        return np.zeros((n, n)) if precond is None else precond
    return System


def run(c, prob, x0, method, log, fail=(), refuse=None, precond=None, **kw):
    from funpy.newton.newton import Newton
    calls = []

    class Watch(Newton):
        def callback(self, system, itr, dx, normdx, theta):
            calls.append((itr, float(np.real(normdx)), None if dx is None else np.array(dx, float)))
            super().callback(system, itr, dx, normdx, theta)
            return not (refuse is not None and len(calls) >= refuse)
    u0 = vec(x0)
    nw = Watch(None, sys=standin(prob, log, fail, precond, float(c.rng.choice([0., 1e3]))))

    def go():
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return nw.solve(u0, method=method, **kw)
    x, ok, k = c.do('solve ' + method, go)
    c.true('the starting guess is left alone', np.array_equal(np.asarray(u0), np.asarray(x0, float)), lambda: '%s %s' % (u0, x0))
    return nw, np.array(x, float), bool(ok), int(k), calls


METHODS = ['standard', 'nleq', 'qnerr', 'giant']


def settings(rng, method, kind):
    kw = dict(tol=float(rng.choice([1e-6, 1e-8, 1e-10])))
    if method == 'nleq':
        if rng.random() < .4:
            kw['nonlin'] = str(rng.choice(['highly', 'extremely']))
        if rng.random() < .3:
            kw['restricted'] = False
        if rng.random() < .3:
            kw['use_qnerr'] = False
        if rng.random() < .2:
            kw['theta_max'] = float(rng.choice([.25, .5]))
    if method == 'giant' and rng.random() < .5:
        kw['nonlin'] = str(rng.choice(['highly', 'extremely']))
    if rng.random() < .4:
        lim = int(rng.choice([1, 2, 3, 5, 10, 30, 60]))
        kw['max_iter' if method == 'giant' else 'miter'] = lim
    return kw


def limit(method, kw):
    if method == 'nleq':
        return kw.get('miter', {'mildly': 50}.get(kw.get('nonlin', 'mildly'), 75))
    return {'standard': kw.get('miter', 50), 'qnerr': kw.get('miter', 25), 'giant': kw.get('max_iter', 50)}[method]


def judge(c, prob, nw, x, ok, k, log, method, kw):
    """What a finished iteration may say."""
    tol = kw['tol']
    c.event('%s %s' % (method, 'success' if ok else 'failure'))
    c.true('a result is a vector of the right size', x.shape == (prob.n,))
    c.true('status', (str(nw.status) == 'Success') == ok, lambda: '%s %s' % (nw.status, ok))
    if ok:
        c.true('no success without a zero', prob.kind not in ('none', 'none2') or (prob.kind == 'none2' and x[0] - prob.x[0] < -10), lambda: str(x))
        s = LA.norm(prob.step(x))
        if prob.kind not in ('none2', 'power'):
            c.true('success at a zero', s <= 100 * tol + 1e-12 * (1 + LA.norm(x)), lambda: '%s: the Newton step is still %g at tolerance %g' % (prob.kind, s, tol))
        d = LA.norm(x - prob.x)
        if prob.kind in ('linear', 'arctan', 'rosenbrock', 'cubic'):
            c.close('the zero', x, prob.x, 1, scale=(1e3 if prob.kind == 'rosenbrock' else 100) * tol + 1e-11 * (1 + LA.norm(prob.x)))
        if prob.kind == 'power':
            c.true('near a multiple zero', d <= 100 * tol, lambda: '%g' % d)
    if ok and method != 'giant':
        last = LA.norm(log[-1][2]) if log[-1][0] == 'solve' else np.inf
        c.true('success is confirmed by a correction within the tolerance', last <= (2 if method == 'qnerr' else 1 + 1e-9) * tol, lambda: 'last correction %g at tolerance %g' % (last, tol))
    new = [e for e in log if e[0] == 'new']
    L = limit(method, kw)
    c.true('evaluations are counted', nw.neval == len(new), lambda: '%s %s' % (nw.neval, len(new)))
    c.true('iteration limit', len(new) <= L + 2 and k <= L + 3, lambda: 'limit %d: %d evaluations, %d reported' % (L, len(new), k))
    fs = [e for e in log if e[0] == 'solve' and not e[3]]
    if fs:
        c.true('a failed linear solve ends the iteration', log[-1][0] == 'solve' and log[-1] is fs[0] or method == 'nleq' and in_qn(log, fs[0]), lambda: str([e[0] for e in log[-6:]]))
        if method != 'nleq':
            c.true('no success after a failed linear solve', not ok)


def in_qn(log, e):
    """The quasi-Newton phase may give up; the iteration then goes on from a fresh linearisation."""
    i = [q is e for q in log].index(True)
    after = [q[0] for q in log[i + 1:]]
    return not after or after[0] == 'rhs'


def success(c):
    rng = c.rng
    prob = Problem(rng)
    method = METHODS[int(rng.integers(4))]
    kw = settings(rng, method, prob.kind)
    dist = float(rng.choice([.1, 1, 3, 10]))
    x0 = prob.x + dist * rng.standard_normal(prob.n)
    if prob.kind == 'rosenbrock':
        x0 = prob.x + min(dist, 2) * rng.standard_normal(prob.n)
    if rng.random() < .05:
        x0 = prob.x + 1e-13 * rng.standard_normal(prob.n)      # starting at the solution
    fail, refuse = (), None
    r = rng.random()
    if r < .2 and method != 'giant':
        fail = (int(rng.integers(1, 8)),)
    elif r < .35 and method != 'giant':
        refuse = int(rng.integers(1, 6))
    log = []
    c.describe('%s %s n=%d scale %g from %g %s fail %s refuse %s' % (method, prob.kind, prob.n, prob.scale, dist, kw, fail, refuse))
    nw, x, ok, k, calls = run(c, prob, x0, method, log, fail, refuse, **kw)
    judge(c, prob, nw, x, ok, k, log, method, kw)
    if refuse is not None and len(calls) >= refuse:
        c.true('a refusal ends the iteration', len(calls) <= refuse + 1, lambda: '%d calls, refused from %d' % (len(calls), refuse))
        c.event('refused')
    trace(c, prob, log, method, kw, x, ok, bool(fail) or refuse is not None, x0)
    c.seen('success', method, prob.kind, prob.n, kw.get('nonlin'), kw.get('restricted'), kw.get('use_qnerr'), kw.get('miter', kw.get('max_iter')), bool(fail), refuse is not None, ok)


def trace(c, prob, log, method, kw, x, ok, disturbed, x0):
    """The recorded steps are those of the iteration."""
    if method == 'giant':
        return giant_trace(c, prob, log, kw)
    F = lambda y: prob.F(y)
    small = lambda y: 1e-12 * LA.norm(prob.M @ prob.A) * (1 + LA.norm(y)) ** 3 + 1e-12 * LA.norm(F(y))
    # split into linearisations
    blocks = []
    for e in log:
        if e[0] == 'new':
            blocks.append([e])
        else:
            blocks[-1].append(e)
    start, least = {'mildly': (1., 1e-4), 'highly': (1e-2, 1e-4), 'extremely': (1e-4, 1e-12)}[kw.get('nonlin', 'mildly')]
    past = None                                     # length of the step, simplified step and factor of the previous block
    c.true('the iteration starts at the guess', np.array_equal(blocks[0][0][1], np.asarray(x0, float)))
    for b, nxt in zip(blocks, blocks[1:] + [None]):
        at = b[0][1]
        if not np.all(np.isfinite(at)) or LA.norm(at) > 1e6:
            return
        sol = [e for e in b if e[0] == 'solve']
        if not sol:
            continue
        c.close('right hand side of a Newton step', sol[0][1], -F(at), 1, scale=small(at))
        c.event('linearisation')
        if not sol[0][3]:
            continue
        dx = sol[0][2]
        if method == 'standard':
            if nxt is not None:
                c.close('Newton step', nxt[0][1], at + dx, 1e-13, scale=1 + LA.norm(at) + LA.norm(dx))
            continue
        if method == 'qnerr':
            broyden(c, prob, b, at, dx, kw, lim=kw.get('miter', 25), upto=x)
            continue
        if LA.norm(dx) < 1e-6 * (1 + LA.norm(at)):
            continue                                # rounding decides the last steps
        # damped: trials on the ray, the accepted one passes the test
        want = start if past is None else None
        if past is not None:
            w = LA.norm(past[1] - dx)
            want = min(1., past[0] * LA.norm(past[1]) / (w * LA.norm(dx)) * past[2]) if w > 1e-6 * LA.norm(dx) else None
            if past[3]:
                want = None                         # after a quasi-Newton phase
        known, reduced = True, False
        trials = []
        rest = b[b.index(sol[0]) + 1:]
        i = 0
        lam = None
        while i + 1 < len(rest) and rest[i][0] == 'rhs' and rest[i + 1][0] == 'solve':
            y, s = rest[i][1], rest[i + 1]
            nd = LA.norm(dx)
            l = float((y - at) @ dx / nd ** 2)
            if LA.norm(y - at - l * dx) > 1e-9 * nd + 1e-13 * (1 + LA.norm(at)):
                break
            c.close('right hand side at a trial point', s[1], -F(y), 1, scale=small(y))
            if want is not None:
                c.close('predicted damping factor', l, want, 1e-5, scale=want)
                c.event('predicted factor')
            if not s[3]:
                trials.append((l, np.inf, y, 0.))
                break
            th = LA.norm(s[2]) / nd
            good = th <= 1 - l / 4 if kw.get('restricted', True) else th < 1
            i += 2
            w = LA.norm(s[2] - (1 - l) * dx)
            mue = .5 * nd * l * l / w if w > 1e-6 * nd else np.inf
            trials.append((l, th, y, mue))
            lnew = min(mue, .5 * l) if not good else min(1., mue)
            want = max(lnew, least) if not good else lnew
            reduced = reduced or not good
            if w <= 1e-6 * nd or abs(lnew - least) < 1e-3 * least or good and (reduced or abs(lnew / l - 4) < 1e-2):
                want = None
            past = (nd, s[2], l, False)
            if good and lnew < 4 * l * .999:
                break                               # accepted
            if abs(l - 1) < 1e-9 and good:
                break                               # accepted; what follows are quasi-Newton steps
        c.event('trial point', len(trials))
        for l, th, y, _ in trials:
            c.true('damping factor', 0 < l <= 1 + 1e-9, lambda: '%g' % l)
        if nxt is None or disturbed:
            continue
        bound = (lambda l: 1 - l / 4) if kw.get('restricted', True) else (lambda l: 1.0)
        x1 = nxt[0][1]
        direct = [t for t in trials if np.array_equal(t[2], x1)]
        if direct:
            l, th, y, _ = direct[-1]
            c.true('an accepted step passes the monotonicity test', th <= bound(l) + 1e-9, lambda: 'factor %g, contraction %g' % (l, th))
            c.true('the last trial is accepted', direct[-1] is trials[-1])
            mue = direct[-1][3]
            if kw.get('use_qnerr', True) and abs(l - 1) < 1e-9 and mue > 1.05:
                # a full step that contracts this well is followed by quasi-Newton steps, the first of which contracts as much
                c.true('quasi-Newton steps follow full steps that contract', th >= .95 * kw.get('theta_max', .5), lambda: 'contraction %g' % th)
            c.event('damped step' if l < 1 - 1e-9 else 'full step')
        else:
            c.event('quasi-Newton phase')
            if trials:
                past = past[:3] + (True,)
                ev = [e[1] for e in rest[i:] if e[0] == 'rhs']
                quasi(c, prob, at, dx, trials[-1][2], ev, kw)
            full = [t for t in trials if abs(t[0] - 1) < 1e-9 and t[1] < kw.get('theta_max', .5) + 1e-9]
            c.true('quasi-Newton steps only follow full steps that contract', kw.get('use_qnerr', True) and bool(full), lambda: str([t[:2] for t in trials]))


def broyden(c, prob, b, at, dx, kw, lim, upto):
    """Good Broyden updates after a first Newton step."""
    J = prob.J(at)
    x = at
    d = np.array(dx)
    k = 0
    rest = [e for e in b if e[0] in ('rhs', 'solve')]
    ev = [e[1] for e in rest if e[0] == 'rhs'][1:]
    for y in ev:
        x = x + d
        if not np.all(np.isfinite(x)) or LA.norm(x) > 1e6 or LA.norm(d) < 1e-9 * (1 + LA.norm(x)):
            return
        c.close('quasi-Newton iterate', y, x, 1, scale=1e-8 * (1 + LA.norm(x) + LA.norm(d)))
        f = prob.F(x)
        J = J + np.outer(f, d) / (d @ d)
        if LA.cond(J) > 1e8:
            return
        d = -LA.solve(J, f)
        k += 1
        c.event('quasi-Newton step')


def quasi(c, prob, at, dx, x, ev, kw):
    """The phase of quasi-Newton steps after a full damped step from at to x."""
    if not ev:
        return
    J = prob.J(at)
    d = x - at
    c.close('start of the quasi-Newton phase', ev[0], x, 1e-13, scale=1 + LA.norm(x))
    for q, y in zip(ev, ev[1:]):
        f = prob.F(x)
        J = J + np.outer(f, d) / (d @ d)
        if LA.cond(J) > 1e8:
            return
        d = -LA.solve(J, f)
        if np.array_equal(y, q) or LA.norm(d) < 1e-8 * (1 + LA.norm(x)):
            return                                  # the phase ended here
        x = x + d
        c.close('quasi-Newton iterate after a damped step', y, x, 1, scale=1e-8 * (1 + LA.norm(x) + LA.norm(d)))
        c.event('quasi-Newton step')


def giant_trace(c, prob, log, kw):
    new = [e[1] for e in log if e[0] == 'new']
    for a, b in zip(new, new[1:]):
        if not np.all(np.isfinite(b)) or LA.norm(b) > 1e6 or LA.cond(prob.J(a)) > 1e8:
            return
        d = prob.step(a)
        s = b - a
        if LA.norm(s) < 1e-9 * (1 + LA.norm(a)):
            continue
        l = (s @ d) / (d @ d)
        c.true('inexact Newton direction', 0 < l <= 1.3 and LA.norm(s - l * d) <= .3 * LA.norm(s), lambda: 'factor %g, off by %g' % (l, LA.norm(s - l * d) / LA.norm(s)))
        c.event('inexact step')
        if LA.norm(s) > 1e-5 * (1 + LA.norm(a)):
            th = LA.norm(LA.solve(prob.J(a), prob.F(b))) / LA.norm(d)
            top = 1 - .25 * l if kw.get('nonlin') == 'extremely' else 1.
            c.true('an accepted inexact step passes the monotonicity test', th <= top * 1.1 + 1e-6, lambda: 'factor %g, contraction %g' % (l, th))


def converges(c):
    """Problems on which the iterations have to succeed."""
    rng = c.rng
    kind = str(rng.choice(['linear', 'mild', 'mild', 'arctan']))
    n = 1 if kind == 'arctan' else None
    prob = Problem(rng, kind, n)
    method = METHODS[int(rng.integers(4))]
    kw = dict(tol=float(rng.choice([1e-6, 1e-8, 1e-10])))
    if kind == 'arctan' and method in ('standard', 'qnerr'):
        r = float(rng.uniform(-.6, .6))
    elif kind == 'arctan':
        r = float(rng.uniform(-15, 15))
    else:
        r = float(rng.choice([1e-3, .1, 1])) if kind == 'mild' else float(10.0 ** rng.integers(-3, 4))
    direc = rng.standard_normal(prob.n)
    direc *= r / LA.norm(direc) if kind != 'arctan' else r / direc[0]
    if kind == 'mild':
        # the affine covariant Kantorovich quantity decides
        x0 = prob.x + direc
        d0 = prob.step(x0)
        om = 2 * prob.c * LA.norm(LA.inv(prob.parts(x0)[1]), 2) * LA.norm(prob.B, 2) ** 2
        if om * LA.norm(d0) > .4:
            direc *= .2
            x0 = prob.x + direc
            d0 = prob.step(x0)
            om = 2 * prob.c * LA.norm(LA.inv(prob.parts(x0)[1]), 2) * LA.norm(prob.B, 2) ** 2
            if om * LA.norm(d0) > .4:
                return
    x0 = prob.x + direc
    kw['tol'] *= max(1.0, LA.norm(x0)) if kind == 'linear' else 1
    if method == 'nleq':
        kw['nonlin'] = str(rng.choice(['mildly', 'mildly', 'highly', 'extremely']))
        kw['use_qnerr'] = bool(rng.random() < .7)
        kw['restricted'] = bool(rng.random() < .7)
    if method == 'giant' and kind != 'linear':
        kw['nonlin'] = str(rng.choice(['mildly', 'mildly', 'highly']))
    pre = None
    if method == 'giant' and rng.random() < .5 and prob.n > 1:
        pre = rng.standard_normal((prob.n, prob.n))
        pre *= .05 / LA.norm(pre, 2)
    log = []
    c.describe('%s %s n=%d scale %g from %g %s' % (method, kind, prob.n, prob.scale, r, kw))
    nw, x, ok, k, calls = run(c, prob, x0, method, log, precond=pre, **kw)
    judge(c, prob, nw, x, ok, k, log, method, kw)
    trace(c, prob, log, method, kw, x, ok, False, x0)
    c.true('converges where it must', ok, lambda: '%s on %s: %s after %d' % (method, kind, nw.status, k))
    if method == 'standard' and kind == 'linear':
        c.true('a linear problem takes one step and its confirmation', k <= 3, lambda: str(k))
    c.seen('converges', method, kind, prob.n, round(np.log10(abs(r))), kw.get('nonlin'), kw.get('use_qnerr'), pre is None)


def covariance(c):
    """Recombining the equations changes nothing."""
    rng = c.rng
    prob = Problem(rng, str(rng.choice(['mild', 'cubic', 'rosenbrock', 'arctan'])), int(rng.integers(2, 7)))
    method = str(rng.choice(['standard', 'nleq', 'nleq', 'qnerr']))
    kw = dict(tol=1e-8, miter=12)
    if method == 'nleq' and rng.random() < .4:
        kw['nonlin'] = 'highly'
    x0 = prob.x + float(rng.choice([.2, 1, 2])) * rng.standard_normal(prob.n)
    c.describe('%s %s n=%d with recombined equations %s' % (method, prob.kind, prob.n, kw))
    log1, log2 = [], []
    _, x, ok, k, calls = run(c, prob, x0, method, log1, **kw)
    prob.M = 10.0 ** float(rng.integers(-2, 3)) * (LA.qr(rng.standard_normal((prob.n, prob.n)))[0] @ np.diag(rng.uniform(.3, 3, prob.n)))
    _, y, ok2, k2, calls2 = run(c, prob, x0, method, log2, **kw)
    # rounding grows along the iteration; only well conditioned traces are compared
    new1, new2 = [e[1] for e in log1 if e[0] == 'new'], [e[1] for e in log2 if e[0] == 'new']
    for j, (p, q) in enumerate(zip(new1, new2)):
        if j > 5 or not np.all(np.isfinite(p)) or LA.norm(p) > 1e3 or LA.cond(prob.J(p)) > 1e4 or LA.norm(prob.step(p)) < 1e-6 * (1 + LA.norm(p)):
            break
        c.close('iterates of recombined equations', q, p, 1, scale=1e-7 * (1 + LA.norm(p)))
        c.event('iterate compared')
    if ok and ok2:
        c.event('both converged')
    c.seen('covariance', method, prob.kind, prob.n, kw.get('nonlin'), ok, ok2)


GROUPS = {'success': (success, 1600, 24000), 'converges': (converges, 800, 12000), 'covariance': (covariance, 400, 6000)}
