"""The compiled kernels stay inside their arrays and never use memory they did not write."""
import glob
import importlib
import os
import subprocess
import numpy as np
import gen
from gen import V, domain

RULE = ('the compiled kernels called directly with sizes 0..1400, 0..6 columns, every memory layout (C, F, strided, reversed, read-only, '
        'integer, misaligned), infinities and NaNs, and slices of the workloads of the other properties, executed (a) in a build with '
        'address and undefined-behaviour sanitizers, (b) in a build with Cython bounds checks on every index, (c) twice with '
        'uninitialised arrays poisoned by two different patterns; distinct by kernel, layout, size class, columns')
ASSUMPTIONS = ['memory outside the compiled extensions (numpy, scipy) is observed only through the allocator shared with the sanitizer']


def _lib(n):
    try:
        return subprocess.run(['gcc', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip()
    except OSError:
        return n


def _pre():
    std = (glob.glob('/usr/lib/x86_64-linux-gnu/libstdc++.so.6') or [''])[0]
    return ' '.join(x for x in (_lib('libasan.so'), _lib('libubsan.so'), std) if x)


SAN = {'LD_PRELOAD': _pre(),
       'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:halt_on_error=1:allocator_may_return_null=1:log_path=@LOG@:'
                       'max_malloc_fill_size=268435456:malloc_fill_byte=255:handle_segv=1',
       'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1:log_path=@LOG@',
       'PYTHONMALLOC': 'malloc'}
RUNS = [dict(name='address and undefined behaviour sanitizers', variant='asan', env=SAN, asan=True, share=.45,
             groups=['kernels', 'hostile', 'slices']),
        dict(name='bounds checked', variant='bounds', share=.25, groups=['kernels', 'hostile', 'slices']),
        dict(name='poisoned allocations', variant='plain', env={'VERIF_POISON': '1'}, share=.3, groups=['poison', 'kernels'])]


LAYOUTS = ['C', 'F', 'strided', 'reversed', 'readonly', 'offset']


def layout(rng, a, kind=None):
    """The same values in another memory layout, with nothing but foreign memory around them."""
    kind = kind or LAYOUTS[int(rng.integers(len(LAYOUTS)))]
    a = np.asarray(a, dtype=float)
    n, m = a.shape
    if kind == 'C':
        return np.ascontiguousarray(a), kind
    if kind == 'F':
        return np.asfortranarray(a), kind
    if kind == 'strided':
        big = np.full((2 * n + 1, 3 * m + 2), np.nan)
        big[1:2 * n + 1:2, 2:3 * m + 2:3] = a
        return big[1:2 * n + 1:2, 2:3 * m + 2:3], kind
    if kind == 'reversed':
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1], kind
    if kind == 'readonly':
        b = np.array(a, order='F')
        b.setflags(write=False)
        return b, kind
    big = np.full((n, m + 2), np.nan, order='F')
    big[:, 1:m + 1] = a
    return big[:, 1:m + 1], kind


def size(rng, top=1400):
    u = rng.random()
    if u < .55:
        return int(rng.integers(1, 20))
    if u < .9:
        return int(rng.integers(16, 140))
    return int(rng.choice([256, 257, 400, 512, 513, 514, 515, 600, 1025, 1400]))


def sclass(n):
    return n if n < 4 else (4 if n < 17 else 17 if n < 66 else 66 if n <= 513 else 514)


def kernels(c):
    from funpy.cheb import detail
    rng = c.rng
    n, m = size(rng), int(rng.choice([1, 1, 2, 3, 4, 6]))
    which = ['polyfit', 'polyval', 'prolong', 'simplify', 'happy', 'chop', 'chopc', 'clenshaw1', 'clenshawm', 'roots', 'clenshaw'][int(rng.integers(11))]
    a = rng.standard_normal((n, m)) * 10.0 ** rng.integers(-8, 8)
    if rng.random() < .5:
        a = a * np.exp(-np.arange(n) * rng.uniform(.02, 4))[:, None]
    if rng.random() < .1:
        a[:, int(rng.integers(m))] = 0
    th = np.pi * np.arange(n) / max(n - 1, 1)
    tag = 'C'
    if which in ('polyfit', 'polyval'):
        b, tag = layout(rng, a)
        w = int(rng.choice([1, 1, 2, 4]))
        r = c.do(which, lambda: getattr(detail, which)(b, w), b)
        if which == 'polyval':
            c.close('polyval values', r, np.flipud(np.cos(np.outer(th, np.arange(n))) @ a) if n > 1 else a, 1e-11, float(np.abs(a).sum()) + 1e-300)
        else:
            c.close('polyfit coefficients', np.cos(np.outer(th, np.arange(n))) @ np.asarray(r) if n > 1 else r, np.flipud(a) if n > 1 else a, 1e-11, float(np.abs(a).sum()) * 4 + 1e-300)
    elif which == 'prolong':
        b, tag = layout(rng, a, ['F', 'offset'][int(rng.integers(2))])
        to = int(rng.choice([0, 1, n - 1, n, n + 1, 2 * n, 17, int(rng.integers(0, 1500))]))
        r = c.do('prolong', lambda: np.asarray(detail.prolong(b, to)), b)
        ref = np.zeros((to, m))
        ref[:min(n, to)] = a[:min(n, to)]
        c.close('prolonged coefficients', r, ref, 0, 1)
    elif which == 'simplify':
        b, tag = layout(rng, a, ['F', 'offset'][int(rng.integers(2))])
        eps = 10.0 ** rng.integers(-16, -1)
        r = c.do('simplify_coeffs', lambda: np.asarray(detail.simplify_coeffs(b, eps)), b)
        c.true('simplified shape', 1 <= r.shape[0] <= n + 1 and r.shape[1] == m, lambda: r.shape)
        c.true('simplified finite', np.all(np.isfinite(r)), '')
    elif which == 'happy':
        b, tag = layout(rng, a, ['F', 'offset'][int(rng.integers(2))])
        tol = 10.0 ** rng.integers(-16, 1) * np.ones(m)
        r = c.do('happiness_check', lambda: detail.happiness_check(b, tol), b, tol)
        c.true('cutoff inside', 0 <= r[1] <= max(n, 17), lambda: r)
    elif which in ('chop', 'chopc'):
        tol = 10.0 ** rng.integers(-16, 2)
        mn = int(rng.choice([2, 3, 8, 17, 17, 17]))
        v = np.array(a[:, 0]) if which == 'chop' else a[:, 0] + 1j * rng.standard_normal(n) * np.abs(a[:, 0])
        n2 = max(n, 2)
        v = np.resize(v, n2)
        r = c.do('standardChop', lambda: (detail.standardChop if which == 'chop' else detail.standardChopCmplx)(v, tol, mn), v)
        c.true('cutoff inside', 0 <= r <= n2, lambda: r)
    elif which in ('clenshaw1', 'clenshawm', 'clenshaw'):
        x = rng.uniform(-1, 1, int(rng.choice([0, 1, 1, 2, 3, 17, 100])))
        if which == 'clenshaw1':
            a = a[:, :1]
            m = 1
            f = lambda: detail.clenshaw_scalar(x, np.array(a[:, 0]))
        elif which == 'clenshawm':
            b, tag = layout(rng, a)
            f = lambda: detail.clenshaw_vector(x, b)
        else:
            b, tag = layout(rng, a)
            f = lambda: detail.clenshaw(x, b)
        r = c.do(which, f, x)
        c.close('clenshaw values', np.asarray(r).reshape(x.size, m), np.cos(np.outer(np.arccos(x), np.arange(n))) @ a, 1e-11, float(np.abs(a).sum()) + 1e-300)
    else:
        f = c.do('construct', lambda: __import__("funpy").Fun(coeffs=np.asfortranarray(a[:, :2])))
        n = a.shape[0]
        r = c.do('roots', lambda: f.roots(), f)
    c.describe('%s n=%d m=%d %s' % (which, n, m, tag))
    c.seen(which, sclass(n), m if m < 3 else 3, tag)


def hostile(c):
    """Empty arrays, NaNs, infinities and wrong types are computed or refused, never followed out of the array."""
    import funpy as fp
    from funpy.cheb import detail
    rng = c.rng
    bad = ['nan', 'inf', 'empty', 'zerocol', 'int', 'wrongdim', 'order', 'neg', 'huge', 'complex'][int(rng.integers(10))]
    n, m = size(rng, 200), int(rng.integers(1, 4))
    n = min(n, 300)
    a = rng.standard_normal((n, m))
    if bad in ('nan', 'inf'):
        a[int(rng.integers(n)), int(rng.integers(m))] = np.nan if bad == 'nan' else np.inf
    elif bad == 'empty':
        a = a[:0]
    elif bad == 'zerocol':
        a = a[:, :0]
    elif bad == 'int':
        a = np.asarray(a * 100, dtype=int)
    elif bad == 'wrongdim':
        a = a[:, :, None] if rng.random() < .5 else a[:, 0]
    elif bad == 'huge':
        a = a * 1e308
    elif bad == 'complex':
        a = a + 1j * a
    f = np.asfortranarray(a) if bad != 'order' else np.ascontiguousarray(a)
    x = rng.uniform(-1, 1, int(rng.choice([0, 1, 5])))
    tries = [('polyfit', lambda: detail.polyfit(f)), ('polyval', lambda: detail.polyval(f)),
             ('prolong', lambda: detail.prolong(f, int(rng.choice([-5, 0, 1, 17, 40])))),
             ('simplify', lambda: detail.simplify_coeffs(f)),
             ('chop', lambda: detail.standardChop(f[:, 0], 1e-8)), ('chopc', lambda: detail.standardChopCmplx(f[:, 0], 1e-8)),
             ('clenshaw', lambda: detail.clenshaw(x, f)), ('vector', lambda: detail.clenshaw_vector(x, f)),
             ('scalar', lambda: detail.clenshaw_scalar(x, f[:, 0])),
             ('happy', lambda: detail.happiness_check(f, 1e-8 * np.ones(f.shape[1]))),
             ('fun', lambda: fp.Fun(coeffs=f)), ('values', lambda: fp.Fun(values=f))]
    for k in rng.permutation(len(tries))[:4]:
        name, fn = tries[int(k)]
        c.event('calls')
        c.event('oracle')
        c.event('oracle:survived ' + name)
        c.last = name
        try:
            r = fn()
            if name in ('fun', 'values') and hasattr(r, 'coeffs'):
                for op in (lambda: r(0.3), lambda: r + r, lambda: r * r, lambda: np.diff(r), lambda: np.sum(r), lambda: r.roots(),
                           lambda: r.prolong(int(rng.choice([0, 1, 33]))), lambda: r.simplify(), lambda: r.values):
                    try:
                        op()
                    except Exception as e:
                        _bounds(c, name, e)
        except Exception as e:
            _bounds(c, name, e)
        c.seen(bad, name)
    if rng.random() < .3:
        f = fp.Fun(coeffs=np.asfortranarray(rng.standard_normal((n, m))))
        k = int(rng.choice([0, 1, 2]))
        try:
            g = f.prolong(k)
            g(np.array([.1, .2]))
            g.roots()
            np.sum(g)
        except Exception as e:
            _bounds(c, 'prolong', e)
    c.describe('%s n=%d m=%d' % (bad, n, m))


def _bounds(c, label, e):
    t = '%s: %s' % (type(e).__name__, e)
    if 'ut of bounds on buffer access' in t or 'ut of bounds' in t and 'ndex' in t and 'axis' not in t:
        c.violation('%s: index outside its array' % label, t)


POOL = ['C01/callable', 'C01/vector_callable', 'C01/values', 'C01/ultra', 'C02/points', 'C02/shape_ops', 'C03/transform', 'C03/prolong',
        'C03/quadrature', 'C03/roundtrip_fun', 'C04/binary', 'C04/scalar', 'C04/inplace', 'C04/compose', 'C04/power', 'C05/cheb', 'C05/trig',
        'C06/derivative', 'C06/rules', 'C07/products', 'C07/norms', 'C08/prescribed', 'C08/wave', 'C08/series', 'C08/extrema', 'C09/simplify',
        'C09/adaptive', 'C10/callable', 'C10/simplify', 'C11/binary', 'C12/derivative', 'C14/arithmetic']


def pick(c):
    p, g = POOL[int(c.rng.integers(len(POOL)))].split('/')
    return p, g, importlib.import_module('props.' + p), int(c.rng.integers(100000, 200000))


def slices(c):
    """The workloads of the other properties in this build; their oracles are not judged here, only what the sanitizers say."""
    import harness
    p, g, mod, idx = pick(c)
    c.describe('%s/%s %d' % (p, g, idx))
    sub = harness.Case(p, g, idx, c.seed, c.tier)
    c.last = '%s/%s' % (p, g)
    try:
        mod.GROUPS[g][0](sub)
    except harness.Abort:
        pass
    except Exception as e:
        _bounds(c, c.last, e)
    for v in sub.violations:
        t = v['sig'] + ' ' + v['detail']
        if 'IndexError' in t and 'ut of bounds on buffer access' in t:
            c.violation('%s/%s: index outside its array' % (p, g), v['detail'])
    c.event('calls', sub.events['calls'])
    c.event('oracle')
    c.event('oracle:slice free of invalid accesses')
    c.seen('slice', p, g)


class Recorder:
    """Executes a case of another property and keeps what every call returned."""

    def __init__(self, p, g, idx, seed, tier):
        import harness

        class R(harness.Case):
            def do(self, label, fn, *operands, fatal=True):
                r = harness.Case.do(self, label, fn, *operands, fatal=fatal)
                try:
                    self.log.append((label, harness.observe(r)))
                except Exception as e:
                    self.log.append((label, ('other',)))
                return r
        self.case = R(p, g, idx, seed, tier)
        self.case.log = []


def arrays(o):
    if o[0] == 'fun':
        return [o[4]]
    if o[0] == 'arr':
        return [o[3]]
    if o[0] == 'num':
        return [o[1]]
    if o[0] == 'state':
        return [x for _, v in o[2] for x in arrays(v)]
    if o[0] == 'list':
        return [x for v in o[1] for x in arrays(v)]
    return []


def poison_(c):
    import harness
    import poison
    p, g, mod, idx = pick(c)
    c.describe('%s/%s %d' % (p, g, idx))
    logs = []
    before = poison.handed[0]
    for pat in (np.nan, 3.0e7):
        poison.PATTERN[0] = pat
        r = Recorder(p, g, idx, c.seed, c.tier)
        try:
            mod.GROUPS[g][0](r.case)
        except harness.Abort:
            pass
        except Exception:
            pass
        logs.append(r.case.log)
    poison.PATTERN[0] = np.nan
    c.event('calls', len(logs[0]))
    c.event('poisoned arrays', poison.handed[0] - before)
    if not c.true('same calls whatever uninitialised memory contains', [x[0] for x in logs[0]] == [x[0] for x in logs[1]],
                  lambda: '%s: %d and %d calls' % (p + '/' + g, len(logs[0]), len(logs[1]))):
        return
    for (label, a), (_, b) in zip(*logs):
        for u, v in zip(arrays(a), arrays(b)):
            u, v = np.asarray(u), np.asarray(v)
            c.event('oracle')
            if u.shape != v.shape or u.dtype.kind not in 'fciu' or not u.size:
                continue
            c.event('oracle:results independent of uninitialised memory')
            fu, fv = np.isfinite(u), np.isfinite(v)
            s = max(float(np.max(np.abs(v[fv]), initial=0)), 1e-300)
            if np.any(fu != fv) or not np.all(np.abs(np.where(fu, u, 0) - np.where(fv, v, 0)) <= 1e-5 * s):
                c.violation('%s/%s %s depends on uninitialised memory' % (p, g, label), '%s and %s' % (u.ravel()[:4], v.ravel()[:4]))
                return
    c.seen('poison', p, g)


GROUPS = {'kernels': (kernels, 700, 8000), 'hostile': (hostile, 400, 5000), 'slices': (slices, 320, 3600), 'poison': (poison_, 300, 3600)}
