"""Runs the monitored workloads of one property.

A property module (lib/props/<ID>.py) exposes

    GROUPS = {name: (fn, quick_count, thorough_count)}

where fn(c) drives the real code through one case.  `c` is the monitor: every
operation goes through `c.do`, which records the call, observes the operands
before and after it and turns an unexpected exception into a violation, and
every result goes through an oracle (`c.close`, `c.true`, `c.raises`).

Case (seed, group, index) determines everything a case does, so that a case
can be replayed on its own.
"""
import collections
import importlib
import json
import os
import resource
import signal
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(VERIF, 'replays')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

CASE_CPU = 60.0     # processor seconds (not wall clock) one case may take


class Abort(BaseException):
    """The rest of the case cannot be judged."""


class CaseTimeout(BaseException):
    pass


def _np():
    import numpy
    return numpy


class Case:
    def __init__(self, prop, group, index, seed, tier):
        np = _np()
        self.prop, self.group, self.index, self.seed, self.tier = prop, group, index, seed, tier
        self.rng = np.random.default_rng([seed, zlib.crc32((prop + '/' + group).encode()), index])
        self.events = collections.Counter()
        self.tags = set()
        self.violations = []
        self.desc = []
        self.margin = {}
        self.last = ''

    # -- bookkeeping ---------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] += n

    def seen(self, *tag):
        self.tags.add('/'.join(str(t) for t in tag))

    def describe(self, text):
        self.desc.append(str(text)[:300])

    def violation(self, sig, detail):
        sig = '%s:%s' % (self.group, sig)
        self.violations.append(dict(sig=sig, group=self.group, index=self.index, seed=self.seed,
                                    detail=str(detail)[:2000], case=' ; '.join(self.desc)[:1500]))

    # -- monitored execution -------------------------------------------------
    def do(self, label, fn, *operands, fatal=True):
        """Executes fn(); any exception is a violation; the operands must come out as they went in."""
        before = [observe(o) for o in operands]
        self.last = label
        self.events['calls'] += 1
        self.events['call:' + label] += 1
        try:
            res = fn()
        except (Abort, CaseTimeout, KeyboardInterrupt):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = next(('%s:%s' % (os.path.basename(t.filename), t.name) for t in reversed(tb)), '?')
            self.violation('%s raised %s' % (label, type(e).__name__),
                           '%s: %s at %s' % (type(e).__name__, e, where))
            if fatal:
                raise Abort()
            return None
        for k, (o, b) in enumerate(zip(operands, before)):
            self.unchanged(label, k, o, b)
        return res

    def unchanged(self, label, k, obj, before):
        a = observe(obj)
        self.events['operand snapshots'] += 1
        why = compare(before, a)
        if why:
            self.violation('%s changed operand %d' % (label, k), why)

    # -- oracles -------------------------------------------------------------
    def close(self, label, got, ref, tol, scale=None):
        np = _np()
        self.events['oracle'] += 1
        self.events['oracle:' + label] += 1
        try:
            g = np.asarray(got)
            if g.dtype == object:
                g = g.astype(complex)
        except Exception as e:
            self.violation('%s wrong kind' % label, 'got %r (%s)' % (type(got), e))
            return False
        r = np.asarray(ref)
        gs, rs = g.squeeze(), r.squeeze()
        if gs.shape != rs.shape:
            self.violation('%s wrong shape' % label, 'got shape %s, expected %s' % (g.shape, r.shape))
            return False
        if gs.size == 0:
            return True
        if not np.all(np.isfinite(gs)):
            self.violation('%s not finite' % label, 'got %s, expected %s' % (_short(gs), _short(rs)))
            return False
        if scale is None:
            scale = float(np.max(np.abs(rs)))
        err = np.max(np.abs(gs - rs))
        if err > 0 and label:
            self.margin[label] = max(self.margin.get(label, 0.0), float(err / (tol * scale + 1e-300)))
        if not err <= tol * scale + 1e-300:
            k = int(np.argmax(np.abs(gs - rs)))
            self.violation('%s wrong' % label,
                           'error %.3g exceeds %.3g (scale %.3g); got %s, expected %s' % (
                               err, tol * scale, scale, gs.reshape(-1)[k], rs.reshape(-1)[k]))
            return False
        return True

    def true(self, label, cond, detail=''):
        self.events['oracle'] += 1
        self.events['oracle:' + label] += 1
        if not bool(cond):
            self.violation(label, detail() if callable(detail) else detail)
            return False
        return True

    def raises(self, label, fn, *operands):
        """fn() must refuse loudly and leave its operands alone."""
        before = [observe(o) for o in operands]
        self.events['calls'] += 1
        self.events['oracle'] += 1
        self.events['oracle:' + label] += 1
        try:
            res = fn()
        except (Abort, CaseTimeout, KeyboardInterrupt):
            raise
        except BaseException:
            for k, (o, b) in enumerate(zip(operands, before)):
                self.unchanged(label, k, o, b)
            return True
        self.violation('%s accepted' % label, 'expected an error, got %s' % _short(res))
        return False


def _short(x):
    s = repr(x)
    return s if len(s) < 160 else s[:160] + '...'


# -- what is observable about an operand -----------------------------------------
def observe(o):
    np = _np()
    import funpy
    from funpy.fun import Fun
    if isinstance(o, Fun):
        dom = np.array(o.domain, dtype=float)
        t = np.array([0.0, 0.113, 0.271, 0.5, 0.612, 0.777, 0.969])
        xs = dom[0] + (dom[-1] - dom[0]) * t
        v = np.array(o(xs))
        m = o.m
        return ('fun', o.type, dom, int(m), v.reshape(len(t), -1) if v.size == len(t) * m else v)
    if hasattr(o, 'items') and hasattr(o, 'cpar') or type(o).__module__.startswith('funpy.vectorspaces'):
        try:
            return ('state', type(o).__name__,
                    [(k, observe(v) if isinstance(v, Fun) else ('num', np.array(v, dtype=complex))) for k, v in o.items()])
        except Exception:
            return ('other',)
    if isinstance(o, np.ndarray):
        return ('arr', o.shape, str(o.dtype), np.array(o))
    if hasattr(o, 'tocsr') and hasattr(o, 'nnz'):
        return ('arr', o.shape, 'sparse', np.array(o.toarray()))
    if isinstance(o, (list, tuple)) and o and all(isinstance(q, (Fun, np.ndarray)) for q in o):
        return ('list', [observe(q) for q in o])
    if isinstance(o, (int, float, complex)):
        return ('num', np.array(o, dtype=complex))
    return ('other',)


def compare(a, b, path=''):
    np = _np()
    if a[0] != b[0]:
        return '%skind %s became %s' % (path, a[0], b[0])
    if a[0] == 'fun':
        if a[1] != b[1]:
            return '%stype %s became %s' % (path, a[1], b[1])
        if a[2].shape != b[2].shape or np.any(a[2] != b[2]):
            return '%sdomain %s became %s' % (path, a[2], b[2])
        if a[3] != b[3] or a[4].shape != b[4].shape:
            return '%sshape %s became %s' % (path, a[4].shape, b[4].shape)
        s = max(float(np.max(np.abs(a[4]), initial=0)), 1e-300)
        tol = (2e-8 if a[1] == 'trig' else 1e-11) * s
        e = np.max(np.abs(a[4] - b[4]), initial=0)
        if not e <= tol and not (np.array_equal(a[4], b[4], equal_nan=True)):
            return '%svalues moved by %.3g (scale %.3g)' % (path, e, s)
    elif a[0] in ('arr',):
        if a[1:3] != b[1:3] or not np.array_equal(a[3], b[3], equal_nan=a[3].dtype.kind in 'fc'):
            return '%sarray changed' % path
    elif a[0] == 'num':
        if not np.array_equal(a[1], b[1], equal_nan=True):
            return '%snumber %s became %s' % (path, a[1], b[1])
    elif a[0] == 'state':
        if len(a[2]) != len(b[2]):
            return '%sstate components changed' % path
        for (k, x), (l, y) in zip(a[2], b[2]):
            if k != l:
                return '%sstate component %s became %s' % (path, k, l)
            w = compare(x, y, path + str(k) + ': ')
            if w:
                return w
    elif a[0] == 'list':
        for k, (x, y) in enumerate(zip(a[1], b[1])):
            w = compare(x, y, path + '[%d] ' % k)
            if w:
                return w
    return None


# -- running ------------------------------------------------------------------------
def load(prop):
    return importlib.import_module('props.' + prop)


def jobs(mod, tier):
    out = []
    for g, (fn, q, t) in mod.GROUPS.items():
        n = q if tier == 'quick' else t
        out += [((i + 0.5) / n, g, i) for i in range(n)]
    out.sort()
    return [(g, i) for _, g, i in out]


def run_case(mod, prop, group, index, seed, tier):
    c = Case(prop, group, index, seed, tier)
    fn = mod.GROUPS[group][0]

    def alarm(*_):
        raise CaseTimeout()
    signal.signal(signal.SIGPROF, alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU', CASE_CPU))
    try:
        fn(c)
    except Abort:
        pass
    except CaseTimeout:
        c.violation('%s does not return' % c.last, 'no result after %g processor seconds' %
                    getattr(mod, 'CASE_CPU', CASE_CPU))
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        # an exception outside a monitored call: reading a result failed
        tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-4:])
        inner = traceback.extract_tb(e.__traceback__)
        ours = all(os.path.realpath(t.filename).startswith(VERIF) for t in inner)
        if ours:
            c.events['harness error'] += 1
        c.violation('%s left an unusable result: %s' % (c.last, type(e).__name__), tb[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return c


def shard_main(prop, variant, groups, k, n, seed, tier, deadline, out):
    """Child process: runs every job whose number is k modulo n."""
    sys.path.insert(0, HERE)
    import warnings
    warnings.simplefilter('ignore')
    import build
    mods = build.install(variant)
    keep = os.dup(1)
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    if not os.environ.get('LD_PRELOAD'):
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    import numpy as np
    np.seterr(all='ignore')
    if os.environ.get('VERIF_POISON'):
        import poison
        poison.install()
    import funpy
    build.assert_fresh(mods)
    mod = load(prop)
    todo = [j for j in jobs(mod, tier) if not groups or j[0] in groups]
    res = dict(cases=0, per_group=collections.Counter(), events=collections.Counter(), tags=set(),
               violations=[], samples=[], skipped=0, total=0, margin={})
    prog = open(out + '.progress', 'w')
    for num, (g, i) in enumerate(todo):
        if num % n != k:
            continue
        res['total'] += 1
        if time.time() > deadline:
            res['skipped'] += 1
            continue
        prog.seek(0)
        prog.truncate()
        prog.write(json.dumps([g, i]))
        prog.flush()
        c = run_case(mod, prop, g, i, seed, tier)
        res['cases'] += 1
        res['per_group'][g] += 1
        res['events'].update(c.events)
        res['tags'] |= c.tags
        for key, val in c.margin.items():
            key = '%s: %s' % (g, key)
            res['margin'][key] = max(res['margin'].get(key, 0.0), val)
        if len(res['violations']) < 200:
            res['violations'] += c.violations
        if c.desc and (i < 1 and len(res['samples']) < 10):
            res['samples'].append('%s[%d]: %s' % (g, i, ' ; '.join(c.desc)[:400]))
    res['tags'] = sorted(res['tags'])
    with open(out + '.tmp', 'w') as fh:
        json.dump(res, fh)
    os.rename(out + '.tmp', out)
    os.dup2(keep, 1)


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line.split('sig="', 1)[1]
                sig, what = rest.split('"', 1)
                out[sig] = what.strip()
    return out


def shard_env(run):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
               PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    env.pop('PYTHONPATH', None)
    env.update(run.get('env', {}))
    return env


def main(prop, seed, tier, replay=None):
    t0 = time.time()
    sys.path.insert(0, HERE)
    import build
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    # RUNS is plain data readable without importing numpy-heavy code
    mod = load(prop)
    runs = getattr(mod, 'RUNS', None) or [dict(variant='plain')]
    budget = getattr(mod, 'BUDGET', {}).get(tier, 420 if tier == 'quick' else 2400)
    for r in runs:
        if r.get('variant'):
            build.build(r['variant'])
    nshard = int(os.environ.get('VERIF_JOBS', '8'))
    work = os.path.join(VERIF, '.scratch', '%s-%d' % (prop, os.getpid()))
    os.makedirs(work)
    merged = dict(cases=0, per_group=collections.Counter(), events=collections.Counter(), tags=set(),
                  violations=[], samples=[], skipped=0, total=0, runs=[], margin={})
    problems = []
    try:
        for ri, r in enumerate(runs):
            deadline = time.time() + budget * r.get('share', 1.0 / len(runs))
            procs = []
            for k in range(nshard):
                out = os.path.join(work, 'r%d-s%d.json' % (ri, k))
                err = open(out + '.err', 'wb')
                cmd = [sys.executable, '-W', 'ignore', os.path.join(VERIF, 'check.py'), prop, '--shard',
                       json.dumps(dict(variant=r.get('variant', 'plain'), groups=r.get('groups'), k=k, n=nshard,
                                       seed=seed, tier=tier, deadline=deadline, out=out))]
                env = shard_env(r)
                if r.get('asan'):
                    env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('@LOG@', out + '.san')
                    env['UBSAN_OPTIONS'] = env['UBSAN_OPTIONS'].replace('@LOG@', out + '.san')
                procs.append((k, out, err, subprocess.Popen(cmd, stdout=err, stderr=err, env=env, cwd=VERIF)))
            hard = deadline + 120
            for k, out, err, p in procs:
                try:
                    p.wait(timeout=max(1, hard - time.time()))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    problems.append('shard %d did not finish' % k)
                err.close()
                cur = ''
                try:
                    cur = open(out + '.progress').read()
                except OSError:
                    pass
                text = open(out + '.err', errors='replace').read()
                for f in sorted(os.listdir(work)):
                    if f.startswith(os.path.basename(out) + '.san'):
                        text += open(os.path.join(work, f), errors='replace').read()
                san = _sanitizer_report(text)
                if san or (p.returncode < 0 and p.returncode not in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGINT)):
                    g, i = (json.loads(cur) if cur else ['?', 0])
                    merged['violations'].append(dict(
                        sig='%s:%s' % (g, san[0] if san else 'killed by signal %d' % -p.returncode),
                        group=g, index=i, seed=seed, run=ri, detail=(san[1] if san else text[-1500:]), case=''))
                    if os.path.exists(out) is False:
                        continue
                elif p.returncode != 0:
                    problems.append('shard %d exited with %s: %s' % (k, p.returncode, text[-1500:]))
                    continue
                if os.path.exists(out):
                    d = json.load(open(out))
                    for key in ('cases', 'skipped', 'total'):
                        merged[key] += d[key]
                    merged['per_group'].update(d['per_group'])
                    merged['events'].update(d['events'])
                    merged['tags'] |= set(d['tags'])
                    for key, val in d['margin'].items():
                        merged['margin'][key] = max(merged['margin'].get(key, 0.0), val)
                    for v in d['violations']:
                        v['run'] = ri
                    merged['violations'] += d['violations']
                    merged['samples'] += d['samples']
            merged['runs'].append(r.get('name', r.get('variant', 'plain')))
    finally:
        import shutil
        shutil.rmtree(work, ignore_errors=True)

    known = known_findings(prop)
    fresh = [v for v in merged['violations'] if v['sig'] not in known]
    seen_known = sorted({v['sig'] for v in merged['violations'] if v['sig'] in known})
    need = [g for g in mod.GROUPS if merged['per_group'].get(g, 0) == 0]
    status = 0
    for sig in seen_known:
        print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[sig], sig))
    if fresh:
        status = 1
        order = collections.OrderedDict()
        for v in fresh:
            order.setdefault(v['sig'], []).append(v)
        for n, (sig, vs) in enumerate(list(order.items())[:10]):
            v = vs[0]
            path = os.path.join(REPLAYS, '%s-%08x.json' % (prop, zlib.crc32(sig.encode())))
            with open(path, 'w') as fh:
                json.dump(dict(property=prop, group=v['group'], index=v['index'], seed=v['seed'], tier=tier, run=v.get('run', 0),
                               sig=sig, detail=v['detail'], case=v['case'], occurrences=len(vs)), fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  %s (%d times): %s' % (sig, len(vs), v['detail'][:400]))
    elif problems or need or merged['events'].get('oracle', 0) == 0:
        status = 3
        for p in problems[:5]:
            print('INCONCLUSIVE property=%s %s' % (prop, p))
        if need:
            print('INCONCLUSIVE property=%s nothing observed for %s' % (prop, need))

    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(
                  evaluations=merged['cases'], distinct_nontrivial=len(merged['tags']),
                  rule=mod.RULE, samples=(merged['samples'] or ['none'])[:12],
                  monitored_calls=merged['events'].get('calls', 0),
                  oracle_verdicts=merged['events'].get('oracle', 0),
                  operand_snapshots=merged['events'].get('operand snapshots', 0),
                  cases_per_group=dict(merged['per_group']),
                  events={k: v for k, v in sorted(merged['events'].items()) if ':' in k or k not in ('calls', 'oracle', 'operand snapshots')},
                  largest_error_over_tolerance={k: float('%.2g' % v) for k, v in sorted(merged['margin'].items())},
                  cases_skipped_by_time=merged['skipped'], builds=merged['runs'],
                  distinct_sample=sorted(merged['tags'])[:12]),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2),
              violations=len(fresh))
    if problems:
        ev['coverage']['problems'] = problems[:5]
    tmp = os.path.join(EVID, prop + '.json.tmp')
    with open(tmp, 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.rename(tmp, os.path.join(EVID, prop + '.json'))
    print('%s: %d cases, %d monitored calls, %d verdicts, %d distinct, %d violations, %.1f s%s' % (
        prop, merged['cases'], merged['events'].get('calls', 0), merged['events'].get('oracle', 0),
        len(merged['tags']), len(fresh), time.time() - t0,
        ', %d cases cut by time' % merged['skipped'] if merged['skipped'] else ''))
    return status


def _sanitizer_report(text):
    import re
    m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*|ERROR: LeakSanitizer[^\n]*)', text)
    if not m:
        return None
    frame = re.search(r'#\d+ 0x\w+ in (\w+)[^\n]*\.c', text)
    head = re.sub(r'0x[0-9a-f]+', '0x..', m.group(1))
    head = re.sub(r'\d{4,}', 'N', head)
    return ('sanitizer: %s' % head[:120], text[m.start():m.start() + 1800])


def replay_main(path):
    d = json.load(open(path))
    sys.path.insert(0, HERE)
    import warnings
    warnings.simplefilter('ignore')
    runs = getattr(load(d['property']), 'RUNS', None) or [dict(variant='plain')]
    r = runs[d.get('run', 0)]
    if r.get('env') and not os.environ.get('VERIF_REPLAYING'):
        env = shard_env(r)
        env['VERIF_REPLAYING'] = '1'
        for k in ('ASAN_OPTIONS', 'UBSAN_OPTIONS'):
            if k in env:
                env[k] = env[k].replace('@LOG@', 'stderr')
        os.execve(sys.executable, [sys.executable, '-W', 'ignore', os.path.join(VERIF, 'check.py'), '--replay', path], env)
    import build
    mods = build.install(r.get('variant', 'plain'))
    import numpy as np
    np.seterr(all='ignore')
    if os.environ.get('VERIF_POISON'):
        import poison
        poison.install()
    import funpy
    build.assert_fresh(mods)
    mod = load(d['property'])
    c = run_case(mod, d['property'], d['group'], d['index'], d['seed'], d['tier'])
    for v in c.violations:
        print('%s: %s\n   case: %s' % (v['sig'], v['detail'], v['case']))
    print('%d violations' % len(c.violations))
    return 1 if c.violations else 0
