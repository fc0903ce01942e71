"""
Property-based testing harness shared by all checks.

A check module registers laws with @law(strategy, quick=N, thorough=M).  A law
is a function law(case, ctx): `case` is a JSON-able value drawn by a Hypothesis
strategy, the body exercises ngmix from /repo and raises on a violation.
All randomness of a case is in the case itself (arrays are expanded from
drawn integer seeds), so a saved case replays exactly.

Every law runs in forked worker processes (after numba warm-up in the parent);
a worker that crashes with a memory fault, or burns CPU without finishing one
case, is reported with the case it was running.
"""
import hashlib
import json
import logging
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def _setup_path():
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa
    except ImportError:
        # appended last, so that numpy etc. of the ngmix environment win
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import hypothesis  # noqa


_setup_path()

import hypothesis  # noqa: E402
from hypothesis import strategies as st, settings, Phase, HealthCheck  # noqa: E402,F401
import numpy as np  # noqa: E402

try:
    # Hypothesis follows every fresh case with up to five mutants that copy one
    # drawn value over another; the laws here gain more from fresh values, so
    # mutation is kept for a small share of the cases.
    from hypothesis.internal.conjecture.engine import ConjectureRunner as _CR
    _orig_mutate = _CR.generate_mutations_from

    def _mutate(self, data):
        if self.random.random() < 0.08:
            _orig_mutate(self, data)
    _CR.generate_mutations_from = _mutate
except Exception:
    pass

warnings.simplefilter('ignore')
np.seterr(all='ignore')
logging.disable(logging.CRITICAL)

import ngmix  # noqa: E402

if not os.path.abspath(ngmix.__file__).startswith(os.path.abspath(REPO) + os.sep):
    sys.stderr.write('ngmix imported from %s, not from %s\n' % (ngmix.__file__, REPO))
    sys.exit(3)

CASE_CPU_LIMIT = 150.0      # CPU seconds one case may burn before "does not terminate"
SHRINK_BUDGET = 40.0        # seconds of shrinking after the first failure of a law
QUICK_SOFT = 330.0          # seconds after which a worker stops starting new cases
THOROUGH_SOFT = 1500.0
NPROC = int(os.environ.get('VERIF_NPROC', '8'))


class Law(object):
    def __init__(self, fn, strategy, quick, thorough, shards, rule):
        self.fn = fn
        self.name = fn.__name__
        self.strategy = strategy
        self.quick = quick
        self.thorough = thorough
        self.shards = shards
        self.rule = rule or (fn.__doc__ or '').strip().split('\n')[0]


class Registry(object):
    def __init__(self):
        self.laws = []

    def law(self, strategy, quick=200, thorough=None, shards=None, rule=None):
        if thorough is None:
            thorough = quick * 20

        def deco(fn):
            self.laws.append(Law(fn, strategy, quick, thorough, shards, rule))
            return fn
        return deco


class Ctx(object):
    """what a law reports about one case"""
    def __init__(self):
        self.nt = False
        self.labels = []
        self.excluded = []

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def label(self, s):
        self.labels.append(s)

    def known(self, kf):
        """this case falls in a listed known finding: skipped, but counted"""
        self.excluded.append(kf)


class Skip(Exception):
    """the case is outside the domain (counted, never a violation)"""


# ---------------------------------------------------------------- assertions

class Violation(AssertionError):
    pass


def fail(msg):
    raise Violation(msg)


def check(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-9, atol=0.0, msg=''):
    a = np.asarray(a, dtype='f8') if not np.iscomplexobj(a) else np.asarray(a)
    b = np.asarray(b, dtype='f8') if not np.iscomplexobj(b) else np.asarray(b)
    if a.shape != b.shape:
        raise Violation('%s: shapes differ %s %s' % (msg, a.shape, b.shape))
    with np.errstate(all='ignore'):
        d = np.abs(a - b)
        ok = d <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
        ok = ok | ((a == b) | (np.isnan(a) & np.isnan(b)))
    if not np.all(ok):
        w = np.argwhere(~np.atleast_1d(ok))[0]
        raise Violation('%s: not close at %s: %r vs %r (maxdiff %r)' % (
            msg, tuple(int(x) for x in w),
            np.atleast_1d(a)[tuple(w)].item(), np.atleast_1d(b)[tuple(w)].item(),
            float(np.nanmax(np.where(np.isfinite(d), d, np.nan))) if np.any(np.isfinite(d)) else d.max(),
        ))


def same(a, b, msg=''):
    """bitwise equality (NaN equal to NaN)"""
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        raise Violation('%s: %s%s vs %s%s' % (msg, a.dtype, a.shape, b.dtype, b.shape))
    eq = (a == b)
    if a.dtype.kind in 'fc':
        eq = eq | (np.isnan(a) & np.isnan(b))
    if not np.all(eq):
        w = np.argwhere(~np.atleast_1d(eq))[0]
        raise Violation('%s: differ at %s: %r vs %r' % (
            msg, tuple(int(x) for x in w), np.atleast_1d(a)[tuple(w)], np.atleast_1d(b)[tuple(w)]))


def raises(exc, fn, *a, **k):
    msg = k.pop('_msg', '')
    try:
        r = fn(*a, **k)
    except exc as e:
        return e
    except Exception as e:
        raise Violation('%s: expected %s, got %s: %s' % (msg, exc, type(e).__name__, e))
    raise Violation('%s: expected %s, nothing raised (returned %r)' % (msg, exc, r))


# ---------------------------------------------------------------- execution

class _Done(Exception):
    pass


def _jdump(case):
    return json.dumps(case, sort_keys=True, default=_jdefault)


def _jdefault(o):
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    raise TypeError(type(o))


def _run_shard(law, n, seed, soft, curfile):
    """run one law n times; returns a dict of counters and maybe a failure"""
    t0 = time.time()
    out = dict(law=law.name, evaluations=0, nontrivial=set(), skipped=0, truncated=0,
               labels={}, excluded={}, samples=[], failure=None)
    state = dict(first_fail=None, best=None, failing=set())

    def body(case):
        now = time.time()
        js = _jdump(case)
        if state['first_fail'] is not None:
            if now - state['first_fail'] > SHRINK_BUDGET and js not in state['failing']:
                return
        elif now - t0 > soft:
            out['truncated'] += 1
            return
        os.pwrite(curfile, (js + '\n' + '\0' * 8).encode(), 0)
        os.ftruncate(curfile, len(js) + 1)
        ctx = Ctx()
        # fresh objects for the law, so that it cannot change what is stored
        case = json.loads(js)
        np.random.seed(12345)
        try:
            law.fn(case, ctx)
        except Skip:
            if state['first_fail'] is None:
                out['skipped'] += 1
            return
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            if state['first_fail'] is None:
                out['evaluations'] += 1
                state['first_fail'] = now
            state['failing'].add(js)
            txt = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
            if state['best'] is None or len(js) <= len(state['best'][0]):
                state['best'] = (js, '%s: %s' % (type(e).__name__, e), txt)
            raise
        if state['first_fail'] is not None:
            return
        out['evaluations'] += 1
        for lb in ctx.labels:
            out['labels'][lb] = out['labels'].get(lb, 0) + 1
        for lb in ctx.excluded:
            out['excluded'][lb] = out['excluded'].get(lb, 0) + 1
        if ctx.nt and not ctx.excluded:
            h = hashlib.blake2b(js.encode(), digest_size=8).digest()
            if h not in out['nontrivial']:
                out['nontrivial'].add(h)
                k = len(out['nontrivial'])
                if k in (1, 10):
                    out['samples'].append(json.loads(js))

    test = hypothesis.given(law.strategy)(body)
    test = hypothesis.seed(seed)(test)
    test = settings(
        max_examples=n, deadline=None, database=None, print_blob=False,
        report_multiple_bugs=False, derandomize=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(test)
    try:
        test()
    except Exception as e:
        if state['best'] is None:
            raise
        _ = e
    if state['best'] is not None:
        js, msg, txt = state['best']
        out['failure'] = dict(case=json.loads(js), message=msg, trace=txt)
    out['wall'] = time.time() - t0
    return out


def _cpu_of(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except Exception:
        return 0.0


FAULTS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def run_tasks(tasks, soft):
    """
    tasks: list of (law, n, seed).  Returns (results, errors).  Each task runs in
    its own forked process; at most NPROC at once.
    """
    tmp = tempfile.mkdtemp(prefix='vh_')
    pending = list(enumerate(tasks))
    running = {}
    results = {}
    errors = []
    stop_at = None
    try:
        while pending or running:
            while pending and len(running) < NPROC and stop_at is None:
                i, (law, n, seed) = pending.pop(0)
                cur = os.path.join(tmp, 'cur%d' % i)
                res = os.path.join(tmp, 'res%d' % i)
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 0
                    try:
                        fd = os.open(cur, os.O_RDWR | os.O_CREAT, 0o600)
                        # ngmix prints in places; keep the report readable
                        dn = os.open(os.devnull, os.O_WRONLY)
                        os.dup2(dn, 1)
                        r = _run_shard(law, n, seed, soft, fd)
                        with open(res, 'wb') as f:
                            pickle.dump(r, f)
                    except BaseException:
                        with open(res + '.err', 'w') as f:
                            traceback.print_exc(file=f)
                        code = 7
                    os._exit(code)
                running[pid] = dict(i=i, law=law, cur=cur, res=res, mtime=None, cpu0=0.0)
            if stop_at is not None:
                pending = []
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid in running:
                t = running.pop(pid)
                if os.WIFSIGNALED(status):
                    sig = os.WTERMSIG(status)
                    if t.get('hung') or sig in FAULTS:
                        case = _read_case(t['cur'])
                        why = 'does not terminate: one case used more than %d s of CPU' % CASE_CPU_LIMIT \
                            if t.get('hung') else 'process died with signal %d' % sig
                        if case is None:
                            errors.append('%s: %s outside a case' % (t['law'].name, why))
                        else:
                            results[t['i']] = _failed(t['law'], case, why)
                    elif t.get('stopped'):
                        pass
                    else:
                        errors.append('%s: worker ended by signal %d' % (t['law'].name, sig))
                elif os.WEXITSTATUS(status) != 0:
                    e = t['res'] + '.err'
                    errors.append('%s: %s' % (t['law'].name, open(e).read() if os.path.exists(e) else 'worker failed'))
                else:
                    with open(t['res'], 'rb') as f:
                        results[t['i']] = pickle.load(f)
                if t['i'] in results and results[t['i']]['failure'] and stop_at is None:
                    stop_at = time.time() + SHRINK_BUDGET + 5
                continue
            for p, t in running.items():
                try:
                    m = os.stat(t['cur']).st_mtime_ns
                except OSError:
                    continue
                c = _cpu_of(p)
                if m != t['mtime']:
                    t['mtime'] = m
                    t['cpu0'] = c
                elif c - t['cpu0'] > CASE_CPU_LIMIT and not t.get('hung'):
                    t['hung'] = True
                    os.kill(p, signal.SIGKILL)
                if stop_at is not None and time.time() > stop_at and not t.get('hung') and not t.get('stopped'):
                    t['stopped'] = True
                    os.kill(p, signal.SIGKILL)
            time.sleep(0.02)
    finally:
        for p in running:
            try:
                os.kill(p, signal.SIGKILL)
                os.waitpid(p, 0)
            except OSError:
                pass
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)
    return [results[i] for i in sorted(results)], errors


def _read_case(path):
    try:
        with open(path, 'rb') as f:
            return json.loads(f.read().split(b'\n')[0].decode())
    except Exception:
        return None


def _failed(law, case, why):
    return dict(law=law.name, evaluations=1, nontrivial=set(), skipped=0, truncated=0, labels={},
                excluded={}, samples=[], failure=dict(case=case, message=why, trace=''), wall=0.0)


def load_known(prop):
    """committed known findings of this property: list of dicts"""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data['findings'] if e['property'] == prop]


def main(module, prop, argv):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    only = None
    scale = 1.0
    args = list(argv)
    while args:
        a = args.pop(0)
        if a in ('quick', 'thorough'):
            tier = a
        elif a == '--replay':
            replay = args.pop(0)
        elif a == '--law':
            only = args.pop(0)
        elif a == '--scale':
            scale = float(args.pop(0))
        else:
            sys.stderr.write('unknown argument %s\n' % a)
            return 2
    laws = module.R.laws
    names = [w.name for w in laws]
    assert len(set(names)) == len(names), names

    if replay is not None:
        with open(replay) as f:
            d = json.load(f)
        law = [w for w in laws if w.name == d['law']][0]
        try:
            law.fn(d['case'], Ctx())
        except Skip:
            print('case is outside the domain')
            return 0
        except Exception:
            traceback.print_exc()
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        print('replay passes')
        return 0

    if only:
        laws = [w for w in laws if w.name in only.split(',')]

    # pre-compile in the parent so that forked workers share the machine code.
    # A failure here is left to the laws, which report it with a case.
    warm = getattr(module, 'warmup', None)
    if warm is not None:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            so = os.dup(1)
            sys.stdout.flush()
            os.dup2(dn, 1)
            try:
                warm()
            finally:
                sys.stdout.flush()
                os.dup2(so, 1)
                os.close(so)
                os.close(dn)
        except Exception:
            traceback.print_exc()
            sys.stderr.write('warm-up failed; continuing\n')
    t_warm = time.time() - t0

    findings = []
    known = load_known(prop)
    for e in known:
        fn = getattr(module, 'FINDINGS', {}).get(e['id'])
        if fn is None:
            sys.stderr.write('known finding %s has no demonstration\n' % e['id'])
            return 2
        if fn():
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
            findings.append(e['id'])

    tasks = []
    for iw, w in enumerate(laws):
        n = int(max(1, round((w.quick if tier == 'quick' else w.thorough) * scale)))
        sh = w.shards or min(8, max(1, n // 100))
        if tier == 'thorough':
            sh = max(sh, 8)
        sh = min(sh, n)
        for k in range(sh):
            m = n // sh + (1 if k < n % sh else 0)
            s = int(hashlib.sha256(('%s/%s/%d/%d' % (prop, w.name, seed, k)).encode()).hexdigest()[:12], 16)
            tasks.append((w, m, s, k))
    # first shards first, so that every law starts early
    tasks.sort(key=lambda t: t[3])
    tasks = [t[:3] for t in tasks]

    soft = QUICK_SOFT if tier == 'quick' else THOROUGH_SOFT
    results, errors = run_tasks(tasks, soft)

    per = {}
    for r in results:
        p = per.setdefault(r['law'], dict(evaluations=0, distinct_nontrivial=set(), skipped=0, truncated=0,
                                          labels={}, excluded={}, wall_s=0.0))
        p['evaluations'] += r['evaluations']
        p['distinct_nontrivial'] |= r['nontrivial']
        p['skipped'] += r['skipped']
        p['truncated'] += r['truncated']
        p['wall_s'] += round(r.get('wall', 0.0), 2)
        for key in ('labels', 'excluded'):
            for lb, c in r[key].items():
                p[key][lb] = p[key].get(lb, 0) + c
    samples = []
    seen = set()
    for r in results:
        if r['law'] not in seen and r['samples']:
            seen.add(r['law'])
            samples.append(dict(law=r['law'], case=r['samples'][-1]))
    failures = [(r['law'], r['failure']) for r in results if r['failure']]

    for p in per.values():
        p['distinct_nontrivial'] = len(p['distinct_nontrivial'])
    rules = {w.name: w.rule for w in laws}
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=sum(p['evaluations'] for p in per.values()),
            distinct_nontrivial=sum(p['distinct_nontrivial'] for p in per.values()),
            rule='cases are drawn by Hypothesis from the strategy of each law with the given seed; a case counts as '
                 'non-trivial when the law marks it so (see law_rules) and as distinct when its JSON form is new for the law',
            samples=samples[:12],
            per_law=per,
            law_rules=rules,
            known_findings=findings,
        ),
        assumptions=list(getattr(module, 'ASSUMPTIONS', [])),
        wall_s=round(time.time() - t0, 2),
        violations=len(failures),
    )
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % prop), 'w') as f:
            json.dump(evidence, f, indent=1, default=_jdefault)

    for w in laws:
        p = per.get(w.name)
        if p:
            print('%-34s eval=%-6d nontrivial=%-6d skip=%-4d trunc=%-3d wall=%.1f %s%s' % (
                w.name, p['evaluations'], p['distinct_nontrivial'], p['skipped'], p['truncated'], p['wall_s'],
                json.dumps(p['labels'], sort_keys=True), (' excluded ' + json.dumps(p['excluded'])) if p['excluded'] else ''))
    print('property %s tier=%s seed=%d evaluations=%d nontrivial=%d warm=%.1fs wall=%.1fs' % (
        prop, tier, seed, evidence['coverage']['evaluations'], evidence['coverage']['distinct_nontrivial'],
        t_warm, time.time() - t0))

    if failures:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for name, fl in failures:
            h = hashlib.blake2b(_jdump(fl['case']).encode(), digest_size=5).hexdigest()
            path = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (prop, name, h))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, law=name, case=fl['case'], message=fl['message'], trace=fl['trace'],
                               run='./check %s --replay %s' % (prop, path)), f, indent=1, default=_jdefault)
            print('law %s: %s' % (name, fl['message'][:2000]))
            print('case: %s' % _jdump(fl['case'])[:2000])
            print(fl['trace'][-1500:])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        for e in errors:
            print('also: ' + e)
        return 1
    if errors:
        for e in errors:
            print('ERROR ' + e)
        return 2
    return 0
