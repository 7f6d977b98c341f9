"""Runner of the checks: cases in worker processes, three-valued verdict, evidence, replay files.

A property module (vf/props/cNN.py) provides
  cases(tier, seed) -> list of JSON-able dicts      one per monitored workload
  run(case, rec)                                     runs the real code under its monitors
  finalize(agg, rec)  (optional)                     verdict over the merged statistics
  RULE, NEED, ASSUMPTIONS, LEVEL
  ROUNDS                                           how many sets of cases the quick tier takes (6 if not given)
Verdicts: Violation (exit 1), held (exit 0), inconclusive or error of the harness (exit 2).
"""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
REPLAYS = os.path.join(VERIF, 'replays')

CASE_ALARM_S = float(os.environ.get('VERIF_CASE_ALARM', '60'))
LINE_BUDGET = 60_000_000          # lines executed in /repo after the alarm: no case of ours needs as many
TOTAL_S = 780.0                   # watchdog of the whole check (inconclusive)


class Violation(BaseException):
    """the monitored execution breaks the property"""


class Inconclusive(BaseException):
    pass


class HarnessError(BaseException):
    pass


class Rec:
    """What one case observed."""

    def __init__(self, case=None):
        self.case = case
        self.counters = {}
        self.digests = []       # (digest, nontrivial) per execution
        self.samples = []
        self.sums = {}          # mergeable statistics: name -> list of numbers (added up)
        self.known = {}         # key -> text: deviation of a kind which is perhaps a known finding
        self.sets = {}          # name -> set of small hashables: distinct situations seen

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def execution(self, trace, nontrivial=True):
        d = hashlib.blake2b(repr(trace).encode(), digest_size=8).hexdigest()
        self.digests.append((d, bool(nontrivial)))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def saw(self, name, item):
        self.sets.setdefault(name, set()).add(item)

    def add(self, name, values):
        cur = self.sums.get(name)
        values = [float(v) for v in values]
        self.sums[name] = values if cur is None else [a + b for a, b in zip(cur, values)]

    def violation(self, msg, **detail):
        if detail:
            msg += ' | ' + ', '.join('%s=%s' % (k, _short(v)) for k, v in detail.items())
        raise Violation(msg)

    def check(self, cond, msg, **detail):
        self.count('monitor_evaluations')
        if not cond:
            self.violation(msg, **detail)


def _short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- workers

_mod = None


def setup_imports():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = '/nonexistent-pycache'
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    importlib.invalidate_caches()


def _init(modname):
    global _mod
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    sys.stdout = open(os.devnull, 'w')
    sys.stderr = open(os.devnull, 'w')
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    _mod = importlib.import_module(modname)


class _NonTermination(BaseException):
    pass


def _arm(case):
    """After CASE_ALARM_S of processor time (other load does not matter), start counting executed lines of /repo: only the
    count decides."""
    def giveup(*a):
        raise Inconclusive('case exceeded its time')
    signal.signal(signal.SIGALRM, giveup)
    signal.setitimer(signal.ITIMER_REAL, CASE_ALARM_S * 6)
    if not hasattr(sys, 'monitoring'):
        return
    mon = sys.monitoring
    n = [0]

    def line(code, lineno):
        if not code.co_filename.startswith(REPO + os.sep):
            return mon.DISABLE
        n[0] += 1
        if n[0] > LINE_BUDGET:
            mon.set_events(mon.DEBUGGER_ID, 0)
            raise _NonTermination('over %d more lines executed after %.0f s' % (LINE_BUDGET, CASE_ALARM_S))

    def onalarm(*a):
        try:
            mon.use_tool_id(mon.DEBUGGER_ID, 'watchdog')
        except ValueError:
            pass
        mon.register_callback(mon.DEBUGGER_ID, mon.events.LINE, line)
        mon.set_events(mon.DEBUGGER_ID, mon.events.LINE)
    L = case.get('L', 0)
    large = isinstance(L, int) and L >= 100
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_ALARM_S * (4 if large else 1))


def _disarm():
    signal.setitimer(signal.ITIMER_REAL, 0)
    signal.setitimer(signal.ITIMER_PROF, 0)
    if hasattr(sys, 'monitoring'):
        try:
            sys.monitoring.set_events(sys.monitoring.DEBUGGER_ID, 0)
            sys.monitoring.free_tool_id(sys.monitoring.DEBUGGER_ID)
        except ValueError:
            pass


def run_case(case, mod=None):
    """-> (verdict, message, rec): verdict in ok, violation, inconclusive, error"""
    import random
    mod = mod or _mod
    rec = Rec(case)
    random.seed(case.get('rng', 12345))
    _arm(case)
    try:
        mod.run(case, rec)
        return 'ok', '', rec
    except Violation as e:
        return 'violation', str(e), rec
    except _NonTermination as e:
        return 'violation', 'the code under test does not come to an end: %s' % e, rec
    except Inconclusive as e:
        return 'inconclusive', str(e), rec
    except HarnessError as e:
        return 'error', '%s' % e, rec
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = ''.join(traceback.format_exception(e))
        inside = [f for f in tb if os.path.abspath(f.filename).startswith(REPO + os.sep)]
        if inside:
            f = inside[-1]
            return 'violation', 'the code under test failed on a valid workload: %s at %s:%s %s' % (
                _short(e), os.path.relpath(f.filename, REPO), f.name, text.strip().splitlines()[-1]), rec
        nothing = isinstance(e, AttributeError) and isinstance(e.obj, (type(None), bool, int, float, str, list, tuple, dict))
        if nothing or isinstance(e, (KeyError, IndexError, TypeError, ValueError, ZeroDivisionError)):
            # raised in the oracle while it read what the code under test returned or wrote: a field which is missing,
            # a table of another shape, a number which is none.  (A name which is missing is not such a case.)
            f = tb[-1]
            return 'violation', 'the oracle cannot make sense of what the code under test returned or wrote: %s at %s:%d' % (
                text.strip().splitlines()[-1], os.path.basename(f.filename), f.lineno), rec
        return 'error', text, rec
    finally:
        _disarm()


_lines = None       # development only: lines of /repo executed, see tools/coverage.py


def _coverage(path):
    global _lines
    if _lines is None:
        _lines = set()
        mon = sys.monitoring

        def line(code, n):
            if code.co_filename.startswith(REPO + os.sep):
                _lines.add((code.co_filename[len(REPO) + 1:], n))
            return mon.DISABLE
        mon.use_tool_id(5, 'lines')
        mon.register_callback(5, mon.events.LINE, line)
        mon.set_events(5, mon.events.LINE)
    else:
        with open('%s.%d' % (path, os.getpid()), 'w') as f:
            f.writelines('%s:%d\n' % x for x in _lines)


def _work(args):
    i, case = args
    t = time.time()
    cov = os.environ.get('VF_COV')
    if cov and _lines is None:
        _coverage(cov)
    v, msg, rec = run_case(case)
    if cov:
        _coverage(cov)
    return i, v, msg, rec, time.time() - t


# ---------------------------------------------------------------- known findings

def known_findings(prop):
    """{key: what} of the lines `known: property=<id> key=<key> <what>`"""
    out = {}
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: '):
                parts = line.split(None, 3)
                if parts[1] == 'property=' + prop and parts[2].startswith('key='):
                    out[parts[2][4:]] = parts[3].strip()
    return out


# ---------------------------------------------------------------- main

def write_replay(prop, case, msg):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (
        prop, hashlib.blake2b(json.dumps(case, sort_keys=True).encode(), digest_size=5).hexdigest()))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, case=case, message=msg), f, indent=1)
    return path


def main(*a, **kw):
    """all scratch directories of the run lie in one, which is removed whatever happens"""
    d = tempfile.mkdtemp(prefix='vf-')
    old, tempfile.tempdir = tempfile.tempdir, d
    try:
        return _main(*a, **kw)
    finally:
        tempfile.tempdir = old
        for _ in range(3):
            shutil.rmtree(d, ignore_errors=True)
            if not os.path.exists(d):
                break
            time.sleep(.1)


def _main(prop, tier, seed, replay=None, jobs=None, verbose=False):
    t0 = time.time()
    sys.stdout.reconfigure(line_buffering=True)
    modname = 'vf.props.' + prop.lower()
    setup_imports()
    try:
        mod = importlib.import_module(modname)
    except BaseException:
        # the code under test cannot even be imported, or the harness is broken
        text = traceback.format_exc()
        print(text, file=sys.stderr)
        return 2
    if replay:
        case = json.load(open(replay))['case']
        if case.get('all_cases'):
            return _main(prop, case['tier'], case['seed'], None, jobs, verbose)
        v, msg, rec = run_case(case, mod)
        fin = getattr(mod, 'finalize', None)
        if v == 'ok' and fin:
            try:
                fin(merge([rec]), rec)
            except Violation as e:
                v, msg = 'violation', str(e)
        sys.stdout = sys.__stdout__
        print(v, msg)
        if v == 'violation':
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        return 0 if v == 'ok' else 2
    cases = mod.cases(tier, seed)
    if tier == 'quick':
        for r in range(1, getattr(mod, 'ROUNDS', 6)):
            cases += mod.cases(tier, seed + 1_000_000_007 * r)
    for i, c in enumerate(cases):
        c.setdefault('rng', seed * 1_000_003 + i)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1
    results, problems, slow = {}, [], []
    ctx = multiprocessing.get_context('fork')
    total = float(os.environ.get('VERIF_TOTAL_S', TOTAL_S if tier == 'quick' else 6 * 3600))
    found = None
    ex = cf.ProcessPoolExecutor(max_workers=min(jobs, max(1, len(cases))), mp_context=ctx,
                                initializer=_init, initargs=(modname,))
    try:
        futs = [ex.submit(_work, (i, c)) for i, c in enumerate(cases)]
        try:
            for f in cf.as_completed(futs, timeout=total):
                i, v, msg, rec, dt = f.result()
                slow.append((dt, i))
                if v == 'violation':
                    found = (i, msg, rec)
                    break
                if v != 'ok':
                    problems.append((i, v, msg))
                else:
                    results[i] = rec
        except cf.TimeoutError:
            problems.append((-1, 'inconclusive', 'watchdog of the whole check'))
        except cf.process.BrokenProcessPool as e:
            problems.append((-1, 'error', 'a worker process died: %s' % e))
    finally:
        procs = list((ex._processes or {}).values())
        if found or problems:
            for p in procs:
                p.kill()
        ex.shutdown(wait=not (found or problems), cancel_futures=True)
    agg = merge([results[i] for i in sorted(results)])
    if found is None and not problems and hasattr(mod, 'finalize'):
        try:
            mod.finalize(agg, agg)
        except Violation as e:
            found = (-1, str(e), agg)
            # statistics merged over all the cases: the replay runs all of them
        except Exception:
            problems.append((-1, 'error', traceback.format_exc()))
    known = known_findings(prop)
    if found is None:
        for key, text in sorted(agg.known.items()):
            if key in known:
                print('KNOWN-FINDING: property=%s %s (%s)' % (prop, known[key], text))
            else:
                found = (-1, text, agg)
                break
    missing = [k for k, n in getattr(mod, 'NEED', {}).items()
               if agg.counters.get(k, len(agg.sets.get(k, ()))) < n] if found is None else []
    wall = time.time() - t0
    distinct = len({d for d, nt in agg.digests if nt})
    cov = dict(evaluations=len(agg.digests), distinct_nontrivial=distinct, rule=mod.RULE,
               cases=len(cases), observed=dict(sorted(agg.counters.items())),
               distinct_situations={k: len(v) for k, v in sorted(agg.sets.items())},
               situations={k: sorted(map(str, v))[:40] for k, v in sorted(agg.sets.items())},
               samples=agg.samples[:6], statistics=getattr(agg, 'report', {}))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
              violations=1 if found else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if verbose:
        print(json.dumps(cov, indent=1)[:3000])
        print('slowest', sorted(slow)[-3:], 'sum', round(sum(d for d, _ in slow), 1))
    if found:
        i, msg, _ = found
        case = cases[i] if i >= 0 else getattr(agg, 'case', None) or dict(all_cases=True, tier=tier, seed=seed)
        path = write_replay(prop, case, msg)
        print('violation:', msg[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    for i, v, msg in problems[:3]:
        print('%s in case %s: %s' % (v, i, msg[-3000:]), file=sys.stderr)
    if problems:
        return 2
    if missing:
        print('inconclusive: monitors were not reached often enough: %s' % missing, file=sys.stderr)
        return 2
    print('%s held: %d executions, %d distinct and non-trivial, %s; %.1f s' % (
        prop, len(agg.digests), distinct,
        ', '.join('%s %s' % (v, k) for k, v in sorted(agg.counters.items())), wall))
    return 0


def merge(recs):
    out = Rec()
    out.report = {}
    for r in recs:
        for k, n in r.counters.items():
            out.count(k, n)
        out.digests += r.digests
        if len(out.samples) < 6:
            out.samples += r.samples[:1]
        for k, v in r.sums.items():
            out.add(k, v)
        out.known.update(r.known)
        for k, v in r.sets.items():
            out.sets.setdefault(k, set()).update(v)
    return out
