"""Programs and modules start clean and give a true account at their end."""
import contextlib
import datetime
import importlib
import inspect
import io
import json
import os
import random
import re
import subprocess
import sys

import numpy as np

from .. import core
from ..core import Inconclusive
from ..files import kind, listing, parse, scratch
from ..start import MODULES
from ..sut import classes

LEVEL = 'runtime_monitoring'
RULE = ('(1) All modules imported in random orders in fresh interpreters, with an audit hook on files, processes, and the state of '
        'generators, environment, logging, signals, threads compared before and after. (2) main.py run in fresh interpreters as it '
        'is, and with its ensemble replaced by others (driver, model, side, realizations, workers), with the clock running up to '
        '20000 times faster and faults in workers: files, log, exit status and elapsed time compared with the recorded calls. (3) '
        'The fixed examples run twice after different use of the generator. (4) The built-in demonstrations. (5) The printed '
        'duration of thousands of times. Execution: one process or call; distinct by order, call, fault or time.')
ROUNDS = 2
NEED = dict(monitor_evaluations=3000, programs=20, programs_with_fault=5, long_programs=5, imports=15, demonstrations=6, durations=2000,
            log_lines=150, examples=2)
ASSUMPTIONS = ['./data and ./logs exist, as for every run of the program']
SIGNATURE = dict(L0='SitePercolationL0', L1='SitePercolationL1', L2='SitePercolationL2')


def cases(tier, seed):
    rng = random.Random('C37/%s/%s' % (seed, tier))
    rep = 1 if tier == 'quick' else 10
    out = []
    for r in range(rep):
        for i in range(10):
            m = MODULES[:]
            rng.shuffle(m)
            out.append(dict(kind='imports', modules=m if i else [m[0]], rng=rng.randrange(10 ** 9)))
        out.append(dict(kind='program', instead=None, scale=1, faults=[]))
        for i in range(16):
            w = rng.choice([1, 1, 2, 3, 4])
            d, args = rng.choice([('run_simulation_threads_v3', {}), ('run_simulation_threads_v4', dict(interaction=0)),
                                  ('run_simulation_threads_v4', dict(interaction=1)), ('run_simulation_threads_v4', dict(interaction=2)),
                                  ('run_simulation_shortest_path_threads', {})])
            n = w * rng.choice([1, 3, 5]) + rng.choice([0, 0, 1, 2])
            args = dict(args, length=rng.choice([3, 4, 5, 8]), ensemble_count=n, thread=w)
            faults = []
            if i % 3 == 2:
                faults = [[rng.randrange(min(w, n)), rng.choice(['raise', 'exit', 'kill', 'memory', 'assert']),
                           rng.choice(['init', 'reset', 'run_once', 'read']), 1]]
            out.append(dict(kind='program', instead=[d, args], scale=rng.choice([1, 1, 60, 500, 3000, 20000]), faults=faults))
        out.append(dict(kind='examples', rng=rng.randrange(10 ** 9)))
        out.append(dict(kind='demonstrations'))
        for i in range(4):
            out.append(dict(kind='durations', n=400, rng=rng.randrange(10 ** 9)))
    rng.shuffle(out)
    return out


def start(spec, timeout=300):
    env = dict(os.environ, VERIF_REPO=core.REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    try:
        return subprocess.run([sys.executable, os.path.join(core.VERIF, 'vf', 'start.py')], input=json.dumps(spec),
                              capture_output=True, text=True, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Inconclusive('no answer of a program')


def imports(case, rec):
    r = start(dict(what='imports', modules=case['modules'], rng=case['rng']))
    if r.returncode != 0:
        raise core.HarnessError(r.stderr[-2000:])
    out = json.loads(r.stdout)
    rec.check(out['failed'] is None, 'a module cannot be imported', error=out['failed'])
    rec.check(not out['events'], 'importing the package acts on files or processes', events=out['events'][:4], order=case['modules'][:4])
    rec.check(not out['changed'], 'importing the package changes the state of the program', changed=out['changed'])
    rec.count('imports')
    rec.execution(('imports', case['modules']))


def seconds(text):
    """all durations reported in a text"""
    out = []
    for line in text.splitlines():
        if 'elapsed' not in line or 'Iteration' in line:
            continue
        a = re.search(r'(-?\d+)\s*h\w*\W+(-?\d+)\s*m\w*\W+(-?[\d.]+(?:e[-+]?\d+)?)\s*s', line)
        b = re.search(r'(-?[\d.]+(?:e[-+]?\d+)?)\s*s', line)
        if a:
            out.append((int(a[1]), int(a[2]), float(a[3])))
        elif b:
            out.append((0, 0, float(b[1])))
    return out


def program(case, rec):
    before = datetime.datetime.now()
    r = start(dict(what='program', instead=case['instead'], scale=case['scale'], faults=case['faults']))
    after = datetime.datetime.now()
    if not os.path.exists('report.json'):
        raise core.HarnessError('no report: ' + r.stderr[-2000:])
    report = json.load(open('report.json'))
    log = ''.join(open(os.path.join('logs', f)).read() for f in sorted(os.listdir('logs')))
    text = log + r.stdout + r.stderr
    what = dict(calls=report['calls'], faults=case['faults'], status=r.returncode)
    good = [line for line in text.splitlines() if 'No errors' in line]
    if case['faults'] and report['hits']:
        rec.check(r.returncode != 0, 'a worker failed, and the program ends with success', stderr=r.stderr[-200:], **what)
        rec.check(not good, 'a worker failed, and the program reports no errors', **what)
        rec.count('programs_with_fault')
    else:
        rec.check(r.returncode == 0, 'the program fails', stderr=r.stderr[-600:], **what)
        rec.check(len(good) == 1, 'the program does not report once that there were no errors', got=len(good), **what)
        total, workers = {}, {}
        for f in listing():
            head, t = parse(os.path.join('data', f))
            k = kind(f)
            total[k] = total.get(k, 0) + head['En']
            rec.check(t.shape[0] == (head['L'] ** 2 if k == 'entropy_order' else head['En']), 'a file is not complete', file=f)
        want, logged, classes_ = {}, 0, set()
        for c in report['calls']:
            a = c['args']
            sp = 'shortest' in c['name']
            for k in ('shortest_path_p',) if sp else ('entropy_order', 'critical_values'):
                want[k] = want.get(k, 0) + a['ensemble_count']
            if not sp:
                logged += a['ensemble_count']
                n, w = a['ensemble_count'], a['thread']
                for i in range(w):
                    workers[i] = workers.get(i, 0) + n // w + (i < n % w)
        rec.check(total == want, 'the files left by the program do not hold the realizations asked for', got=total, want=want, **what)
        got = {}
        for line in log.splitlines():
            m = re.search(r'Iteration.*thread\s+(\d+)', line)
            if m:
                got[int(m[1])] = got.get(int(m[1]), 0) + 1
        workers = {k: v for k, v in workers.items() if v}
        rec.check(sum(got.values()) == logged, 'the log does not have one line per realization', got=got, want=workers, **what)
        rec.count('log_lines', logged)
        rec.check(len(os.listdir('logs')) == 1, 'the program does not leave its log', logs=os.listdir('logs'))
        spans = seconds(text)
        rec.check(len(spans) == 1, 'the program does not report the time spent once', got=spans, tail=text[-300:])
        h, m, s = spans[0]
        t = h * 3600 + m * 60 + s
        # (the clock the program uses runs faster; one that is not among those made faster is as good)
        spent = [(sum(c[pre + 'end'] - c[pre + 'begin'] for c in report['calls']), report[pre + 'end'] - report[pre + 'begin'])
                 for pre in ('', 'real_')]
        least, most = spent[0]
        rec.check(any(a - 1e-3 <= t <= b + 1e-3 for a, b in spent) and 0 <= m < 60 and h >= 0 and (s <= 60 or (h, m) == (0, 0) and s < 60.1),
                  'the time reported is not the time spent', got=spans[0], between=(least, most))
        rec.count('long_programs', t >= 10)
        rec.saw('duration', (h > 0, m > 0, t >= 10))
        when = re.findall(r'Current Time\s+(\d{4}\.\d\d\.\d\d \d\d:\d\d:\d\d)', text)
        rec.check(len(when) == 1, 'the program does not report once when it ended', got=when)
        at = datetime.datetime.strptime(when[0], '%Y.%m.%d %H:%M:%S')
        if (after - before).total_seconds() < 3000:
            two = datetime.timedelta(seconds=2)
            rec.check(before - two <= at <= after + two, 'the date reported is wrong', got=when, between=(str(before), str(after)))
    rec.count('programs')
    rec.saw('driver', report['calls'][0]['name'] if report['calls'] else None)
    rec.execution(('program', case['instead'], case['scale'], case['faults'], bool(report['hits'])))


def examples(case, rec):
    from run_py import rsbd_percolatioin_run as R
    from run_py import shortest_path_run as S
    seen = []
    cls = classes()['SP']
    own = 'run_once' in cls.__dict__
    old = cls.run_once

    def run_once(self, *a, **kw):
        seen.append(self)
        return old(self, *a, **kw)
    tables, printed = [], []
    cls.run_once = run_once
    try:
        for i in range(2):
            random.seed(case['rng'] + i)
            [random.random() for _ in range(i * 17)]
            with scratch():
                b = io.StringIO()
                with contextlib.redirect_stdout(b):
                    R.run_simulations()
                tables.append([])
                for f in listing():
                    head, t = parse(os.path.join('data', f))
                    tables[-1].append((kind(f), head['En'], head['L'], t.tolist()))
                    rec.check(t.shape[0] == (head['L'] ** 2 if kind(f) == 'entropy_order' else head['En']), 'a file is not complete', file=f)
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                S.run_shortest_path()
            printed.append(b.getvalue())
            numbers = re.findall(r'\d+\.\d+(?:e-\d+)?', printed[-1].strip().splitlines()[-1])
            rec.check(len(seen) == i + 1 and numbers and float(numbers[-1]) == float(seen[-1].get_shortest_path_p()),
                      'the example prints another p* than that of its object', got=numbers, want=seen and seen[-1].get_shortest_path_p())
            rec.count('examples', 2)
    finally:
        if own:
            cls.run_once = old
        else:
            del cls.run_once
    rec.check(tables[0] and sorted(tables[0]) == sorted(tables[1]), 'the example with a fixed seed gives other results the second time')
    rec.check(printed[0] == printed[1], 'the example with a fixed seed prints other results the second time')
    rec.execution(('examples', case['rng']))


@contextlib.contextmanager
def small_sides():
    """large sides of the demonstrations are cut down"""
    from source_py.simulation import percolation_sq_lattice
    base = percolation_sq_lattice.Percolation
    old = base.__init__

    def init(self, *a, **kw):
        if isinstance(kw.get('length'), int):
            kw['length'] = min(kw['length'], 9)
        old(self, *a, **kw)
    base.__init__ = init
    try:
        yield
    finally:
        base.__init__ = old


def demonstrations(case, rec):
    with small_sides():
        show(rec)


def show(rec):
    n = 0
    for name in MODULES:
        mod = importlib.import_module(name)
        for f, fun in sorted(vars(mod).items()):
            if not inspect.isfunction(fun) or fun.__module__ != name or 'arguments' in name:
                continue
            if not (f.startswith(('test_', 'mTest')) or f == 'print_hi'):
                continue
            free = [q for q in inspect.signature(fun).parameters.values() if q.default is q.empty]
            if len(free) > 1:
                continue
            b = io.StringIO()
            with contextlib.redirect_stdout(b):
                fun(*[7 for q in free])
            rec.check(len(b.getvalue()) > 0, 'a demonstration shows nothing', name=name, function=f)
            rec.saw('demonstration', name.split('.')[-1] + '.' + f)
            n += 1
    rec.count('demonstrations', n)
    rec.execution(('demonstrations', n))


def durations(case, rec):
    import main
    rng = random.Random(case['rng'])
    for i in range(case['n']):
        t = rng.choice([lambda: rng.uniform(0, 10), lambda: rng.uniform(0, 7200), lambda: rng.uniform(0, 4e5), lambda: rng.randrange(10 ** 6),
                        lambda: 60 * rng.randrange(5000), lambda: 3600 * rng.randrange(500),
                        lambda: 60 * rng.randrange(1, 5000) + rng.choice([-1, 1]) * 10 ** -rng.uniform(0, 9),
                        lambda: 3600 * rng.randrange(1, 500) + rng.choice([-1, 1]) * 10 ** -rng.uniform(0, 9),
                        lambda: np.float64(rng.uniform(0, 1e5))])()
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            main.print_duration(t)
        got = seconds(b.getvalue())
        rec.check(len(got) == 1, 'a duration is not printed', time=t, text=b.getvalue())
        h, m, s = got[0]
        rec.check(h >= 0 and 0 <= m < 60 and 0 <= s <= 60, 'minutes or seconds of a duration are not below 60', time=t, text=b.getvalue())
        rec.check(abs(h * 3600 + m * 60 + s - t) <= 1e-4, 'the duration printed is another one', time=t, text=b.getvalue())
        rec.count('durations')
    rec.execution(('durations', case['rng']))


def run(case, rec):
    random.seed(case['rng'])
    with scratch():
        globals()[case['kind']](case, rec)
    rec.sample({k: case[k] for k in case if k != 'modules'})
