"""Parallel drivers: exactly the requested realizations, of the requested model, shared among the workers."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import core
from ..core import Inconclusive
from ..files import kind, listing, parse, scratch
from ..sut import classes

RULE = ('The parallel drivers are run with real processes on small sides, for all splits of 1..24 realizations over '
        '1..8 workers (divisible or not, fewer realizations than workers), all interactions; the start methods fork '
        'and spawn; the program main.py; the thread drivers with recording stand-ins for the ensemble function. From '
        'the files: realizations over all workers add up to the request, one pair of files per worker with its number, '
        'class as requested, no two workers with the same results, averages of every worker consistent with complete '
        'realizations. Execution: one driver call; distinct by driver, split and results.')
ROUNDS = 3
NEED = dict(monitor_evaluations=800, driver_runs=60, workers_seen=150, uneven_splits=15)
ASSUMPTIONS = ['./data (and ./logs for main.py) exist', 'at least one realization and one worker']

CLASS = {0: 'SitePercolationL0_', 1: 'SitePercolationL1_', 2: 'SitePercolationL2_'}


def cases(tier, seed):
    rng = random.Random('C22/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 12
    out = []
    splits = [(n, w) for n in (1, 2, 3, 5, 6, 7, 8, 9, 12, 13, 24) for w in (1, 2, 3, 4, 5, 8)]
    for r in range(k):
        rng.shuffle(splits)
        for i, (n, w) in enumerate(splits):
            d = ['v4', 'v4', 'v4', 'v3'][i % 4]
            out.append(dict(kind='driver', driver=d, L=rng.choice([6, 7, 8]), n=n, workers=w,
                            interaction=rng.choice([0, 1, 2, None]) if d == 'v4' else 0, seed=rng.randrange(10 ** 9)))
        for i in (0, 1, 2, None):       # every model with every number of workers
            for w in (1, 2, 3, 4, 6):
                out.append(dict(kind='driver', driver='v4', L=rng.choice([6, 7]), n=rng.choice([w, 2 * w, 2 * w + 1]), workers=w,
                                interaction=i, seed=rng.randrange(10 ** 9)))
    out.append(dict(kind='driver', driver='v4', L=6, n=23, workers=11, interaction=1, seed=3))
    out.append(dict(kind='driver', driver='v4', L=6, n=40, workers=13, interaction=2, seed=4))
    out.append(dict(kind='driver', driver='v4', L=9, n=70, workers=67, interaction=0, seed=4))
    out.append(dict(kind='driver', driver='v3', L=9, n=34, workers=33, interaction=0, seed=4))
    out.append(dict(kind='driver', driver='v3', L=6, n=101, workers=4, interaction=0, seed=4))
    out.append(dict(kind='driver', driver='v4', L=16, n=5, workers=3, interaction=1, seed=4))
    out.append(dict(kind="spawn", L=7, n=7, workers=3, interaction=1))
    out.append(dict(kind='main'))
    out.append(dict(kind='threads'))
    return out


def check_files(rec, L, n, workers, interaction):
    N = L * L
    names = listing()
    by_kind = {}
    for f in names:
        by_kind.setdefault(kind(f), []).append(f)
    used = min(n, workers)
    rec.check(set(by_kind) == {'entropy_order', 'critical_values'}, 'unexpected files', got=names)
    tables = []
    for knd, fs in by_kind.items():
        total, seen = 0, set()
        for f in fs:
            head, t = parse('data/' + f)
            if knd == 'critical_values' and t.shape[0] != head['En']:
                rec.violation('number of rows is not the number of realizations in the header', file=f, rows=t.shape)
            total += head['En']
            rec.check(head['En'] >= 1 and head['L'] == L, 'header is wrong', file=f, got=head)
            rec.check(f.startswith(CLASS[interaction or 0]), 'the workers ran another model than requested', file=f,
                      interaction=interaction)
            num = f.rsplit('_th', 1)[1].split('.')[0].split('_')[0]
            rec.check(num not in seen, 'two files of one worker', files=fs)
            seen.add(num)
            rec.count('workers_seen')
            if knd == 'entropy_order':
                rec.check(t.shape == (N, 4), 'table of a worker has a wrong shape', got=t.shape, file=f)
                rec.check(bool(np.allclose(t[:, 0], (np.arange(N) + 1) / N, atol=1e-9)), 'first column is not k/N', file=f)
                rec.check(abs(t[-1, 1]) < 1e-8 and np.allclose(t[-1, 2:], 1, atol=1e-9), 'last row of a worker is not '
                          'that of full lattices', got=t[-1].tolist(), file=f)
                rec.check(bool((np.diff(t[:, 2]) >= -1e-9).all() and (np.diff(t[:, 3]) >= -1e-9).all() and
                               (np.diff(t[:, 1]) <= 1e-8).all() and (t[:, 2] >= t[:, 3] - 1e-9).all()),
                          'curves of a worker are not monotonic', file=f)
                tables.append((f, t[:, 1].tolist()))
            else:
                rec.check(t.shape[1] == 3 and bool((t[:, 0] > 0).all() and (t[:, 0] <= 1).all()), 'critical values are '
                          'not in range', file=f)
        rec.check(total == n, 'the workers together made another number of realizations', kind=knd, got=total, want=n,
                  files=fs)
        rec.check(len(fs) == used, 'there is not one file per worker', kind=knd, got=len(fs), want=used)
        rec.check(seen == {str(i) for i in range(used)}, 'numbers of the workers are wrong', got=sorted(seen))
    for i, (f, a) in enumerate(tables):
        for g, b in tables[:i]:
            rec.check(a != b, 'two workers have the same results: their random numbers are not independent', files=(f, g))
    return [t for _, t in tables]


def run(case, rec):
    with scratch() as d:
        if case['kind'] == 'threads':
            return threads(rec)
        if case['kind'] in ('main', 'spawn'):
            return programs(case, rec, d)
        from run_py import rsbd_percolatioin_run as R
        random.seed(case['seed'])
        n, w = case['n'], case['workers']
        if case['driver'] == 'v3':
            R.run_simulation_threads_v3(case['L'], n, w)
        elif case['interaction'] is None:
            R.run_simulation_threads_v4(case['L'], n, w)
        else:
            R.run_simulation_threads_v4(case['L'], n, w, interaction=case['interaction'])
        res = check_files(rec, case['L'], n, w, case['interaction'])
    rec.count('driver_runs')
    if n % w:
        rec.count('uneven_splits')
    rec.saw('split', (n, w))
    rec.saw('interaction', '%s/%s' % (case['driver'], case['interaction']))
    rec.execution((case['driver'], case['interaction'], n, w, res))
    rec.sample(case)


SPAWN = '''
import sys, multiprocessing
sys.path.insert(0, %r)
sys.dont_write_bytecode = True
if __name__ == '__main__':
    multiprocessing.set_start_method('spawn')
    from run_py.rsbd_percolatioin_run import run_simulation_threads_v4
    run_simulation_threads_v4(%d, %d, %d, interaction=%d)
'''


def programs(case, rec, d):
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    if case['kind'] == 'spawn':
        with open('prog.py', 'w') as f:
            f.write(SPAWN % (core.REPO, case['L'], case['n'], case['workers'], case['interaction']))
        cmd = [sys.executable, 'prog.py']
    else:
        cmd = [sys.executable, os.path.join(core.REPO, 'main.py')]
    try:
        r = subprocess.run(cmd, env=env, capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired:
        rec.count('programs_out_of_time')
        return
    if r.returncode:
        rec.violation('the program fails', program=case['kind'], error=(r.stdout + r.stderr)[-1200:])
    if case['kind'] == 'spawn':
        check_files(rec, case['L'], case['n'], case['workers'], case['interaction'])
    else:
        # the configured run: whatever it is, its files must be consistent with each other
        names = listing()
        heads = [(f, parse('data/' + f)) for f in names]
        rec.check(len(names) > 0, 'main.py wrote nothing')
        for f, (h, t) in heads:
            if kind(f) == 'critical_values':
                rec.check(len(t) == h['En'], 'number of rows is not the number of realizations', file=f)
                pair = [h2 for g, (h2, _) in heads if g == f.replace('critical_values', 'entropy_order')]
                rec.check(len(pair) == 1 and pair[0]['En'] == h['En'], 'a worker of main.py has no pair of files', file=f)
    rec.count('programs')
    rec.execution((case['kind'], listing()))


def threads(rec):
    """the older drivers over threads, with a stand-in for the ensemble function"""
    from run_py import ensemble
    from run_py import rsbd_percolatioin_run as R
    calls = []
    old = ensemble.run_ensemble_entropy_order_threads

    def stand_in(percolationClass, length, ensembleSize, thread_count=0, **kw):
        o = percolationClass(length=4)
        o.reset()
        o.run_once()
        calls.append((type(o).__name__, length, ensembleSize, thread_count, o.occupation_prob()))
    ensemble.run_ensemble_entropy_order_threads = stand_in
    import threading
    errors = []
    hook = threading.excepthook
    threading.excepthook = lambda a: errors.append(repr(a.exc_value))
    try:
        for f, sizes in ((R.run_simulation_threads, None), (R.run_simulation_threads_v2, 1000)):
            calls.clear()
            f()
            rec.check(not errors, 'a thread of the driver failed', driver=f.__name__, errors=errors)
            rec.check(len(calls) >= 2, 'the threads of the driver did not run', driver=f.__name__, calls=calls)
            rec.check(len({c[3] for c in calls}) == len(calls), 'two threads have one number', calls=calls)
            rec.check(all(c[4] == 1.0 for c in calls), 'a thread did not make a complete realization')
            if sizes:
                rec.check(sum(c[2] for c in calls) == sizes, 'the threads together make another number of '
                          'realizations', calls=calls, want=sizes)
            rec.count('driver_runs')
            rec.execution((f.__name__, sorted(calls)))
    finally:
        ensemble.run_ensemble_entropy_order_threads = old
        threading.excepthook = hook
