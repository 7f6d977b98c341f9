"""Result files are never overwritten: every run leaves files of its own."""
import contextlib
import io
import json
import multiprocessing
import os
import random
import re
import threading
import time

import numpy as np

from ..core import Inconclusive
from ..files import contents, kind, listing, parse, scratch
from ..logged import close, logged

RULE = ('Series of very short runs of all writers of result files (three ensemble functions, shortest-path ensemble, '
        'single realization, parallel drivers) in one directory and one second: with the same and other classes, sides '
        'and thread numbers; with files lying under the names the next seconds will use; hundreds in a row; in several processes and '
        'threads at once. After every run the files which were there before have their contents (bytes), and the new '
        'ones are those of this run, complete, with the results logged by the realizations. Execution: one '
        'series; distinct by its results.')
ROUNDS = 4
NEED = dict(monitor_evaluations=1500, runs=400, files_of_one_second=150, names_taken_in_advance=60,
            concurrent_runs=150, simultaneous_series=10)
ASSUMPTIONS = ['./data exists']

WRITERS = ['one', 'threads', 'v2', 'sp', 'single']
NFILES = dict(one=2, threads=1, v2=2, sp=1, single=1)


def cases(tier, seed):
    rng = random.Random('C24/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 15
    out = []
    for i in range(56 * k):
        pool = [rng.choice(WRITERS)] if i % 2 else rng.sample(WRITERS, 3)
        calls = []
        for _ in range(rng.randrange(4, 11)):
            w = rng.choice(pool)
            calls.append([w, rng.choice(['L0', 'L1', 'L2'][:1 + i % 3]) if w != 'sp' else 'SP', rng.choice([3, 3, 3, 4]),
                          rng.choice([1, 1, 2]), rng.choice([0, 0, 0, 1])])
        out.append(dict(kind='series', calls=calls, taken=bool(i % 4 == 3), seed=rng.randrange(10 ** 9)))
    for i in range(12 * k):
        out.append(dict(kind='drivers', seed=rng.randrange(10 ** 9), workers=rng.choice([1, 2, 3]), n=rng.choice([3, 4, 6]),
                        which=[rng.choice(['v3', 'v4', 'sp']) for _ in range(3)]))
    for i in range(14 * k):
        out.append(dict(kind='processes', writer=WRITERS[i % 5], n=2, procs=rng.choice([3, 5, 8]), runs=6,
                        seed=rng.randrange(10 ** 9)))
    for i in range(6 * k):
        out.append(dict(kind='in_threads', writer=['threads', 'v2', 'one', 'sp', 'single'][i % 5], n=2, threads=4, runs=4,
                        seed=rng.randrange(10 ** 9)))
    for i in range(4 * k):
        # so many files of one second that any limit of attempts or digits is passed
        out.append(dict(kind='burst', writer=WRITERS[(i + seed) % 5], runs=rng.choice([130, 300]), seed=rng.randrange(10 ** 9)))
    return out


def call(writer, cls, L, n, th, log):
    from run_py import ensemble, shortest_path_run
    from run_py import rsbd_percolatioin_run as R
    c = logged(cls, log)
    with contextlib.redirect_stdout(io.StringIO()):
        if writer == 'one':
            ensemble.run_ensemble_entropy_order(c, L, n)
        elif writer == 'threads':
            ensemble.run_ensemble_entropy_order_threads(c, L, n, th)
        elif writer == 'v2':
            ensemble.run_ensemble_entropy_order_threads_v2(c, L, n, th)
        elif writer == 'sp':
            shortest_path_run.ensemble_shortest_path_v2_thread(c, L, n, th)
        else:
            R.single_realization(c, L)


STAMP = re.compile(r'\d{8}_\d{6}')


def facts(log):
    """what the files of a run must contain"""
    f = dict(order=[list(map(int, r['order'])) for r in log])
    if log[0]['data'] is not None:
        f['mean'] = (sum(r['data'] for r in log) / len(log)).tolist()
        f['critical'] = [[r['pc'], r['sites'], r['bonds']] for r in log]
    else:
        f['paths'] = [[r['pc'], r['p_star']] for r in log]
    return f


def holds(fname, f):
    """does the file hold the results of the run?"""
    k = kind(fname)
    if k == 'cross_check':
        return json.load(open('data/' + fname))['site_id_sequence'] == f['order'][0]
    head, t = parse('data/' + fname)
    want = f['mean'] if k == 'entropy_order' else f['critical'] if k == 'critical_values' else f['paths']
    return head['En'] == len(f['order']) and close(t, want)


def after(rec, before, f, writer, what):
    now = contents()
    for name, data in before.items():
        rec.check(name in now, 'a file of an earlier run is gone', file=name, writer=writer)
        rec.check(now[name] == data, 'a file which was there before was changed', file=name, writer=writer, **what)
    new = sorted(set(now) - set(before))
    rec.check(len(new) == NFILES[writer], 'a run did not leave files of its own', writer=writer, new=new,
              want=NFILES[writer], there=sorted(before)[:10], **what)
    for name in new:
        rec.check(holds(name, f), 'a result file does not hold the results of its run', file=name, writer=writer, **what)
    rec.count('runs')
    return new


def series(case, rec):
    stamps, orders = {}, []
    for i, (w, cls, L, n, th) in enumerate(case['calls']):
        before = contents()
        log = []
        call(w, cls, L, n, th, log)
        rec.check(len(log) == (n if w != 'single' else 1), 'another number of realizations was made', got=len(log))
        f = facts(log)
        orders.append(f['order'])
        new = after(rec, before, f, w, dict(number=i))
        for name in new:
            m = STAMP.search(name)
            key = (w, cls, L, th, kind(name), m.group() if m else '')
            stamps[key] = stamps.get(key, 0) + 1
            if case['taken'] and m and stamps[key] == 1:
                # somebody else's files under the names of the next seconds
                now = time.time()
                for dt in range(-1, 4):
                    p = 'data/' + STAMP.sub(time.strftime('%Y%m%d_%H%M%S', time.localtime(now + dt)), name)
                    if not os.path.exists(p):
                        with open(p, 'w') as fh:
                            fh.write('kept %s %d\n' % (name, dt))
                        rec.count('names_taken_in_advance')
    rec.count('files_of_one_second', sum(v for v in stamps.values() if v > 1))
    rec.execution(('series', orders))


def burst(case, rec):
    results, before = [], contents()
    align()
    for i in range(case['runs']):
        log = []
        call(case['writer'], 'SP' if case['writer'] == 'sp' else 'L0', 3, 1, 0, log)
        results.append(facts(log))
    names = sorted(set(listing()) - set(before), key=lambda x: (os.stat('data/' + x).st_mtime_ns, x))
    match(rec, results, case['writer'], names, before)
    stamps = {}
    for x in names:
        m = STAMP.search(x)
        if m:
            key = kind(x), m.group()
            stamps[key] = stamps.get(key, 0) + 1
            rec.count('files_of_one_second', stamps[key] > 1)
    rec.saw('most files of one kind in one second', max(stamps.values(), default=0) // 10 * 10)
    rec.execution(('burst', case['writer'], [f['order'] for f in results]))


def drivers(case, rec):
    from run_py import rsbd_percolatioin_run as R
    from run_py import shortest_path_run as S
    res = []
    for w in case['which'] + case['which']:
        before = contents()
        with contextlib.redirect_stdout(io.StringIO()):
            if w == 'v3':
                R.run_simulation_threads_v3(4, case['n'], case['workers'])
            elif w == 'v4':
                R.run_simulation_threads_v4(4, case['n'], case['workers'], interaction=1)
            else:
                S.run_simulation_shortest_path_threads(4, case['n'], thread=case['workers'])
        now = contents()
        for name, data in before.items():
            rec.check(now.get(name) == data, 'a file which was there before was changed', file=name, driver=w)
        new = sorted(set(now) - set(before))
        total = {}
        for name in new:
            head, t = parse('data/' + name)
            total[kind(name)] = total.get(kind(name), 0) + head['En']
            res.append(t.tolist())
        kinds = {'shortest_path_p'} if w == 'sp' else {'entropy_order', 'critical_values'}
        rec.check(total == {k: case['n'] for k in kinds}, 'files of a driver are missing', driver=w, got=total,
                  new=new, want=case['n'])
        rec.count('runs')
    rec.execution(('drivers', res))


def align():
    """to the beginning of a second, so that the following runs fall into one"""
    t = time.time()
    time.sleep(max(0, 1.01 - t % 1) if t % 1 > .4 else 0)


def _child(writer, n, runs, go, q, seed):
    out = []
    try:
        go.wait(30)
        for i in range(runs):
            log = []
            call(writer, 'SP' if writer == 'sp' else 'L0', 3, n, 0, log)
            out.append(facts(log))
        q.put(('ok', out))
    except BaseException as e:
        q.put(('failed', repr(e)))


def match(rec, results, writer, names, before):
    """every file of every run is there, once"""
    rec.check(len(names) == len(results) * NFILES[writer], 'simultaneous runs lost result files', writer=writer,
              files=len(names), want=len(results) * NFILES[writer])
    for knd in sorted({kind(x) for x in names}):
        mine = [x for x in names if kind(x) == knd]
        todo = list(results)
        for name in mine:
            hit = [f for f in todo if holds(name, f)]
            rec.check(bool(hit), 'a result file holds the results of no run, or of a run which has another file', file=name,
                      writer=writer)
            todo.remove(hit[0])
        rec.check(not todo, 'a run has no file of its results', kind=knd, missing=len(todo))
    for name, data in before.items():
        rec.check(open('data/' + name, 'rb').read() == data, 'a file which was there before was changed', file=name)


def processes(case, rec):
    ctx = multiprocessing.get_context('fork')
    log = []
    call(case['writer'], 'SP' if case['writer'] == 'sp' else 'L0', 3, case['n'], 0, log)
    before = contents()
    go, q = ctx.Event(), ctx.Queue()
    ps = [ctx.Process(target=_child, args=(case['writer'], case['n'], case['runs'], go, q, case['seed'] + i))
          for i in range(case['procs'])]
    for p in ps:
        p.start()
    align()
    go.set()
    results = []
    try:
        for p in ps:
            try:
                ok, out = q.get(timeout=60)
            except Exception:
                raise Inconclusive('a process of the workload gave no result')
            rec.check(ok == 'ok', 'a simultaneous run failed', writer=case['writer'], error=out)
            results += out
    finally:
        for p in ps:
            p.join(5)
            if p.is_alive():
                p.kill()
    names = sorted(set(listing()) - set(before))
    match(rec, results, case['writer'], names, before)
    rec.count('concurrent_runs', len(results))
    rec.count('simultaneous_series')
    stamps = [STAMP.search(x).group() for x in names if STAMP.search(x)]
    rec.count('files_of_one_second', len(stamps) - len(set(stamps)))
    rec.execution(('processes', case['writer'], [f['order'] for f in results]))


def in_threads(case, rec):
    import sys
    before, results, errors = contents(), [], []
    bar = threading.Barrier(case['threads'])

    def go():
        try:
            bar.wait()
            for i in range(case['runs']):
                log = []
                call_quiet(log)
                results.append(facts(log))
        except BaseException as e:
            errors.append(repr(e))

    def call_quiet(log):
        from run_py import ensemble, shortest_path_run
        from run_py import rsbd_percolatioin_run as R
        w, n = case['writer'], case['n']
        c = logged('SP' if w == 'sp' else 'L0', log)
        {'one': lambda: ensemble.run_ensemble_entropy_order(c, 3, n),
         'threads': lambda: ensemble.run_ensemble_entropy_order_threads(c, 3, n, 0),
         'v2': lambda: ensemble.run_ensemble_entropy_order_threads_v2(c, 3, n, 0),
         'sp': lambda: shortest_path_run.ensemble_shortest_path_v2_thread(c, 3, n, 0),
         'single': lambda: R.single_realization(c, 3)}[w]()
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    align()
    try:
        ts = [threading.Thread(target=go, daemon=True) for _ in range(case['threads'])]
        with contextlib.redirect_stdout(io.StringIO()):
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise Inconclusive('a thread of the workload did not end')
    rec.check(not errors, 'a simultaneous run failed', writer=case['writer'], errors=errors)
    match(rec, results, case['writer'], listing(), before)
    rec.count('concurrent_runs', len(results))
    rec.count('simultaneous_series')
    rec.execution(('threads', case['writer'], [f['order'] for f in results]))


def run(case, rec):
    with scratch():
        with open('data/notes.txt', 'w') as f:
            f.write('mine')
        before = contents()
        if case['kind'] == 'in_threads':
            os.unlink('data/notes.txt')
            return in_threads(case, rec)
        globals()[case['kind']](case, rec)
        rec.check(contents()['notes.txt'] == before['notes.txt'], 'a foreign file was changed')
    rec.sample(case)
