"""A failed worker or a failed write is reported: returning normally means that all the results are on disk."""
import contextlib
import io
import json
import multiprocessing
import os
import random
import resource
import signal
import subprocess
import sys
import time

import numpy as np

from .. import core
from ..core import Inconclusive
from ..files import kind, listing, parse, scratch
from ..sut import classes

LEVEL = 'fault_enumeration'
RULE = ('The process drivers are run with one or two faults: in the k-th worker (all k), at its first, middle or last '
        'realization, at construction, reset, run, reading of results or writing of files; by exceptions of several '
        'kinds, exit status, kill, abort, segmentation fault, a disk full for this worker only; and with ./data missing, being a file or a dangling link, '
        'or a limit of file size (at the first byte, halfway, between the sizes of the files, at the last byte). The driver must raise, the files of the workers without fault must be complete; '
        'without fault it must return and everything must be there, also if a worker is so slow '
        'that every wait of limited time ends before it. The ensemble functions alone get the faults of '
        'writing, main.py a missing directory. Execution: one call with its fault; distinct by driver, fault, '
        'place and files left.')
ROUNDS = 3
NEED = dict(monitor_evaluations=600, faults_reported=150, faults_hit_in_worker=120, calls_without_fault=15,
            signals=25, exceptions=60, write_faults=30, full_disk_of_one_worker=8, slow_workers=8)
ASSUMPTIONS = ['a worker which fails does not exit with status 0']

KINDS = ['raise', 'memory', 'assert', 'exit', 'sysexit', 'kill', 'term', 'abort', 'segv', 'keyboard', 'full']
POINTS = ['init', 'reset', 'run_once', 'read']
PLACES = ['one', 'half', 'between', 'last', 'enough']
DRIVERS = [('v3', 0), ('v4', 0), ('v4', 1), ('v4', 2), ('sp', None)]


def cases(tier, seed):
    rng = random.Random('C25/%s/%s' % (seed, tier))
    rep = 1 if tier == 'quick' else 12
    out = []
    for r in range(rep):
        grid = [(d, w, k) for d in DRIVERS for w in (1, 2, 3, 4, 6) for k in range(w)]
        rng.shuffle(grid)
        for i, (d, w, k) in enumerate(grid):
            for j in range(2):
                out.append(dict(kind='worker', driver=d[0], interaction=d[1], workers=w, n=w * 3 + rng.choice([0, 0, 1]),
                                faults=[[k, KINDS[(2 * i + j + r) % len(KINDS)], POINTS[(i + j + r) % len(POINTS)],
                                         rng.choice([1, 2, 3])]], L=rng.choice([4, 5])))
        for i in range(10):
            d, w = rng.choice(DRIVERS), rng.choice([3, 4, 5])
            a, b = rng.sample(range(w), 2)
            out.append(dict(kind='worker', driver=d[0], interaction=d[1], workers=w, n=3 * w, L=4, faults=[
                [a, rng.choice(KINDS), rng.choice(POINTS), 1], [b, rng.choice(KINDS), rng.choice(POINTS), rng.choice([1, 2])]]))
        for d in DRIVERS:
            for w in (1, 3, 4):
                out.append(dict(kind='worker', driver=d[0], interaction=d[1], workers=w, n=2 * w + 1, L=4, faults=[]))
            for how in ('missing', 'file', 'dangling', 'limit'):
                out.append(dict(kind='disk', driver=d[0], interaction=d[1], workers=rng.choice([1, 2, 3]), n=4, L=4, how=how))
            for where in PLACES:
                w = rng.choice([1, 2, 3])
                out.append(dict(kind='sizes', driver=d[0], interaction=d[1], workers=w, n=rng.choice([2, 40]) * w, L=rng.choice([3, 4]),
                                where=where))
        for f in ('one', 'threads', 'v2', 'path', 'single'):
            for how in ('missing', 'file', 'dangling', 'limit'):
                out.append(dict(kind='disk', driver=f, interaction=None, workers=1, n=2, L=4, how=how))
            for where in PLACES:
                for n in (2, 40):       # the one or the other file is the larger one
                    out.append(dict(kind='sizes', driver=f, interaction=None, workers=1, n=n, L=4, where=where))
    for r in range(2 if tier == 'quick' else 30):
        for d in DRIVERS:
            w = rng.choice([1, 2, 3, 4])
            out.append(dict(kind='slow', driver=d[0], interaction=d[1], workers=w, n=w * 3 + rng.choice([0, 0, 1]), L=4,
                            slow=[rng.randrange(w), rng.choice(POINTS), rng.choice([1, 2])]))
    for c in out:
        for f in c.get('faults', ()):
            if f[1] == 'full' and f[2] == 'read':
                f[2] = 'run_once'       # well before the files are written
    out.append(dict(kind='main'))
    rng.shuffle(out)
    return out


def call(case):
    from run_py import ensemble
    from run_py import rsbd_percolatioin_run as R
    from run_py import shortest_path_run as S
    L, n, w = case['L'], case['n'], case['workers']
    d = case['driver']
    c = classes()
    if d == 'v3':
        R.run_simulation_threads_v3(L, n, w)
    elif d == 'v4':
        R.run_simulation_threads_v4(L, n, w, interaction=case['interaction'])
    elif d == 'sp':
        S.run_simulation_shortest_path_threads(L, n, thread=w)
    elif d == 'one':
        ensemble.run_ensemble_entropy_order(c['L0'], L, n)
    elif d == 'threads':
        ensemble.run_ensemble_entropy_order_threads(c['L0'], L, n, 0)
    elif d == 'v2':
        ensemble.run_ensemble_entropy_order_threads_v2(c['L1'], L, n, 0)
    elif d == 'path':
        S.ensemble_shortest_path_v2_thread(c['SP'], L, n, 0)
    else:
        R.single_realization(c['L0'], L)


def strike(how):
    if how == 'raise':
        raise ValueError('injected')
    if how == 'memory':
        raise MemoryError('injected')
    if how == 'assert':
        raise AssertionError('injected')
    if how == 'keyboard':
        raise KeyboardInterrupt
    if how == 'sysexit':
        raise SystemExit(2)
    if how == 'exit':
        os._exit(3)
    if how == 'full':
        # from now on this worker alone cannot write more than this
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        n = random.choice([1, 60])
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
        return
    os.kill(os.getpid(), dict(kill=signal.SIGKILL, term=signal.SIGTERM, abort=signal.SIGABRT, segv=signal.SIGSEGV)[how])
    signal.pause()


class Injector:
    """Wraps the simulation classes; workers inherit it. The ordinal of a worker is its order of arrival."""

    def __init__(self, faults):
        ctx = multiprocessing.get_context('fork')
        self.lock = ctx.Lock()
        self.pids = ctx.Array('q', 64, lock=False)
        self.hits = ctx.Value('i', 0)
        self.faults = faults
        self.parent = os.getpid()
        self.counts = {}
        self.undo = []
        self.mine = None

    def ordinal(self):
        pid = os.getpid()
        if self.mine is None or self.mine[0] != pid:
            with self.lock:
                i = 0
                while self.pids[i] not in (0, pid):
                    i += 1
                self.pids[i] = pid
            self.mine = (pid, i)
            self.counts = {}
        return self.mine[1]

    def at(self, point):
        if os.getpid() == self.parent:
            return
        k = self.ordinal()
        self.counts[point] = self.counts.get(point, 0) + 1
        for who, how, where, when in self.faults:
            if who == k and where == point and (self.counts[point] == when or point == 'init'):
                with self.lock:
                    self.hits.value += 1
                strike(how)

    def __enter__(self):
        from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
        c = classes()
        for name in ('L0', 'L1', 'L2', 'SP'):
            for meth, point in (('__init__', 'init'), ('reset', 'reset'), ('run_once', 'run_once'), ('get_pc', 'read')):
                self.wrap(c[name], meth, point)
        return self

    def wrap(self, cls, meth, point):
        own = meth in cls.__dict__
        old = getattr(cls, meth)
        inj = self

        def new(self, *a, **kw):
            r = old(self, *a, **kw)
            inj.at(point)
            return r
        setattr(cls, meth, new)
        self.undo.append((cls, meth, own, old))

    def __exit__(self, *a):
        for cls, meth, own, old in self.undo:
            if own:
                setattr(cls, meth, old)
            else:
                delattr(cls, meth)


def complete_files(rec, case, broken=0):
    """-> realizations by kind; every file must be complete, but this many"""
    N = case['L'] ** 2
    total, count = {}, {}
    for f in listing():
        k = kind(f)
        try:
            head, t = parse('data/' + f)
            if t.shape[0] != (N if k == 'entropy_order' else head['En']) and broken:
                raise ValueError
        except Exception as e:
            if broken:
                broken -= 1
                continue
            rec.violation('an incomplete result file was left behind by a run whose files could be written', file=f,
                          error=repr(e))
        want = N if k == 'entropy_order' else head['En']
        rec.check(t.shape[0] == want, 'a result file is not complete', file=f, rows=t.shape, want=want)
        total[k] = total.get(k, 0) + head['En']
        count[k] = count.get(k, 0) + 1
    return total, count


def attempt(case):
    """-> the exception, or None"""
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            call(case)
        except Exception as e:
            return e
    return None


def worker(case, rec):
    used = min(case['workers'], case['n'])
    with Injector(case['faults']) as inj:
        # wrapped signal dispositions of the harness must not be inherited
        e = attempt(case)
        hits = inj.hits.value
    kinds = ['shortest_path_p'] if case['driver'] == 'sp' else ['entropy_order', 'critical_values']
    total, count = complete_files(rec, case, 2 * sum(f[1] == 'full' for f in case['faults']) if hits else 0)
    if not hits:
        if e is not None:
            rec.violation('the driver failed although no worker failed', error=repr(e))
        rec.check(all(total.get(k) == case['n'] for k in kinds), 'the driver returned, but results are missing',
                  got=total, want=case['n'])
        rec.count('calls_without_fault')
    else:
        what = dict(driver=case['driver'], workers=used, faults=case['faults'], files=listing())
        rec.check(e is not None, 'a worker failed, and the driver returned as if all the results were there', **what)
        rec.check(all(count.get(k, 0) >= used - hits for k in kinds), 'results of workers which did not fail are missing',
                  **what)
        rec.count('faults_reported')
        rec.count('faults_hit_in_worker', hits)
        for f in case['faults']:
            rec.saw('fault', '%s at %s' % (f[1], f[2]))
            rec.saw('worker', '%d of %d' % (f[0], used))
            rec.count('signals' if f[1] in ('kill', 'term', 'abort', 'segv') else
                      'full_disk_of_one_worker' if f[1] == 'full' else 'exceptions')
    rec.saw('driver', '%s/%s' % (case['driver'], case['interaction']))
    rec.execution(('worker', case['driver'], case['interaction'], case['workers'], case['n'], case['faults'], sorted(count.items())),
                  bool(hits))


def slow(case, rec):
    """one worker takes its time, and whoever waits for a limited time only does so in vain: when the driver returns
    normally all the results are there"""
    from multiprocessing import connection, process
    k, where, naps = case['slow']
    join, wait = process.BaseProcess.join, connection.wait

    def hasty_join(self, timeout=None):
        return join(self, timeout if timeout is None else min(timeout, .02))

    def hasty_wait(objects, timeout=None):
        return wait(objects, timeout if timeout is None else min(timeout, .02))
    inj = Injector([])
    parent = os.getpid()

    def at(point):
        if os.getpid() != parent and inj.ordinal() == k and point == where:
            inj.counts[point] = inj.counts.get(point, 0) + 1
            if inj.counts[point] <= naps:
                if inj.counts[point] == 1:
                    with inj.lock:
                        inj.hits.value += 1
                time.sleep(.25)
    inj.at = at
    process.BaseProcess.join, connection.wait = hasty_join, hasty_wait
    try:
        with inj:
            e = attempt(case)
            hits = inj.hits.value
            if e is None:
                kinds = ['shortest_path_p'] if case['driver'] == 'sp' else ['entropy_order', 'critical_values']
                got = {}
                for f in listing():
                    try:
                        head, t = parse('data/' + f)
                    except Exception:
                        continue
                    if t.shape[0] == (case['L'] ** 2 if kind(f) == 'entropy_order' else head['En']):
                        got[kind(f)] = got.get(kind(f), 0) + head['En']
                rec.check(all(got.get(q, 0) == case['n'] for q in kinds), 'the driver returned before all the results were on disk',
                          got=got, want=case['n'], driver=case['driver'], workers=case['workers'], slow_worker=case['slow'])
    finally:
        process.BaseProcess.join, connection.wait = join, wait
        for p in multiprocessing.active_children():
            p.join()
    rec.count('slow_workers', hits)
    rec.saw('fault', 'slow at ' + where)
    rec.execution(('slow', case['driver'], case['interaction'], case['workers'], case['n'], case['slow']), bool(hits))


def _limited(case, limit, q):
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    e = attempt(case)
    q.send(repr(e) if e is not None else None)


def limited(case, limit):
    a, b = multiprocessing.get_context('fork').Pipe()
    p = multiprocessing.get_context('fork').Process(target=_limited, args=(case, limit, b))
    p.start()
    b.close()
    if not a.poll(60):
        p.kill()
        raise Inconclusive('no answer with a limited file size')
    try:
        e = a.recv()
    except EOFError:
        raise Inconclusive('the process with a limited file size died')
    p.join()
    return e


def sizes(case, rec):
    """files may grow up to a limit, which some of them exceed: at their first byte, halfway, at their last byte"""
    e = attempt(case)
    if e is not None:
        rec.violation('the function failed without any fault', error=repr(e), function=case['driver'])
    size = sorted(os.path.getsize('data/' + f) for f in listing())
    lo, hi = size[0], size[-1]
    limit = dict(one=1, half=lo // 2, between=(lo + hi) // 2, last=hi - 1, enough=2 * hi)[case['where']]
    for f in listing():
        os.remove('data/' + f)
    e = limited(case, limit)
    what = dict(function=case['driver'], limit=limit, sizes=size, workers=case['workers'], realizations=case['n'],
                files={f: os.path.getsize('data/' + f) for f in listing()})
    if e is None:
        try:
            got = {}
            for f in listing():
                k = kind(f)
                if case['driver'] == 'single':
                    json.load(open('data/' + f))
                    got[k] = got.get(k, 0) + 1
                    continue
                head, t = parse('data/' + f)
                if t.shape[0] != (case['L'] ** 2 if k == 'entropy_order' else head['En']):
                    raise ValueError('rows are missing in ' + f)
                got[k] = got.get(k, 0) + head['En']
            kinds = {'single': 1, 'sp': 1, 'path': 1, 'threads': 1}.get(case['driver'], 2)
            ok = len(got) == kinds and all(v == (1 if case['driver'] == 'single' else case['n']) for v in got.values())
        except Exception as x:
            ok, got = False, repr(x)
        rec.check(ok, 'the results are not all on disk, and the function returned as if they were', got=got, **what)
    else:
        rec.check(case['where'] != 'enough', 'the function failed although all its files could be written', error=e, **what)
    rec.count('write_faults' if e is not None else 'writes_without_fault')
    rec.saw('fault', 'size ' + case['where'])
    rec.saw('driver', '%s/%s' % (case['driver'], case['interaction']))
    rec.execution(('sizes', case['driver'], case['interaction'], case['where'], case['workers'], case['n']), e is not None)


def disk(case, rec):
    how = case['how']
    if how == 'limit':
        e = limited(case, 100)
    else:
        os.rmdir('data')
        if how == 'file':
            open('data', 'w').close()
        elif how == 'dangling':
            os.symlink(os.path.join(os.getcwd(), 'nowhere'), 'data')
        e = attempt(case)
        e = repr(e) if e is not None else None
        if e is None and os.path.isdir('data'):
            # a program which creates the directory has written everything
            total, count = complete_files(rec, case)
            want = 1 if case['driver'] == 'single' else case['n']
            rec.check(bool(total) and all(v == want for v in total.values()), 'results are missing', got=total)
            rec.count('directories_created')
            return
    rec.check(e is not None, 'results could not be written, and the function returned as if they were', function=case['driver'],
              how=how)
    rec.count('write_faults')
    rec.count('faults_reported')
    rec.saw('fault', 'disk %s' % how)
    rec.saw('driver', '%s/%s' % (case['driver'], case['interaction']))
    rec.execution(('disk', case['driver'], case['interaction'], how, case['workers']))


def main(case, rec):
    os.rmdir('data')
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    try:
        r = subprocess.run([sys.executable, os.path.join(core.REPO, 'main.py')], env=env, capture_output=True, text=True,
                           timeout=240)
    except subprocess.TimeoutExpired:
        return
    rec.check(r.returncode != 0 or os.path.isdir('data') and len(listing()) > 0, 'main.py wrote nothing and reports success')
    rec.count('write_faults')
    rec.execution(('main', r.returncode))


def run(case, rec):
    random.seed(case['rng'])
    with scratch():
        globals()[case['kind']](case, rec)
    rec.sample(case)
