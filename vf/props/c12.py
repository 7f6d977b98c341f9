"""A seed determines everything: in one process, in another one, whatever happened before."""
import hashlib
import json
import os
import random
import subprocess
import sys

from .. import child
from ..core import HarnessError, Inconclusive, REPO, VERIF
from ..files import kind, listing, parse, scratch
from ..observe import quietly
from ..sut import classes

RULE = ('Scripts (a seeded object of any class, runs, steps, resets, shuffled lists, seeded ensembles writing files) '
        'with seeds of many kinds (0, 1, large, negative, float, text, bytes). The digest of everything readable and '
        'of the written tables must be the same when repeated in the process after disturbing the random generator '
        'and using other objects, and in fresh interpreters with other hash seeds and other generator histories; '
        'different seeds must give different orders, and objects and ensembles without seed must not repeat each other. '
        'Execution: one script; distinct by script.')
ROUNDS = 1
NEED = dict(monitor_evaluations=300, repeated_in_process=100, fresh_interpreters=20, seeded_files=4, distinct_seeds=20, ensembles_without_seed=80)
ASSUMPTIONS = ['one object at a time draws from the global generator during a script']

SEEDS = [['int', '0'], ['int', '1'], ['int', '-7'], ['int', str(2 ** 31)], ['int', str(2 ** 32)], ['int', str(2 ** 64 + 1)],
         ['int', str(10 ** 30)], ['float', '0.5'], ['float', '0.0'], ['str', ''], ['str', 'abc'], ['str', '0'],
         ['bytes', '00ff'], ['bytes', ''], ['bool', ''], ['bool', '1'], ['int', '255'], ['int', '256'], ['int', '100']]


def cases(tier, seed):
    rng = random.Random('C12/%s/%s' % (seed, tier))
    out = []
    n = 240 if tier == 'quick' else 4000
    for i in range(n):
        cls = ['L0', 'L1', 'L2', 'SP', 'base'][i % 5]
        L = rng.choice([3, 4, 5, 6, 8, 10]) if i % 24 else rng.choice([17, 24, 33])
        sd = SEEDS[(i // 5) % len(SEEDS)] if i < 5 * len(SEEDS) else ['int', str(rng.randrange(-10 ** 6, 10 ** 12))]
        ops = []
        for _ in range(rng.randrange(1, 5)):
            op = rng.choice(['run', 'run', 'reset', 'steps', 'shuffled', 'another'])
            if op == 'steps':
                ops.append(['steps', rng.randrange(1, L * L)])
            elif op == 'shuffled':
                if cls in ('L0', 'base', 'SP'):
                    ops += [['reset'], ['shuffled', rng.sample(range(L * L), rng.randrange(1, L * L + 1))]]
            elif op == 'another':
                if rng.random() < .6:
                    continue
                cls2 = rng.choice(['L0', 'L1', 'L2', 'SP'])
                ops.append(['another', cls2, L, rng.choice(SEEDS)])
                break
            else:
                ops.append([op])
        ops.append(['run'])
        out.append(dict(kind='script', cls=cls, L=L, seed=sd, ops=ops, fresh=(i % 6 == 0) or i < 20,
                        hashseed=rng.randrange(1, 10 ** 6), noise=[rng.randrange(10 ** 6) for _ in range(2)],
                        disturb=rng.randrange(10 ** 9)))
    for i in range(12 if tier == 'quick' else 200):
        out.append(dict(kind='script', files=True, cls=['L0', 'L1', 'L2', 'SP'][i % 4], L=rng.choice([3, 4, 5, 6]),
                        seed=rng.choice(SEEDS), n=rng.choice([1, 2, 3, 5]), th=rng.choice([0, 0, 1, 2, 9, 10, 14, 70]), fresh=True,
                        hashseed=rng.randrange(1, 10 ** 6), noise=[3], disturb=rng.randrange(10 ** 9)))
    out += [dict(kind='distinct', cls=c, s0=rng.randrange(10 ** 6)) for c in ('L0', 'L1', 'L2', 'SP', 'base')]
    out += [dict(kind='ensembles', cls=c, s0=rng.randrange(10 ** 6), k=k) for c in ('L0', 'L1', 'L2', 'SP') for k in range(2)]
    return out


def digest(spec):
    return hashlib.sha256(child.play(spec).encode()).hexdigest()


def disturb(rng):
    random.seed(rng.randrange(10 ** 9))
    for _ in range(rng.randrange(100)):
        random.random()
    if rng.random() < .6:
        o = classes()[rng.choice(['L0', 'L1', 'L2', 'SP'])](length=rng.choice([3, 5]))
        o.run_once()
        if rng.random() < .5:
            o.reset()
    if rng.random() < .3:
        random.gauss(0, 1)


def run(case, rec):
    rng = random.Random(case.get('disturb', 1))
    if case['kind'] == 'distinct':
        return distinct(case, rec)
    if case['kind'] == 'ensembles':
        return ensembles(case, rec)
    disturb(rng)
    first = digest(case)
    for _ in range(2):
        disturb(rng)
        rec.count('repeated_in_process')
        rec.check(digest(case) == first, 'the same seed gives another result the second time in one process',
                  script={k: case[k] for k in ('cls', 'L', 'seed')}, ops=case.get('ops'))
    if case['fresh']:
        env = dict(os.environ, PYTHONHASHSEED=str(case['hashseed']), VERIF_REPO=REPO, MPLBACKEND='Agg')
        r = subprocess.run([sys.executable, os.path.join(VERIF, 'vf', 'child.py')], input=json.dumps(case), text=True,
                           capture_output=True, env=env, timeout=600)
        if r.returncode:
            if REPO + '/' in r.stderr:
                rec.violation('the script fails in a fresh interpreter', error=r.stderr[-800:])
            raise HarnessError(r.stderr[-2000:])
        rec.count('fresh_interpreters')
        rec.check(r.stdout.strip() == first, 'the same seed gives another result in a fresh interpreter',
                  script={k: case[k] for k in ('cls', 'L', 'seed')}, ops=case.get('ops'))
    if case.get('files'):
        rec.count('seeded_files')
    rec.execution([case.get(k) for k in ('cls', 'L', 'seed', 'ops', 'n', 'th')])
    rec.saw('seeds', str(case['seed']))
    rec.sample({k: case.get(k) for k in ('cls', 'L', 'seed', 'ops', 'files')})


def ensembles(case, rec):
    """ensembles without seed, of all kinds and numbers, one after the other: no two of them the same"""
    from run_py import ensemble, shortest_path_run
    cls = classes()[case['cls']]
    L, n = 9, 4
    random.seed(case['s0'])
    calls = [(n2, th) for th in (0, 0, 1, 2, 5, 9, 10, 10, 11, 16, 33, 100, None) for n2 in ('v2',)] + [('v2', 0), ('v2', 10)]
    if case['cls'] != 'SP':
        calls += [(f, th) for f in ('threads', 'one') for th in (0, 0, 3, 12, 12)]
    seen = {}
    with scratch():
        for f, th in calls:
            before = set(listing())
            if case['cls'] == 'SP':
                quietly(shortest_path_run.ensemble_shortest_path_v2_thread, cls, L, n, th if th is not None else 3)
            elif f == 'v2':
                quietly(ensemble.run_ensemble_entropy_order_threads_v2, cls, L, n, th if th is not None else 3)
            elif f == 'threads':
                quietly(ensemble.run_ensemble_entropy_order_threads, cls, L, n, th)
            else:
                quietly(ensemble.run_ensemble_entropy_order, cls, L, n)
            for name in sorted(set(listing()) - before):
                if kind(name) == 'critical_values':
                    continue        # few numbers: equal ones can occur
                t = repr(parse('data/' + name)[1].tolist())
                rec.check(t not in seen, 'two ensembles without seed have the same results', first=seen.get(t), second=name)
                seen[t] = name
                rec.count('ensembles_without_seed')
    rec.execution(('ensembles', case['cls'], case['s0']))


def distinct(case, rec):
    cls, L = case['cls'], 8
    orders = {}
    for sd in [0, 1, 2, 3, 10, 11, 255, 256, 1000, 65536, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 'a', 'b', '0', '1', 1.5, 2.5] + \
            [case['s0'] + i + 5000 for i in range(12)]:
        o = classes()[cls](length=L, seed=sd)
        if cls in ('L1', 'L2'):
            o.run_once()
        orders.setdefault(tuple(o.get_site_id_sequence()), []).append(sd)
        rec.count('distinct_seeds')
    both = [v for v in orders.values() if len(v) > 1]
    rec.check(not both, 'different seeds give the same order', cls=cls, seeds=both)
    # no seed: the generator goes on
    random.seed(case['s0'])
    seen = {}
    for i in range(12):
        o = classes()[cls](length=L)
        if i % 2:
            o.reset()
        if cls in ('L1', 'L2'):
            o.run_once()
        t = tuple(o.get_site_id_sequence())
        rec.check(t not in seen, 'two objects without seed have the same order', cls=cls, first=seen.get(t), second=i)
        seen[t] = i
    # realizations of one object differ
    o = classes()[cls](length=L, seed=case['s0'])
    seen = {}
    for i in range(20):
        o.reset()
        if cls in ('L1', 'L2'):
            o.run_once()
        t = tuple(o.get_site_id_sequence())
        rec.check(t not in seen, 'two realizations of one object have the same order', cls=cls, first=seen.get(t),
                  second=i)
        seen[t] = i
    rec.execution(('distinct', cls, case['s0']))
