"""Memory and work per realization do not grow with the number of realizations."""
import contextlib
import gc
import io
import logging
import os
import random
import sys
import tracemalloc
import types
import weakref

import numpy as np

from .. import gen
from ..core import Inconclusive, REPO
from ..files import scratch
from ..observe import observe
from ..sut import classes

RULE = ('One object makes the same realization (same order or same random state) again and again with resets between, '
        'with queries or not, with runs cut short or refused lists in between. After 3, 30, 60 and 120 realizations: '
        'number of elements reachable from the object and from the modules of the program, memory blocks of '
        'the interpreter, lines of the program executed per realization. None may grow by one or more per realization; '
        'dropped objects must be freed, also 120 of them made one after another. Ensembles: traced bytes during 60 realizations. Execution: one series; '
        'distinct by class, order and kind.')
ROUNDS = 1
NEED = dict(monitor_evaluations=400, series=60, realizations=5000, objects_dropped=100, ensembles=6)
ASSUMPTIONS = ['growth of less than one element, block (or 2 KB in ensembles) per realization is not a leak']
MARKS = (4, 30, 60, 120)


def cases(tier, seed):
    rng = random.Random('C27/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 15
    out = []
    for i in range(80 * k):
        cls = ['L0', 'L1', 'L2', 'SP', 'base'][i % 5]
        L = rng.choice([3, 4, 5, 6])
        out.append(dict(kind='series', cls=cls, L=L, order=gen.order(rng, L)[0], how=rng.choice(
            ['run', 'run', 'run', 'step', 'query', 'view', 'refused', 'partial']), seed=rng.randrange(10 ** 9)))
    for i in range(10 * k):
        out.append(dict(kind='dropped', L=rng.choice([3, 4, 6]), seed=rng.randrange(10 ** 9)))
    for i in range(5 * k):
        out.append(dict(kind='many', cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=rng.choice([3, 4, 5]), seed=rng.randrange(10 ** 9)))
    for i in range(8 * k):
        out.append(dict(kind='ensemble', f=['one', 'threads', 'v2', 'sp'][i % 4], cls=['L0', 'L1', 'L2'][i % 3], L=16,
                        n=60, seed=rng.randrange(10 ** 9)))
    return sorted(out, key=lambda c: c['kind'] != 'ensemble')


def reachable(roots):
    """elements in containers and arrays, and attributes of objects of the program"""
    seen, todo, n = set(), list(roots), 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (type(None), bool, int, float, str, bytes, types.ModuleType)) and \
                not isinstance(o, types.ModuleType):
            continue
        seen.add(id(o))
        if isinstance(o, dict):
            n += len(o)
            todo += list(o.keys()) + list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            n += len(o)
            todo += list(o)
        elif isinstance(o, np.ndarray):
            n += o.size
        elif isinstance(o, types.ModuleType):
            if (getattr(o, '__file__', None) or '').startswith(REPO):
                n += len(vars(o))
                todo += list(vars(o).values())
        elif isinstance(o, types.FunctionType):
            if (o.__code__.co_filename or '').startswith(REPO):
                todo += [o.__defaults__, o.__kwdefaults__, o.__dict__] + [c.cell_contents for c in o.__closure__ or ()
                                                                          if c != types.CellType()]
        elif isinstance(o, (staticmethod, classmethod)):
            todo.append(o.__func__)
        elif isinstance(o, type):
            if ours(o):
                todo += list(vars(o).values())
        elif isinstance(o, types.MethodType):
            todo += [o.__self__, o.__func__]
        elif hasattr(o, 'cache_info'):
            n += o.cache_info().currsize
        else:
            t = type(o)
            if ours(t):
                if hasattr(o, '__dict__'):
                    todo.append(o.__dict__)
                for c in t.__mro__:
                    for s in getattr(c, '__slots__', ()) or ():
                        if hasattr(o, s):
                            todo.append(getattr(o, s))
            elif t.__module__ in ('collections', 'array', 'builtins') and hasattr(o, '__len__'):
                try:
                    n += len(o)
                    todo += list(o)
                except TypeError:
                    pass
    return n


def ours(t):
    f = getattr(sys.modules.get(t.__module__), '__file__', None) or ''
    return f.startswith(REPO)


def modules():
    return [m for m in list(sys.modules.values()) if (getattr(m, '__file__', None) or '').startswith(REPO)]


class Lines:
    """lines of the program executed"""
    n = 0

    def __enter__(self):
        self.n = 0
        mon = sys.monitoring

        def line(code, no):
            if not code.co_filename.startswith(REPO):
                return mon.DISABLE
            self.n += 1
        mon.use_tool_id(mon.COVERAGE_ID, 'lines')
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)
        sys.monitoring.free_tool_id(sys.monitoring.COVERAGE_ID)


def one(o, case, rng):
    """a realization, the same every time"""
    cls, how = case['cls'], case['how']
    random.seed(case['seed'])
    o.reset()
    if cls in ('L0', 'SP', 'base'):
        o.set_custome_site_id_list(case['order'])
    elif how == 'run':
        random.seed(case['seed'])
    if how == 'refused':
        for bad in ([-1], [case['L'] ** 2]):
            try:
                o.set_custome_site_id_list(list(case['order']) + bad)
            except ValueError:
                pass
    if how == 'partial':
        for _ in range(case['L'] ** 2 // 2):
            o.place_one_site()
            o.detect_wrapping()
        return
    if how == 'step':
        while o.place_one_site():
            o.detect_wrapping()
    else:
        o.run_once()
    if how == 'query':
        observe(o)
    if how == 'view':
        with contextlib.redirect_stdout(io.StringIO()):
            o.viewLattice(3)
            o.viewCluster()
            o.lattice_ref.view_site_gids()


def growing(a):
    """values at MARKS: more than one per realization, in both halves"""
    return a[2] - a[1] >= MARKS[2] - MARKS[1] and a[3] - a[2] >= MARKS[3] - MARKS[2]


def series(case, rec):
    rng = random.Random(case['seed'])
    o = classes()[case['cls']](length=case['L'])
    res = dict(object=[], program=[], blocks=[], lines=[])
    for r in range(1, MARKS[-1] + 1):
        rec.count('realizations')
        if r in MARKS:
            with Lines() as ln:
                one(o, case, rng)
            res['lines'].append(ln.n)
            res['object'].append(reachable([o]))
            res['program'].append(reachable(modules()))
            gc.collect()
            res['blocks'].append(sys.getallocatedblocks())
        else:
            one(o, case, rng)
    for what in ('object', 'program', 'blocks'):
        rec.check(not growing(res[what]), 'memory grows with every realization', where=what, values=res[what], at=MARKS,
                  cls=case['cls'], how=case['how'])
    a = res['lines']
    rec.check(a[0] > 0 and not (a[3] > 1.3 * a[1] + 100 and a[2] > 1.15 * a[0] + 50 and a[3] > a[2] > a[1]), 'the work for the same realization grows '
              'with the number of realizations', lines=a, at=MARKS, cls=case['cls'], how=case['how'])
    rec.check(res['object'][0] > case['L'] ** 2, 'harness: the object was not traversed')
    o.reset()
    rec.check(len(o.get_entropy_array()) <= 1, 'rows are kept after the reset', rows=len(o.get_entropy_array()))
    rec.count('series')
    rec.saw('kinds', '%s/%s' % (case['cls'], case['how']))
    rec.execution((case['cls'], case['how'], case['order'], res['object']))
    rec.sample(dict(cls=case['cls'], L=case['L'], how=case['how'], **res))


def dropped(case, rec):
    random.seed(case['seed'])
    refs = []
    for i in range(12):
        cls = ['L0', 'L1', 'L2', 'SP', 'base'][i % 5]
        o = classes()[cls](length=case['L'])
        o.reset()
        o.run_once()
        observe(o)
        lat = o.lattice_ref
        parts = [o, lat, o.cluster_pool_ref, lat.get_site_by_id(0), lat.get_bond_by_id(0)]
        refs.append([weakref.ref(x) for x in parts if hasattr(type(x), '__weakref__')])
        rec.count('objects_dropped')
        del o, lat, parts
    gc.collect()
    alive = [type(r()).__name__ for rs in refs[:-1] for r in rs if r() is not None]
    rec.check(not alive, 'dropped objects are kept alive', alive=alive)
    rec.execution(('dropped', case['L'], case['seed']))


def many(case, rec):
    """objects made and dropped one after another"""
    random.seed(case['seed'])
    program, blocks = [], []
    for r in range(1, MARKS[-1] + 1):
        o = classes()[case['cls']](length=case['L'])
        o.reset()
        o.run_once()
        observe(o)
        o = None
        rec.count('objects_dropped')
        if r in MARKS:
            program.append(reachable(modules()))
            gc.collect()
            blocks.append(sys.getallocatedblocks())
    for what, v in (('program', program), ('blocks', blocks)):
        rec.check(not growing(v), 'memory grows with every object, although they are dropped', where=what, values=v, at=MARKS,
                  cls=case['cls'])
    rec.execution(('many', case['cls'], case['L'], case['seed']))


def ensemble(case, rec):
    from run_py import ensemble as E, shortest_path_run as S
    random.seed(case['seed'])
    base = classes()['SP' if case['f'] == 'sp' else case['cls']]
    marks = []

    class Traced(base):
        def run_once(self):
            super().run_once()
            if len(marks) % 10 == 0:
                gc.collect()
            marks.append(tracemalloc.get_traced_memory()[0])
    Traced.__name__ = base.__name__
    logging.disable(logging.CRITICAL)
    with scratch(), open(os.devnull, 'w') as out, contextlib.redirect_stdout(out):  # what is printed is not kept here
        tracemalloc.start()
        try:
            if case['f'] == 'one':
                E.run_ensemble_entropy_order(Traced, case['L'], case['n'])
            elif case['f'] == 'threads':
                E.run_ensemble_entropy_order_threads(Traced, case['L'], case['n'], 0)
            elif case['f'] == 'v2':
                E.run_ensemble_entropy_order_threads_v2(Traced, case['L'], case['n'], 0)
            else:
                S.ensemble_shortest_path_v2_thread(Traced, case['L'], case['n'], 0)
        finally:
            tracemalloc.stop()
            logging.disable(logging.NOTSET)
    a, b, c = marks[10], marks[30], marks[50]
    rec.check(not (b - a > 20 * 2048 and c - b > 20 * 2048), 'memory of an ensemble grows with every realization', bytes=[a, b, c],
              function=case['f'], cls=case['cls'])
    rec.count('ensembles')
    rec.count('realizations', len(marks))
    rec.execution((case['f'], case['cls'], case['seed']))


def run(case, rec):
    if not hasattr(sys, 'monitoring'):
        raise Inconclusive('needs sys.monitoring')
    globals()[case['kind']](case, rec)
