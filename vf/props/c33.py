"""Work and memory of one realization grow with the number of sites, not with its square."""
import contextlib
import io
import random
import sys
import time

from .. import gen
from ..core import Inconclusive
from ..files import scratch
from ..sut import classes
from .c27 import Lines, reachable

RULE = ('One whole realization (creation, reset, run) on sides 12, 24 and 48 (96 in the thorough tier) for every family of '
        'orders; the program lines executed and the objects reachable afterwards are counted per site, and compared between '
        'the sides. The processor time per site is compared between sides 50 and 200. Ensembles of 4 and 16 realizations likewise. At every merging the bonds whose label changed are counted against the sizes of the clusters merged. Execution: one realization; distinct by class, family, '
        'side; all are non-trivial.')
ROUNDS = 1
NEED = dict(monitor_evaluations=60, realizations=100, mergings=2000)
ASSUMPTIONS = ['work is counted in lines of Python executed in /repo, time inside of builtins is seen as processor time only, from side 50 to 200, where a factor %s is allowed' % 3.5,
               'a factor 2 (4.5 for shortest paths) in lines per placed site from side 12 to 48 is allowed; N^2 work gives 16']

SIDES = (12, 24, 48)
TIME_LIMIT = 3.5


def cases(tier, seed):
    rng = random.Random('C33/%s/%s' % (seed, tier))
    out = []
    for k in range(1 if tier == 'quick' else 6):
        for cls in ('L0', 'SP', 'base'):
            for fam in gen.NAMES:
                if cls == 'base' and fam not in ('rows', 'random', 'blocks', 'eden'):
                    continue
                for how in ('run', 'step') if cls == 'L0' else ('run',):
                    out.append(dict(kind='one', cls=cls, fam=fam, how=how, seed=rng.randrange(10 ** 6),
                                    sides=SIDES if tier == 'quick' or cls == 'SP' else SIDES + (96,)))
        for cls in ('L1', 'L2'):
            for _ in range(3):
                out.append(dict(kind='one', cls=cls, fam='own', how='run', seed=rng.randrange(10 ** 6), sides=SIDES))
        for f in ('one', 'threads', 'v2', 'sp'):
            out.append(dict(kind='ensemble', f=f, cls=rng.choice(['L0', 'L1', 'L2']), L=5, seed=rng.randrange(10 ** 6)))
        for cls, fam in (('L0', 'random'), ('L0', 'rows'), ('base', 'eden'), ('L1', 'own'), ('L2', 'own')):
            out.append(dict(kind='time', cls=cls, fam=fam, how='run', seed=rng.randrange(10 ** 6), sides=[50, 200]))
        for cls in ('L0', 'SP', 'base', 'L1', 'L2'):
            for fam in gen.NAMES if cls == 'L0' else ('random', 'blocks', 'own') if cls in ('L1', 'L2') else ('random', 'blocks', 'eden'):
                if cls in ('L1', 'L2') and fam != 'own':
                    continue
                for L in (7, 12, 20):
                    out.append(dict(kind='relabel', cls=cls, fam=fam, L=L, seed=rng.randrange(10 ** 6)))
    return sorted(out, key=lambda c: -max(c.get('sides', [0])) - (c.get('cls') in ('L1', 'L2')))


def one(case, rec):
    per, mem, before = [], [], []
    for L in case['sides']:
        rng = random.Random(case['seed'])
        order = None if case['fam'] == 'own' else gen.apply_symmetry(gen.symmetry(rng), L, gen.FAMILIES[case['fam']](rng, L))
        random.seed(case['seed'])
        with Lines() as start, contextlib.redirect_stdout(io.StringIO()):
            o = classes()[case['cls']](length=L)
            o.reset()
            if order is not None:
                o.set_custome_site_id_list(order)
        with Lines() as ln, contextlib.redirect_stdout(io.StringIO()):
            if case['how'] == 'run':
                o.run_once()
            else:
                while o.place_one_site():
                    o.detect_wrapping()
        N = L * L
        # (a run for the shortest path ends before all sites are placed)
        placed = sum(o.lattice_ref.get_site_by_id(i).is_occupied() for i in range(N))
        before.append(start.n / N)
        per.append(ln.n / max(placed, 1))
        mem.append(reachable([o]) / N)
        rec.count('realizations')
        rec.count('lines', start.n + ln.n)
        rec.execution((case['cls'], case['fam'], L, case['how'], case['seed']))
    rec.check(per[0] > 1, 'harness: no lines counted')
    limit = 4.5 if case['cls'] == 'SP' else 2
    rec.check(per[2] < limit * per[0] and (case['cls'] == 'SP' or per[-1] < 2 * per[1]), 'the work per site grows with the lattice',
              lines_per_site=per, sides=case['sides'], cls=case['cls'], family=case['fam'], how=case['how'])
    rec.check(max(before[1:]) < 2 * before[0], 'the work per site before the run grows with the lattice', lines_per_site=before,
              sides=case['sides'], cls=case['cls'], family=case['fam'])
    rec.check(mem[2] < 2 * mem[0], 'the memory per site grows with the lattice', objects_per_site=mem, sides=case['sides'],
              cls=case['cls'], family=case['fam'])
    rec.saw('families', case['fam'])
    rec.sample(dict(cls=case['cls'], family=case['fam'], lines_per_site=[round(x) for x in per],
                    objects_per_site=[round(x) for x in mem]))


def relabel(case, rec):
    """at every merging, the labels of all bonds: only those of the clusters which are not the largest change (or not those of
    the wrapping cluster, if it takes part)"""
    L, rng = case['L'], random.Random(case['seed'])
    random.seed(case['seed'])
    with contextlib.redirect_stdout(io.StringIO()):
        o = classes()[case['cls']](length=L)
        o.reset()
        if case['fam'] != 'own':
            o.set_custome_site_id_list(gen.apply_symmetry(gen.symmetry(rng), L, gen.FAMILIES[case['fam']](rng, L)))
    lat = o.lattice_ref
    labels = lambda: [lat.get_bond_gid_by_id(i) for i in range(2 * L * L)]
    now, first, empty, merged, moved = labels(), None, set(range(L * L)), 0, 0
    while True:
        before = now
        if not o.place_one_site():
            break
        now = labels()
        changed = [i for i in range(2 * L * L) if now[i] != before[i]]
        site = next((i for i in empty if lat.get_site_gid_by_id(i) >= 0), None)
        if site is None:
            rec.check(not changed, 'labels change without a site placed', cls=case['cls'], L=L, family=case['fam'])
            continue
        empty.discard(site)
        part = {before[b] for b in lat.get_neighbor_bonds(site)}
        size = {g: before.count(g) for g in part}
        free = max(size.values())
        if first is not None and before[first] in part:
            free = min(free, size[before[first]])
        rec.check(len(changed) <= sum(size.values()) - free, 'on merging, not the smaller clusters were relabeled', site=site,
                  sizes=sorted(size.values()), relabeled=len(changed), cls=case['cls'], L=L, family=case['fam'])
        merged += bool(changed)
        moved += len(changed)
        if first is None and o.detect_wrapping():
            first = lat.get_neighbor_bonds(site)[0]
    rec.count('mergings', merged)
    rec.count('bonds_relabeled', moved)
    rec.execution(('relabel', case['cls'], case['fam'], L, moved))


def timed(case, rec):
    """processor time, for the work inside of builtins (search in or copies of long lists): N^2 work there gives a factor of 8 and
    more; judged only if four of five attempts show it"""
    tries, ratio = [], []
    while len(tries) < 5:
        per = []
        for L in case['sides']:
            N = L * L
            best = None
            for _ in range(5 if L < 100 else 1):
                rng = random.Random(case['seed'])
                order = None if case['fam'] == 'own' else gen.FAMILIES[case['fam']](rng, L)
                random.seed(case['seed'])
                with contextlib.redirect_stdout(io.StringIO()):
                    o = classes()[case['cls']](length=L)
                    t0 = time.thread_time()
                    o.reset()
                    if order is not None:
                        o.set_custome_site_id_list(order)
                    o.run_once()
                    t1 = time.thread_time()
                rec.check(o.occupation_prob() == 1.0, 'the run ended before all sites were occupied', L=L)
                best = min(t1 - t0, best or 1e9)
                del o
            per.append(best / N * 1e6)
        tries.append([round(x, 1) for x in per])
        ratio.append(per[1] / per[0])
        rec.count('realizations', 6)
        if len(ratio) == 1 and ratio[0] < 2.6 or sum(x < TIME_LIMIT for x in ratio) >= 2 or sum(x >= TIME_LIMIT for x in ratio) >= 4:
            break
    rec.check(sum(x >= TIME_LIMIT for x in ratio) < 4, 'the time per site grows with the lattice', microseconds_per_site=tries, sides=case['sides'],
              cls=case['cls'], family=case['fam'])
    rec.count('timed')
    rec.execution(('time', case['cls'], case['fam'], case['seed']))
    rec.sample(dict(cls=case['cls'], family=case['fam'], microseconds_per_site=tries))


def ensemble(case, rec):
    from run_py import ensemble as E, shortest_path_run as S
    import logging
    used = []
    logging.disable(logging.CRITICAL)
    try:
        for n in (4, 16):
            random.seed(case['seed'])
            cls = classes()['SP' if case['f'] == 'sp' else case['cls']]
            with scratch(), contextlib.redirect_stdout(io.StringIO()), Lines() as ln:
                if case['f'] == 'one':
                    E.run_ensemble_entropy_order(cls, case['L'], n)
                elif case['f'] == 'threads':
                    E.run_ensemble_entropy_order_threads(cls, case['L'], n, 0)
                elif case['f'] == 'v2':
                    E.run_ensemble_entropy_order_threads_v2(cls, case['L'], n, 0)
                else:
                    S.ensemble_shortest_path_v2_thread(cls, case['L'], n, 0)
            used.append(ln.n)
            rec.count('realizations', n)
            rec.execution((case['f'], case['cls'], n, case['seed']))
    finally:
        logging.disable(logging.NOTSET)
    rec.check(used[1] < 6 * used[0], 'the work of an ensemble grows faster than its number of realizations', lines=used,
              function=case['f'])
    rec.count('ensembles')


def run(case, rec):
    if not hasattr(sys, 'monitoring'):
        raise Inconclusive('needs sys.monitoring')
    dict(one=one, time=timed, ensemble=ensemble, relabel=relabel)[case['kind']](case, rec)
