"""After reset() an object cannot be told from a new one."""
import random

from .. import gen
from ..observe import observe, quietly, same
from ..sut import classes

RULE = ('Pairs: an object with a history (complete, partial and aborted runs, single steps, refused lists, queries, '
        'many resets) which is then reset, and a new object (as created, or reset too); both continue with the same random state '
        '(L1, L2) or the same custom order (the others). Everything readable (scalars, curves, cluster partition of '
        'sites and bonds, sizes, sequences, printed summaries) is compared right after the reset, during and after '
        'the next run. Execution: one pair; non-trivial: the history placed sites; distinct by history and orders.')
NEED = dict(monitor_evaluations=2000, pairs=200, compared_states=2000, histories_with_wrapping=40,
            histories_cut_short=40, compared_with_untouched_new=100,
            lists_of_candidates=15, compared_prints=500)
ASSUMPTIONS = ['custom lists are set again after the reset',
               'the order of L0 is drawn by shuffling, so only runs with the same order are compared']

QUERIES = ['viewCluster', 'get_pc', 'entropy_v1', 'get_data_array', 'get_index_sequence']


def history(rng, o, cls, L, log):
    """something done to an object before the reset"""
    op = rng.choice(['run', 'run', 'step', 'step', 'reset', 'bad', 'query', 'list', 'list', 'swap', 'nodetect', 'boom'])
    log.append(op)
    N = L * L
    if op == 'run':
        o.run_once()
    elif op in ('step', 'nodetect'):
        for _ in range(rng.randrange(1, 2 * N)):
            if not o.place_one_site():
                break
            if op == 'step':
                o.detect_wrapping()
    elif op == 'reset':
        o.reset()
    elif op == 'bad':
        o.set_custome_site_id_list([0, N])
        o.set_custome_site_index_list([(0, L)])
    elif op == 'query':
        for q in QUERIES:
            getattr(o, q)()
        o.viewLattice(rng.randrange(5))
        if o.occupation_prob():
            o.detect_wrapping()
    elif op == 'list':
        o.reset()
        p = gen.order(rng, L)[0]
        p = p[:rng.randrange(1, N + 1)]
        if rng.random() < .3:
            o.set_custome_site_index_list([divmod(s, L) for s in p], rng.random() < .3)
        else:
            o.set_custome_site_id_list(p, rng.random() < .3)
        if rng.random() < .7:
            o.run_once()
    elif op == 'swap' and cls in ('L0', 'base', 'SP'):
        left = [s for s in o.get_site_id_sequence() if o.lattice_ref.get_site_gid_by_id(s) < 0]
        if len(left) > 1:
            o.swap_ids(*rng.sample(left, 2))
    elif op == 'boom':
        # a run aborted by an exception in the middle
        class Stop(Exception):
            pass
        left = [rng.randrange(1, N)]
        orig = o.place_one_site

        def place():
            left[0] -= 1
            if left[0] < 0:
                raise Stop
            return orig()
        o.place_one_site = place
        try:
            o.run_once()
        except Stop:
            pass
        finally:
            del o.place_one_site
        return True
    return op in ('step', 'nodetect', 'list')


def cases(tier, seed):
    rng = random.Random('C11/%s/%s' % (seed, tier))
    out = []
    for i in range(420 if tier == 'quick' else 9000):
        out.append(dict(cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=rng.choice([3, 3, 4, 5, 6, 7, 8, 10]),
                        seed=rng.randrange(10 ** 9), n=rng.choice([1, 1, 2, 3, 4, 6])))
    for i in range(10 if tier == 'quick' else 100):
        out.append(dict(cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=rng.choice([3, 4]),
                        seed=rng.randrange(10 ** 9), n=60))
    for i, L in enumerate((20, 24, 32, 21, 40)):
        out.append(dict(cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=L, seed=rng.randrange(10 ** 9), n=3))
    return sorted(out, key=lambda c: -c['L'] ** 2 * c['n'])


def run(case, rec):
    cls, L = case['cls'], case['L']
    N = L * L
    rng = random.Random(case['seed'])
    used = classes()[cls](length=L)
    log = []
    if rng.random() < .3:
        used.reset()
    for _ in range(case['n']):
        before = used.get_pc()
        if history(rng, used, cls, L, log):
            rec.count('histories_cut_short')
    if used.get_pc():
        rec.count('histories_with_wrapping')
    placed = used.occupation_prob()
    fresh = classes()[cls](length=L)
    order = None
    for rnd in range(rng.choice([1, 1, 2])):
        for o in (used, fresh):
            if o is fresh and not rnd and rng.random() < .6:
                rec.count('compared_with_untouched_new')
                continue
            o.reset()
            if rng.random() < .1:
                o.reset()
        compare(rec, used, fresh, 'right after the reset', log)
        if cls in ('L0', 'base', 'SP'):
            order, _ = gen.order(rng, L)
            k = rng.choice([N, N, rng.randrange(1, N + 1)])
            as_index = rng.random() < .3
            for o in (used, fresh):
                if as_index:
                    o.set_custome_site_index_list([divmod(s, L) for s in order[:k]])
                else:
                    o.set_custome_site_id_list(order[:k])
        else:
            # a new object starts from a shuffled list of candidates, a reset one from a sorted list: the same law,
            # other numbers.  The same random numbers only have to lead to the same results from the same start.
            fresh.reset()
            used.reset()
            if rng.random() < .3:
                # the candidates they start with are a list of the caller
                order, _ = gen.order(rng, L)
                order = order[:rng.choice([N, rng.randrange(1, N + 1)])]
                for o in (used, fresh):
                    o.set_custome_site_id_list(order)
                rec.count('lists_of_candidates')
            order = rng.randrange(10 ** 9)
        rs = rng.randrange(10 ** 9)
        if rng.random() < .5:
            for o in (used, fresh):
                random.seed(rs)
                o.run_once()
            compare(rec, used, fresh, 'after the run which follows the reset', log, order)
        else:
            states = [None, None]
            steps = rng.randrange(1, 3 * N)
            every = max(1, steps // 12)
            random.seed(rs)
            states = [random.getstate()] * 2
            for i in range(steps):
                res = []
                for j, o in enumerate((used, fresh)):
                    random.setstate(states[j])
                    going = o.place_one_site()
                    if going and o.occupation_prob():
                        going = (going, o.detect_wrapping())
                    res.append(going)
                    states[j] = random.getstate()
                rec.check(res[0] == res[1], 'a step differs between the used and reset object and a new one',
                          used=res[0], new=res[1], history=log, order=order, step=i, cls=cls, L=L)
                if i % every == 0:
                    compare(rec, used, fresh, 'in the middle of the next realization', log, order)
                if not res[0]:
                    break
            compare(rec, used, fresh, 'in the next realization', log, order)
        log.append('compared')
    rec.count('pairs')
    rec.saw('operations', tuple(sorted(set(log))))
    rec.execution((cls, L, log, case['seed']), placed > 0)
    rec.sample(dict(cls=cls, L=L, history=log))


def compare(rec, used, fresh, when, log, order=None):
    rec.count('compared_states')
    a, b = observe(used), observe(fresh)
    k = same(a, b)
    rec.check(k is None, 'a used and reset object differs from a new one %s' % when, what=k, used=a.get(k),
              new=b.get(k), history=log, order=order)
    if order is None:
        # and, before anything is placed, in labels and coordinates, as they are printed and as they are read
        for name, x, y in zip(('coordinates', 'labels', 'clusters') + VIEWS, printed(used), printed(fresh)):
            rec.check(x == y, 'a used and reset object differs from a new one %s' % when, what=name, used=x, new=y,
                      history=log, order=order)
        rec.count('compared_prints')


VIEWS = tuple('view %d' % i for i in range(5)) + ('sites', 'bonds', 'cluster view')


def printed(o):
    lat, pool = o.lattice_ref, o.cluster_pool_ref
    N = lat.length ** 2
    sites = [lat.get_site_by_id(i) for i in range(N)]
    yield [str(s.get_relative_index()) for s in sites]
    gids = [lat.get_site_gid_by_id(i) for i in range(N)] + [lat.get_bond_gid_by_id(i) for i in range(2 * N)]
    yield gids
    yield [(g, sorted(pool.get_sites(g)), sorted(pool.get_bonds(g))) for g in sorted(set(gids) - {-1})]
    for i in range(5):
        yield quietly(o.viewLattice, i)[1]
    yield quietly(lat.print_sites)[1]
    yield quietly(lat.print_bonds)[1]
    yield quietly(o.viewCluster)[1]
