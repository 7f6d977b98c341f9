"""Queries and views only read."""
import random

from .. import gen
from ..observe import observe, quietly, same
from ..sut import classes

RULE = ('Twin objects with the same random state perform the same history; one of them is asked every public query '
        'and view at random moments. Afterwards (and in between) both read the same, the random state is untouched by '
        'the queries, a repeated query gives the same answer, and the twins end the run alike. Execution: one pair of '
        'twins; non-trivial: more than 10 queries with sites placed; distinct by history and queries.')
NEED = dict(monitor_evaluations=2000, queries=5000, twins=100)
ASSUMPTIONS = ['the wrapping test detect_wrapping() is an operation, not a query',
               'built-in self tests may raise AssertionError; they must not change anything']


def queries(o, cls, L, rng):
    """[(name, thunk)]"""
    lat, pool = o.lattice_ref, o.cluster_pool_ref
    N = L * L
    s = rng.randrange(N)
    t = lat.get_all_neighbor_sites(s)[rng.randrange(4)]
    b = rng.randrange(2 * N)
    g = lat.get_bond_gid_by_id(b)
    bonds = list(lat.get_neighbor_bonds(s))
    from source_py.simulation.index import Index
    out = [('viewLattice(%d)' % f, lambda f=f: o.viewLattice(f)) for f in (-1, 0, 1, 2, 3, 4)]
    out += [(n, lambda n=n: getattr(o, n)()) for n in (
        'get_pc', 'get_site_count_wrapping_cluster_pc', 'get_bond_count_wrapping_cluster_pc',
        'get_order_param_wrapping_array', 'get_order_param_largest_array', 'get_entropy_array', 'get_data_array',
        'get_occupation_prob_array', 'occupation_prob', 'entropy', 'entropy_v1', 'entropy_v2', 'largest_cluster',
        'order_param_largest_clstr', 'order_param_wrapping', 'get_signature', 'get_site_id_sequence',
        'get_index_sequence')]
    out += [('viewCluster', lambda: o.viewCluster()), ('get_site_gids', lambda: o.get_site_gids([s, t])),
            ('get_bond_gids', lambda: o.get_bond_gids(bonds)),
            ('get_neighbor_site', lambda: o.get_neighbor_site(s, bonds[0])),
            ('get_connected_sites', lambda: o.get_connected_sites(lat.get_site_by_id(s), bonds)),
            ('get_relative_index', lambda: str(o.get_relative_index(s, t))),
            ('unique gids', lambda: o.uniqe_gid_bond_neighbors(bonds)),
            ('test_clusters', lambda: o.test_clusters()), ('test_lattice', lambda: o.test_lattice())]
    out += [('lattice.' + n, lambda n=n: getattr(lat, n)()) for n in (
        'list_all_sites', 'list_all_bonds', 'scan_sites', 'scan_bonds', 'print_bonds', 'print_sites', 'view',
        'view_relative_index', 'view_site_gids', 'test_neighbor_count', 'test_relative_index', 'get_site_id_list',
        'get_bond_id_list')]
    out += [('lattice.' + n, lambda n=n: getattr(lat, n)(s)) for n in (
        'get_neighbor_bonds', 'get_site_neighbor_of_site', 'get_sites_for_wrapping_test', 'find_neighbor_bonds',
        'get_site_gid_by_id', 'get_all_neighbor_sites')]
    out += [('lattice.get_neighbor_sites', lambda: lat.get_neighbor_sites(b)),
            ('lattice.get_bond_gid_by_id', lambda: lat.get_bond_gid_by_id(b)),
            ('lattice.get_site_by_index', lambda: lat.get_site_by_index(Index(s // L, s % L)).get_id()),
            ('lattice.get_site_gid_by_index', lambda: lat.get_site_gid_by_index(Index(s // L, s % L))),
            ('lattice.distance_btn_sites', lambda: lat.distance_btn_sites(lat.get_site_by_id(s),
                                                                          lat.get_site_by_id(t))),
            ('lattice.calculate_id_from_index', lambda: lat.calculate_id_from_index((s // L, s % L))),
            ('lattice.get_row_col_from_id', lambda: lat.get_row_col_from_id(s)),
            ('pool.get_sites', lambda: sorted(pool.get_sites(g))), ('pool.get_bonds', lambda: sorted(pool.get_bonds(g))),
            ('pool.get_cluster', lambda: str(pool.get_cluster(g))),
            ('pool.get_cluster_bond_count', lambda: pool.get_cluster_bond_count(g)),
            ('pool.get_cluster_site_count', lambda: pool.get_cluster_site_count(g)),
            ('site', lambda: (str(lat.get_site_by_id(s)), lat.get_site_by_id(s).is_occupied(),
                              lat.get_site_by_id(s).get_nn_count(), lat.get_site_by_id(s).is_root(),
                              [lat.get_site_by_id(s).is_removable(i) for i in (0, 1, 2)],
                              [lat.get_site_by_id(s).get_str(i) for i in (0, 1, 2)])),
            ('bond', lambda: (str(lat.get_bond_by_id(b)), [lat.get_bond_by_id(b).get_str(i) for i in (0, 1, 2)]))]
    if cls in ('L1', 'L2'):
        out.append(('occupied_summary', lambda: o.occupied_summary()))
    if cls == 'SP':
        out += [('scan_all_rows', lambda: o.scan_all_rows()), ('scan_all_cols', lambda: o.scan_all_cols()),
                ('get_shortest_path_p', lambda: o.get_shortest_path_p()),
                ('scan_row_col', lambda: o.scan_row_col_of_selected_site(Index(s // L, s % L)))]
    return out


def canon(v):
    return repr(v.tolist()) if hasattr(v, 'tolist') else repr(v) if not isinstance(v, set) else repr(sorted(v))


def ask(q):
    try:
        return canon(q())
    except (AssertionError, AttributeError) as e:
        return type(e).__name__


def told(o, L):
    """answers of views and lists, to the letter: the twins did the same, but for the questions"""
    lat, pool = o.lattice_ref, o.cluster_pool_ref
    d = dict(members=[(list(pool.get_sites(g)), list(pool.get_bonds(g))) for g in range(2 * L * L)])
    for name, f in (('clusters', o.viewCluster), ('lattice', o.viewLattice), ('groups', lat.view_site_gids),
                    ('coordinates', lat.view_relative_index), ('sites', lat.list_all_sites), ('bonds', lat.list_all_bonds)):
        d['view of ' + name] = quietly(f)[1]
    return d


def cases(tier, seed):
    rng = random.Random('C13/%s/%s' % (seed, tier))
    out = [dict(cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=rng.choice([3, 4, 5, 6, 7, 8]),
                seed=rng.randrange(10 ** 9)) for i in range(300 if tier == 'quick' else 6000)]
    out += [dict(cls=c, L=L, seed=rng.randrange(10 ** 9)) for L in (16, 21, 34) for c in ('L0', 'L1', 'L2', 'SP', 'base')]
    return sorted(out, key=lambda c: -c['L'])


def run(case, rec):
    cls, L = case['cls'], case['L']
    N = L * L
    rng = random.Random(case['seed'])
    rs = rng.randrange(10 ** 9)
    random.seed(rs)
    a = classes()[cls](length=L)
    random.seed(rs)
    b = classes()[cls](length=L)
    sa = sb = random.getstate()
    log, nq = [], 0
    custom = cls in ('L0', 'base', 'SP') and rng.random() < .4
    for real in range(rng.choice([1, 1, 2])):
        order = gen.order(rng, L)[0] if custom else None
        plan = [rng.choice(['step'] * 5 + ['run', 'reset']) for _ in range(rng.randrange(3, 8))] + ['run']
        sizes = [rng.randrange(1, N) for _ in plan]
        if order:
            plan.insert(0, 'list')
            sizes.insert(0, 0)
        for op, k in zip(plan, sizes):
            log.append((op, k))
            for which, o in ((0, a), (1, b)):
                random.setstate(sa if which == 0 else sb)
                if op == 'list':
                    o.reset()
                    o.set_custome_site_id_list(list(order))
                elif op == 'reset':
                    o.reset()
                elif op == 'run':
                    o.run_once()
                else:
                    for i in range(k):
                        if which == 1 and i % 7 == 3:
                            st = random.getstate()
                            name, q = rng.choice(queries(o, cls, L, rng))
                            ask(q)
                            nq += 1
                            rec.check(random.getstate() == st, 'a query changed the state of the random generator',
                                      query=name)
                        if not o.place_one_site():
                            break
                        if i % 3 or True:
                            o.detect_wrapping()
                st = random.getstate()
                if which == 0:
                    sa = st
                else:
                    sb = st
            rec.check(sa == sb, 'random state diverged after queries', history=log)
            # all the queries now, some twice, on the second twin only
            qs = queries(b, cls, L, rng)
            rng.shuffle(qs)
            st = random.getstate()
            for name, q in qs[:rng.randrange(5, len(qs))]:
                first = ask(q)
                nq += 1
                rec.check(random.getstate() == st, 'a query changed the state of the random generator', query=name)
                if rng.random() < .4:
                    rec.check(ask(q) == first, 'a repeated query gives another answer', query=name, history=log)
                if rng.random() < .15:
                    k_ = same(observe(a, direct=False), observe(b, direct=False), 0)
                    rec.check(k_ is None, 'queries changed the state', last_query=name, what=k_, history=log)
            k_ = same(observe(a, direct=False), observe(b, direct=False), 0)
            rec.check(k_ is None, 'queries changed the state', what=k_, history=log, asked=observe(b, direct=False).get(k_),
                      untouched=observe(a, direct=False).get(k_))
            if L < 13 or op == 'run':
                ta, tb = told(a, L), told(b, L)
                for k_ in ta:
                    rec.check(ta[k_] == tb[k_], 'queries changed what is answered later', what=k_, history=log)
    rec.count('queries', nq)
    rec.count('twins')
    rec.execution((cls, L, log, case['seed']), nq > 10)
    rec.sample(dict(cls=cls, L=L, history=log[:8], queries=nq))
