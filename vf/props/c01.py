"""The lattice is the periodic square lattice, for every side, before and after every history."""
import random

from .. import gen
from ..core import Violation
from ..model import nb, site_bonds
from ..sut import classes

RULE = ('Lattices of many sides, bare and inside every simulation class after histories of placements, resets and '
        'queries. Every site and every bond is visited through all the public neighbor queries and compared with '
        'arithmetic modulo the side; new sites and bonds are given parts one by one and as lists. Execution: one visited lattice; non-trivial: side >= 3; distinct by side, class '
        'and history.')
NEED = dict(monitor_evaluations=20000, sites_visited=2000, bonds_visited=4000, lattices_with_history=20, parts=10)
ASSUMPTIONS = ['side >= 3 (below that a site neighbors itself or one site twice)']


def visit(rec, lat, L, obj=None, what=''):
    N = L * L
    NB = nb(L)
    used = {}
    for s in range(N):
        rec.count('sites_visited')
        want = [t for t, _ in NB[s]]
        bonds = list(lat.get_neighbor_bonds(s))
        rec.check(len(bonds) == 4 and len(set(bonds)) == 4, 'a site has not four different bonds', L=L, site=s,
                  bonds=bonds, what=what)
        rec.check(set(bonds) == set(site_bonds(L, s)), 'a site has other bonds than the ones next to it', L=L, site=s,
                  bonds=bonds, want=site_bonds(L, s), what=what)
        across = {}
        for b in bonds:
            used[b] = used.get(b, 0) + 1
            ends = list(lat.get_neighbor_sites(b))
            rec.check(len(ends) == 2 and s in ends and ends[0] != ends[1], 'a bond of a site does not join it to '
                      'another one', L=L, site=s, bond=b, ends=ends, what=what)
            t = ends[0] if ends[1] == s else ends[1]
            rec.check(t in want, 'a bond joins sites which are not adjacent', L=L, bond=b, ends=ends, what=what)
            across[b] = t
        rec.check(sorted(across.values()) == sorted(want), 'the four bonds do not lead to the four neighbors', L=L,
                  site=s, got=across, want=want, what=what)
        for q in ('get_all_neighbor_sites', 'get_site_neighbor_of_site'):
            got = list(getattr(lat, q)(s))
            rec.check(sorted(got) == sorted(want), 'neighbors of a site are wrong (%s)' % q, L=L, site=s, got=got,
                      want=want, what=what)
        right, bottom, left, top = s, N + s, s - 1 if s % L else s + L - 1, N + (s - L) % N
        for q, b in (('right', right), ('bottom', bottom), ('left', left), ('top', top)):
            got = getattr(lat, q + '_bond_of_site')(s)
            rec.check(got == b, 'the bond in a direction is wrong', direction=q, L=L, site=s, got=got, want=b, what=what)
        rec.check(sorted(lat.find_neighbor_bonds(s)) == sorted((right, bottom, left, top)), 'bonds found for a site are wrong', L=L,
                  site=s, got=lat.find_neighbor_bonds(s), what=what)
        st = lat.get_site_by_id(s)
        rec.check(list(st.connecting_bonds()) == bonds, 'site and lattice disagree about the bonds', L=L, site=s)
        if obj is not None:
            for b in bonds:
                rec.check(obj.get_neighbor_site(s, b) == across[b], 'the site across a bond is wrong', L=L, site=s,
                          bond=b, what=what)
            if hasattr(obj, 'get_four_neighbor_sites'):
                got = list(obj.get_four_neighbor_sites(s))
                rec.check(sorted(got) == sorted(want), 'neighbors of a site are wrong (get_four_neighbor_sites)', L=L, site=s, got=got,
                          want=want, what=what)
            got = list(obj.get_connected_sites(st, bonds))
            rec.check(got == [across[b] for b in bonds], 'connected sites are wrong', L=L, site=s, got=got, what=what)
        # distance: one step apart exactly for the neighbors
        far = [(s + L + 1) % N, (s * 7 + 3) % N]
        for t in want + [x for x in far if x != s and x not in want]:
            d = tuple(lat.distance_btn_sites(st, lat.get_site_by_id(t)))
            rec.check((sorted(d) == [0, 1]) == (t in want), 'distance 1 does not mean adjacent', L=L, site=s, other=t,
                      got=d, what=what)
    for b in range(2 * N):
        rec.count('bonds_visited')
        ends = list(lat.get_bond_by_id(b).connected_sites())
        r, c = divmod(b % N, L)
        other = r * L + (c + 1) % L if b < N else ((r + 1) % L) * L + c
        rec.check(sorted(ends) == sorted([b % N, other]), 'a bond joins other sites than the two next to it', L=L,
                  bond=b, ends=ends, want=[b % N, other], what=what)
        rec.check(used.get(b) == 2, 'a bond belongs to other than two sites', L=L, bond=b, got=used.get(b), what=what)
    rec.check(list(lat.get_site_id_list()) == list(range(N)) and list(lat.get_bond_id_list()) == list(range(2 * N)),
              'lists of ids are incomplete', L=L)


def cases(tier, seed):
    rng = random.Random('C01/%s/%s' % (seed, tier))
    top = 41 if tier == 'quick' else 101
    out = [dict(kind='bare', L=L) for L in list(range(3, top)) + [45, 50, 51, 63, 64, 65, 80, 99, 100, 101, 128, 260]]
    if tier == 'thorough':
        out += [dict(kind='bare', L=L) for L in (127, 129, 150, 200, 255, 256, 257, 300)]
    out += [dict(kind='parts', L=rng.choice([3, 4, 7]), seed=rng.randrange(10 ** 6)) for _ in range(12 if tier == 'quick' else 200)]
    for i in range(150 if tier == 'quick' else 2500):
        out.append(dict(kind='used', cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=rng.choice(list(range(3, 17)) +
                        [20, 25, 32]), seed=rng.randrange(10 ** 6)))
    return sorted(out, key=lambda c: -c['L'])


def parts(case, rec):
    """adding to sites and bonds one by one or as lists: what fits is there, what does not changes nothing"""
    from source_py.simulation.bond import Bond
    from source_py.simulation.lattice import Lattice
    from source_py.simulation.site import Site
    L, rng = case['L'], random.Random(case['seed'])
    for make, add, read, most in ((lambda: Site(1, 2), 'add_connecting_bond', 'connecting_bonds', 4),
                                  (lambda: Bond(1, 2), 'add_connected_site', 'connected_sites', 2)):
        for _ in range(25):
            x, want, log = make(), [], []
            for _ in range(rng.randrange(1, 9)):
                n = rng.choice([None, None, None, most, most, 0, 1, most - 1, most + 1])
                v = rng.randrange(99) if n is None else [rng.randrange(99) for _ in range(n)]
                mine = v if n is None else list(v)
                log.append(mine)
                getattr(x, add)(v)
                if n is None and len(want) < most:
                    want.append(v)
                elif n == most and not want:
                    want += v
                rec.check(v == mine, 'a list of the caller was changed', log=log)
                if n is not None:
                    v.append(-5)
                rec.check(list(getattr(x, read)()) == want, 'a site or bond holds other parts than were given to it and fit', call=add, log=log,
                          got=list(getattr(x, read)()), want=want)
    lat = Lattice(L)
    for _ in range(20):
        i = rng.randrange(L * L)
        lat.get_site_by_id(i).add_connecting_bond(rng.choice([i, [0, 1, 2, 3], []]))
        lat.get_bond_by_id(i).add_connected_site(rng.choice([i, [0, 1], []]))
    visit(rec, lat, L, what='after adding to full sites and bonds')
    rec.count('parts')
    rec.execution(('parts', L, case['seed']))


def run(case, rec):
    L = case['L']
    if case['kind'] == 'parts':
        return parts(case, rec)
    if case['kind'] == 'bare':
        from source_py.simulation.lattice import Lattice
        lat = Lattice(L)
        visit(rec, lat, L)
        lat.reset()
        if L < 40:
            visit(rec, lat, L, what='after reset')
        rec.execution(('bare', L))
        rec.saw('sides', L)
        return
    rng = random.Random(case['seed'])
    o = classes()[case['cls']](length=L, seed=case['seed'])
    done = []
    for _ in range(rng.randrange(1, 5)):
        op = rng.choice(['run', 'reset', 'step', 'query', 'list'])
        done.append(op)
        if op == 'run':
            o.run_once()
        elif op == 'reset':
            o.reset()
        elif op == 'step':
            for _ in range(rng.randrange(L * L)):
                if not o.place_one_site():
                    break
                o.detect_wrapping()
        elif op == 'query':
            o.viewLattice(rng.randrange(5))
            o.lattice_ref.get_sites_for_wrapping_test(rng.randrange(L * L))
            o.lattice_ref.test_neighbor_count()
            o.lattice_ref.scan_sites()
            o.lattice_ref.scan_bonds()
            if case['cls'] == 'L1':
                o.occupied_summary()
        elif op == 'list' and case['cls'] in ('L0', 'base', 'SP'):
            o.reset()
            p, _ = gen.order(rng, L)
            o.set_custome_site_id_list(p[:rng.randrange(1, L * L + 1)])
    visit(rec, o.lattice_ref, L, o, what='%s after %s' % (case['cls'], done))
    rec.count('lattices_with_history')
    rec.execution((case['cls'], L, done, case['seed']))
    rec.saw('sides', L)
    rec.sample(dict(cls=case['cls'], L=L, history=done))
