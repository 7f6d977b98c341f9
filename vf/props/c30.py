"""Addressing is one-to-one: id <-> (row, column), for sites and bonds; index arithmetic is exact."""
import random

from ..sut import classes

RULE = ('All sites and bonds of lattices of many sides (bare and after runs) looked up by id, by index objects, by '
        'tuples, by (row, column) and back; groups read through every lookup while clusters grow; index sums and '
        'differences of random indices against integer arithmetic. Execution: one lattice; non-trivial: side >= 2; '
        'distinct by side and history.')
NEED = dict(monitor_evaluations=20000, lookups=5000, index_operations=2000, gid_lookups=1000)
ASSUMPTIONS = []


def visit(rec, lat, L):
    from source_py.simulation.index import Index
    N = L * L
    seen = set()
    for s in range(N):
        r, c = divmod(s, L)
        site = lat.get_site_by_id(s)
        ix = site.get_index()
        rec.count('lookups')
        rec.check(site.get_id() == s, 'a site found by id has another id', L=L, id=s, got=site.get_id())
        rec.check((ix.row(), ix.column()) == (r, c) == tuple(ix.as_list()), 'index of a site is wrong', L=L, id=s,
                  got=str(ix))
        rec.check(tuple(lat.get_row_col_from_id(s)) == (c, r), 'column and row from an id are wrong', L=L, id=s,
                  got=lat.get_row_col_from_id(s))
        seen.add((ix.row(), ix.column()))
        rec.check(lat.get_id_from_index(r, c) == s, 'id from row and column is wrong', L=L, index=(r, c))
        for arg in (Index(r, c), ix, (r, c), [r, c]):
            got = lat.calculate_id_from_index(arg)
            rec.check(got == s, 'id calculated from an index is wrong', L=L, index=(r, c), got=got)
        rec.check(lat.get_site_by_index(Index(r, c)) is site, 'the site at an index is another one', L=L, index=(r, c))
        g = lat.get_site_gid_by_id(s)
        rec.count('gid_lookups')
        rec.check(g == lat.get_site_gid_by_index(Index(r, c)) == site.get_gid(), 'group of a site depends on the way it '
                  'is looked up', L=L, id=s)
        for hv in (0, 1):
            b = hv * N + s
            bond = lat.get_bond_by_id(b)
            rec.check(bond.get_id() == b, 'a bond found by id has another id', L=L, id=b, got=bond.get_id())
            rec.check(tuple(bond.get_index()) == (hv, r, c), 'index of a bond is wrong', L=L, id=b,
                      got=bond.get_index())
            rec.check(lat.calculate_id_from_index(bond.get_index()) == b, 'id calculated from the index of a bond is '
                      'wrong', L=L, id=b, got=lat.calculate_id_from_index(bond.get_index()))
            rec.check(lat.get_bond_by_index(r, c, hv) is bond, 'the bond at an index is another one', L=L, id=b)
            rec.check(bond.get_gid() == lat.get_bond_gid_by_id(b), 'group of a bond depends on the way it is looked up')
    rec.check(len(seen) == N, 'two sites have one index', L=L)


def cases(tier, seed):
    rng = random.Random('C30/%s/%s' % (seed, tier))
    out = [dict(kind='bare', L=L) for L in list(range(2, 41 if tier == 'quick' else 101)) + [50, 64, 77, 100, 101, 128, 260]]
    out += [dict(kind='used', cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=rng.choice(range(3, 20)),
                 seed=rng.randrange(10 ** 6)) for i in range(60 if tier == 'quick' else 1200)]
    out += [dict(kind='index', L=0, seed=rng.randrange(10 ** 6)) for i in range(16 if tier == 'quick' else 200)]
    return sorted(out, key=lambda c: -c['L'])


def run(case, rec):
    L = case['L']
    if case['kind'] == 'index':
        from source_py.simulation.index import Index, RelativeIndex
        rng = random.Random(case['seed'])
        for _ in range(400):
            rec.count('index_operations')
            span = rng.choice([1, 2, 10, 1000, 10 ** 9])
            a, b, c, d = (rng.randint(-span, span) for _ in range(4))
            for A in (Index, RelativeIndex):
                for B in (Index, RelativeIndex):
                    x, y = A(a, b), B(c, d)
                    for z, want in ((x + y, (a + c, b + d)), (x - y, (a - c, b - d))):
                        rec.check((z.row(), z.column()) == want == tuple(z.as_list()), 'index arithmetic is wrong',
                                  a=(a, b), b=(c, d), got=str(z), want=want)
                    rec.check((x.row(), x.column(), y.row(), y.column()) == (a, b, c, d), 'an operand changed')
                    w = RelativeIndex(index=x)
                    rec.check((w.x_coord(), w.y_coord()) == (a, b), 'conversion of an index is wrong', got=str(w))
        rec.execution(('index', case['seed']))
        return
    if case['kind'] == 'bare':
        from source_py.simulation.lattice import Lattice
        visit(rec, Lattice(L), L)
        rec.execution(('bare', L), L > 1)
    else:
        o = classes()[case['cls']](length=L, seed=case['seed'])
        rng = random.Random(case['seed'])
        for _ in range(rng.randrange(3 * L * L)):
            if not o.place_one_site():
                break
            o.detect_wrapping()
        visit(rec, o.lattice_ref, L)
        # a site at its full address, through the index sequence
        ids, idx = o.get_site_id_sequence(), o.get_index_sequence()
        rec.check([tuple(x) for x in idx] == [divmod(i, L) for i in ids], 'index sequence is not the id sequence',
                  ids=ids, idx=idx)
        o.reset()
        visit(rec, o.lattice_ref, L)
        rec.execution((case['cls'], L, case['seed']))
    rec.saw('sides', L)
    rec.sample(dict(case))
