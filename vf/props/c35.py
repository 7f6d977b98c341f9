"""Index arithmetic is exact; relative positions of neighbors are unit steps."""
import random

import numpy as np

from .. import gen
from ..model import nb
from ..observe import quietly
from ..sut import classes

RULE = ('Sums, differences, conversions and copies of indices of all kinds, also negative, very large and of numpy type, '
        'against plain integers; on live simulation objects of many sides and histories the relative position of every pair '
        'of neighbors, its correction across the boundary, the change between two positions, and for L2 the return of an '
        'index into the lattice. Execution: one batch of indices or one visited object; distinct by its contents.')
NEED = dict(monitor_evaluations=20000, operations=4000, pairs=10000, returned=1000)
ASSUMPTIONS = ['side >= 3', 'components are whole numbers']


def comps(x):
    return (x.row(), x.column())


def arithmetic(case, rec):
    from source_py.simulation.index import Index, RelativeIndex
    rng = random.Random(case['seed'])
    log = []
    for _ in range(case['n']):
        rec.count('operations')
        big = rng.choice([1, 3, 10, 1000, 10 ** 12, 2 ** 62, 10 ** 30])
        v = [rng.randint(-big, big) for _ in range(4)]
        A, B = rng.choice([(Index, Index), (RelativeIndex, RelativeIndex), (Index, RelativeIndex), (RelativeIndex, Index)])
        a, b = A(v[0], v[1]), B(v[2], v[3])
        log.append((A.__name__, B.__name__, tuple(v)))
        for x, w in ((a, v[:2]), (b, v[2:])):
            rec.check(comps(x) == tuple(w) and tuple(x.as_list()) == tuple(w), 'an index does not give its components back', put=w,
                      got=comps(x))
            if hasattr(x, 'x_coord'):
                rec.check((x.x_coord(), x.y_coord()) == tuple(w), 'x and y are not row and column', put=w)
        s, d, e = a + b, a - b, b - a
        rec.check(comps(s) == (v[0] + v[2], v[1] + v[3]), 'a sum of indices is wrong', a=v[:2], b=v[2:], got=comps(s))
        rec.check(comps(d) == (v[0] - v[2], v[1] - v[3]), 'a difference of indices is wrong', a=v[:2], b=v[2:], got=comps(d))
        rec.check(comps(e) == (v[2] - v[0], v[3] - v[1]), 'a difference of indices is wrong', a=v[2:], b=v[:2], got=comps(e))
        rec.check(comps(s - b) == comps(a) and comps(d + b) == comps(a), 'a sum and a difference do not cancel', a=v[:2], b=v[2:])
        rec.check(comps(a) == tuple(v[:2]) and comps(b) == tuple(v[2:]), 'arithmetic changed an operand', a=v[:2], b=v[2:])
        r = RelativeIndex(index=a)
        rec.check((r.x_coord(), r.y_coord()) == tuple(v[:2]), 'the relative index of an index has other components', put=v[:2],
                  got=comps(r))
        # an own object: `+=` and a new difference leave the other alone
        c = r
        c += b
        rec.check(comps(c) == comps(s) and comps(a) == tuple(v[:2]), 'adding to a copy is wrong', a=v[:2], b=v[2:])
        text = [int(''.join(ch for ch in t if ch in '-0123456789')) for t in str(a).split(',')]
        rec.check(text == v[:2], 'the text of an index shows other numbers', put=v[:2], got=str(a))
        small = v[0] if abs(v[0]) < 2 ** 63 else v[0] % 2 ** 62
        n, _ = quietly(lambda: A(np.int64(small), np.int32(v[1] % 1000)))
        rec.check(comps(n) == (small, v[1] % 1000), 'whole numbers of numpy are not taken as they are', got=comps(n))
        z = RelativeIndex()
        rec.check(comps(z) == (0, 0), 'a relative index does not start at the origin')
        k = rng.randint(-big, big)
        for w in ((0, k), (k, 0)):
            i = A(*w)
            i.normalize()
            want = tuple((x > 0) - (x < 0) for x in w)
            rec.check(comps(i) == want, 'a direction along an axis is not normalized', put=w, got=comps(i))
    rec.execution(tuple(log))


def live(case, rec):
    from source_py.simulation.index import Index, RelativeIndex
    rng = random.Random(case['seed'])
    L, cls = case['L'], case['cls']
    o, _ = quietly(lambda: classes()[cls](length=L, seed=case['seed']))
    k = rng.randrange(L * L)
    if cls in ('L0', 'base', 'SP'):
        quietly(o.set_custome_site_id_list, gen.order(rng, L)[0])
    for _ in range(k):
        if not o.place_one_site():
            break
        o.detect_wrapping()
    lat = o.lattice_ref
    NB = nb(L)
    pairs = 0
    for s in range(L * L) if L <= 12 else rng.sample(range(L * L), 120):
        rs = comps(lat.get_site_by_id(s).get_relative_index())
        for t, d in NB[s]:
            pairs += 1
            rt = comps(lat.get_site_by_id(t).get_relative_index())
            got = o.get_relative_index(s, t)
            rec.check(comps(got) == (rs[0] + d[0], rs[1] + d[1]), 'the relative position of a neighbor is not one step away', L=L,
                      site=s, neighbor=t, at=rs, step=d, got=comps(got))
            rec.check(comps(lat.get_site_by_id(s).get_relative_index()) == rs and
                      comps(lat.get_site_by_id(t).get_relative_index()) == rt, 'asking for a relative position changed one')
            raw = RelativeIndex(index=lat.get_site_by_id(t).get_index()) - RelativeIndex(index=lat.get_site_by_id(s).get_index())
            fixed = o.wrapping_correction_relative_index(raw)
            rec.check((fixed.x_coord(), fixed.y_coord()) == d, 'the step to a neighbor across the boundary is corrected wrongly',
                      L=L, site=s, neighbor=t, raw=comps(raw), got=comps(fixed), want=d)
            old = RelativeIndex(rng.randint(-50, 50), rng.randint(-50, 50))
            new = RelativeIndex(rng.randint(-50, 50), rng.randint(-50, 50))
            ch = o.get_change_in_relative_index(old, new)
            rec.check(comps(old + ch) == comps(new), 'old position plus change is not the new position', old=comps(old),
                      new=comps(new), got=comps(ch))
    rec.count('pairs', pairs)
    if cls == 'L2':
        for _ in range(60):
            r, c = rng.randint(-2 * L, 3 * L), rng.randint(-2 * L, 3 * L)
            got = o.correct_index_for_periodicity(rng.choice([Index, RelativeIndex])(r, c))
            rec.count('returned')
            rec.check(comps(got) == (r % L, c % L), 'an index is not brought back into the lattice', put=(r, c), L=L, got=comps(got))
    rec.saw('sides', L)
    rec.saw('classes', cls)
    rec.execution((cls, L, k, case['seed']))


def cases(tier, seed):
    rng = random.Random('C35/%s/%s' % (seed, tier))
    n = 60 if tier == 'quick' else 1500
    out = [dict(kind='arithmetic', n=150, seed=rng.randrange(10 ** 6)) for _ in range(n)]
    for i in range(4 * n):
        out.append(dict(kind='live', cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], seed=rng.randrange(10 ** 6),
                        L=3 + i // 5 if i < 60 else rng.choice([3, 4, 5, 6, 7, 8, 12, 16, 25, 40])))
    return out


def run(case, rec):
    globals()[case['kind']](case, rec)
