"""Symmetries of the lattice leave all results unchanged."""
import random

from .. import gen
from ..observe import curves, scalars
from ..sut import classes

RULE = ('The same order of occupation (15 shape families and random orders) is run as it is and moved by all kinds of '
        'symmetries of the periodic lattice: translations by every vector, reflections, rotations, transposition, and '
        'products of them, on new and on used objects; curves, critical values and p* must be the same, the final '
        'clusters must correspond. Two runs are one execution; non-trivial: the order wraps; distinct by order and '
        'symmetry.')
NEED = dict(monitor_evaluations=3000, pairs=1000, translations_by_all_vectors=8, rotations=100, reflections=100, p_star_pairs=100)
ASSUMPTIONS = ['side >= 3', 'tolerance 1e-9 for the real-valued columns']


def cases(tier, seed):
    rng = random.Random('C28/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 25
    out = []
    for i in range(120 * k):
        cls = ['L0', 'SP', 'L0', 'base'][i % 4]
        L = rng.choice([3, 4, 5, 6, 7, 8, 9, 11])
        o, fam = gen.order(rng, L)
        out.append(dict(kind='mixed', cls=cls, L=L, order=o, fam=fam, seed=rng.randrange(10 ** 9), n=8))
    for i in range(10 * k):
        L = [3, 4, 5, 6, 7][i % 5]
        o, fam = gen.order(rng, L)
        out.append(dict(kind='all', cls=['L0', 'SP'][i % 2], L=L, order=o, fam=fam, seed=rng.randrange(10 ** 9)))
    for i in range(60 * k):
        L = rng.choice([6, 7, 8, 9, 10])
        fam = rng.choice(['two_bands', 'two_bands', 'stripes', 'helix', 'cross_last'])
        o, _ = gen.order(rng, L, fam)
        out.append(dict(kind='mixed', cls='SP', L=L, order=o, fam=fam, seed=rng.randrange(10 ** 9), n=12))
    for L in (20, 32):
        o, fam = gen.order(rng, L)
        out.append(dict(kind='mixed', cls='L0', L=L, order=o, fam=fam, seed=rng.randrange(10 ** 9), n=2))
    return sorted(out, key=lambda c: -c['L'])


def move(L, s, t):
    r, c = divmod(s, L)
    if t[0] & 1:
        r = -r
    if t[0] & 2:
        c = -c
    if t[0] & 4:
        r, c = c, r
    return (r + t[1]) % L * L + (c + t[2]) % L


def results(o, cls, L, order, split=None):
    o.set_custome_site_id_list(order)
    o.run_once()
    d = scalars(o)
    if cls != 'SP':
        d.update(curves(o))
    lat = o.lattice_ref
    g = [lat.get_site_gid_by_id(i) for i in range(L * L)]
    return d, g


def partition(g):
    blocks = {}
    for i, x in enumerate(g):
        if x >= 0:
            blocks.setdefault(x, []).append(i)
    return blocks.values()


def same(a, b):
    if isinstance(a, tuple):
        return len(a) == len(b) and all(abs(x - y) < 1e-9 for x, y in zip(a, b))
    return a == b or abs(a - b) < 1e-9


def run(case, rec):
    rng = random.Random(case['seed'])
    cls, L, order = case['cls'], case['L'], case['order']
    if case['kind'] == 'mixed' and rng.random() < .3:
        order = order[:rng.randrange(1, len(order) + 1)]
    C = classes()[cls]
    d0, g0 = results(C(length=L), cls, L, order)
    used = C(length=L)
    ts = [(0, i, j) for i in range(L) for j in range(L)] + [(k, 0, 0) for k in range(8)] if case['kind'] == 'all' else \
        [(rng.randrange(8), rng.randrange(L), rng.randrange(L)) for _ in range(case['n'])]
    for t in ts:
        o = C(length=L) if rng.random() < .4 else used
        if o is used:
            used.reset()
        d, g = results(o, cls, L, [move(L, s, t) for s in order])
        for k in d0:
            rec.check(same(d0[k], d[k]), 'a result changes under a symmetry of the lattice', what=k, symmetry=t, cls=cls,
                      got=d[k], before=d0[k], order=order)
        want = {frozenset(move(L, s, t) for s in b) for b in partition(g0)}
        rec.check({frozenset(b) for b in partition(g)} == want, 'the clusters do not correspond under a symmetry',
                  symmetry=t, order=order)
        rec.count('pairs')
        rec.count('rotations' if t[0] & 4 else 'reflections' if t[0] else 'translations')
        if cls == 'SP':
            rec.count('p_star_pairs')
        rec.saw('symmetry', t[0])
        rec.execution((cls, L, order, t), d0['pc'] > 0)
    if case['kind'] == 'all':
        rec.count('translations_by_all_vectors')
    rec.saw('families', case['fam'])
    rec.sample(dict(cls=cls, L=L, order=order[:12], symmetries=ts[:4], pc=d0['pc']))
