"""L0: all orders of occupation are equally probable, in every realization, independently."""
import random

from .. import stats
from ..sut import classes

RULE = ('Very many realizations of small lattices, each first realization of new objects and later ones after reset, also of objects with seed; '
        'the order of occupation is read from the lattice after every step. Tables of site by step, of first and '
        'second site, last two sites and first sites of successive realizations (side 3), site by tenth of the run '
        '(sides 10 to 40), successive sites which are near, in one half, row, column or of one parity, fixed points and inversions between successive orders are tested against the uniform '
        'distribution (|z| > 7 is a violation). Execution: one realization; distinct by order.')
ROUNDS = 1
NEED = dict(statistics_judged=20, realizations=20000)
ASSUMPTIONS = ['the generator of Python is random; a false alarm has probability < 1e-8']
CL = ('L0', 'base')


BINS = {10: 10, 16: 8, 24: 8, 33: 8, 40: 8}


def cases(tier, seed):
    out = []
    rng = random.Random('C17/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 30
    for i in range(36 * k):
        out.append(dict(kind='small', cls=CL[i % 2], how=['fresh', 'reset', 'seeded'][i // 2 % 3], n=3500,
                        seed=rng.randrange(10 ** 9)))
    for i in range(16 * k):
        out.append(dict(kind='large', cls=CL[i % 2], how=['fresh', 'reset', 'seeded', 'reset'][i // 2 % 4], L=10, n=200 if i // 2 % 4 == 0
                        else 500, seed=rng.randrange(10 ** 9)))
    for i in range(12 * k):
        out.append(dict(kind='large', cls=CL[i % 2], how=['fresh', 'reset', 'seeded'][i // 2 % 3], L=[16, 24][i % 4 // 2],
                        n=[150, 50][i % 4 // 2], seed=rng.randrange(10 ** 9)))
    for i in range(12 * k):
        out.append(dict(kind='large', cls=CL[i % 2], how=['fresh', 'reset', 'seeded'][i // 2 % 3], L=[33, 40][i % 4 // 2],
                        n=30, seed=rng.randrange(10 ** 9)))
    for i in range(4 * k):
        out.append(dict(kind='stop', cls='SP', how='reset', n=1500, seed=rng.randrange(10 ** 9)))
    return out


def play(o, N, steps=None):
    """the order in which the sites are occupied, seen on the lattice"""
    g = o.lattice_ref.get_site_gid_by_id
    empty = list(range(N))
    order = []
    while len(order) != steps and o.place_one_site():
        o.detect_wrapping()
        for s in empty:
            if g(s) >= 0:
                order.append(s)
                empty.remove(s)
                break
    return order


def run(case, rec):
    random.seed(case['seed'])
    cls, how = case['cls'], case['how']
    L = case.get('L', 3)
    N = L * L
    key = '%s/%s' % (cls, how)
    make = classes()[cls]
    # an object with seed has a random order like any other, each time
    o = make(length=L, seed=case['seed']) if how == 'seeded' else make(length=L)
    prev = None
    bins = BINS.get(L, N)
    pos = [0] * (N * bins)
    near = alike = half = row = col = 0.0
    pair, last, succ = [0] * 81, [0] * 81, [0] * 81
    fixed = inv = m = 0
    for i in range(case['n']):
        if how == 'fresh':
            o = make(length=L)
        else:
            o.reset()
        if case['kind'] == 'small':
            order = play(o, N)
        elif case['kind'] == 'stop':
            o.run_once()       # aborted realizations in between
            k = round(o.occupation_prob() * N)
            order = list(o.get_site_id_sequence())
        else:
            if i % 10 == 0 and (L < 30 or i == 0):
                order = play(o, N)
            else:
                order = list(o.get_site_id_sequence())
        rec.count('realizations')
        if sorted(order) != list(range(N)):
            rec.violation('an order is not complete', order=order)
        if i < 300 or L > 3:
            rec.execution(tuple(order))
        if L == 3:
            for t, s in enumerate(order):
                pos[t * N + s] += 1
            pair[order[0] * 9 + order[1]] += 1
            last[order[-1] * 9 + order[-2]] += 1
            if prev:
                succ[prev[0] * 9 + order[0]] += 1
        else:
            for t, s in enumerate(order):
                pos[s * bins + t * bins // N] += 1
            for a, b in zip(order, order[1:]):
                near += (b - a) % N in (1, L, N - 1, N - L)
                alike += (a - b) % 2 == 0
                half += (a < N // 2) == (b < N // 2)
                row += a // L == b // L
                col += (a - b) % L == 0
        if prev:
            m += 1
            fixed += sum(a == b for a, b in zip(prev, order)) - 1
            if L == 3:
                rank = {s: t for t, s in enumerate(prev)}
                q = [rank[s] for s in order]
                inv += sum(q[a] > q[b] for a in range(N) for b in range(a + 1, N)) - N * (N - 1) / 4
        prev = order
    rec.add('pos/%d/%s' % (L, key), pos)
    if L == 3:
        rec.add('pair/' + key, pair)
        rec.add('last/' + key, last)
        rec.add('succ/' + key, succ)
        rec.add('m/inversions/' + key, [inv, m * N * (N - 1) * (2 * N + 5) / 72, m])
    if L > 3:
        # successive sites: ids 1 or L apart (4 of N - 1), ids of the same parity
        n = case['n']
        rec.add('m/successive sites close to each other/%d/%s' % (L, key), [near - 4 * n, 4.0 * n, n])
        e, f = N - N // 2, N // 2
        mean, var = (e * (e - 1) + f * (f - 1)) / N, 2 * e * f * (2 * e * f - N) / (N * N * (N - 1))
        rec.add('m/successive sites of one parity/%d/%s' % (L, key), [alike - n * mean, n * var, n])
        rec.add('m/successive sites of one half/%d/%s' % (L, key), [half - n * mean, n * var, n])
        rec.add('m/successive sites of one row/%d/%s' % (L, key), [row - n * (L - 1), n * (L - 1.0), n])
        rec.add('m/successive sites of one column/%d/%s' % (L, key), [col - n * (L - 1), n * (L - 1.0), n])
    rec.add('m/fixed points/%d/%s' % (L, key), [fixed, m, m])
    rec.sample(dict(cls=cls, how=how, last=order))


def finalize(agg, rec):
    rep = agg.report = {}
    for name, t in sorted(agg.sums.items()):
        n = sum(t)
        if name.startswith('pos/3/'):
            z = stats.chi2_z(8 / 9 * stats.table(t, n / 81), 64)
        elif name.startswith('pos/'):
            # site by part of the run, margins fixed
            L = int(name.split('/')[1])
            N, bins = L * L, BINS[L]
            z = stats.chi2_z((N - 1) / N * stats.table(t, n / N / bins), (N - 1) * (bins - 1))
        elif name.startswith(('pair/', 'last/')):
            if any(t[i * 9 + i] for i in range(9)):
                rec.violation('a site twice in an order')
            z = stats.chi2_z(stats.table([c for i, c in enumerate(t) if i // 9 != i % 9], n / 72), 71)
        elif name.startswith('succ/'):
            z = stats.chi2_z(stats.table(t, n / 81), 80)
        else:
            continue
        stats.verdict(rec, rep, name, z, [int(x) for x in t[:81]])
    stats.martingales(agg, rec, rep)
