"""Thresholds: the distribution of the critical probabilities, against that of the laws themselves."""
import json
import math
import os
import random

from .. import stats
from ..files import kind, listing, parse, scratch
from ..sut import classes

RULE = ('Many realizations of every model on sides 8, 16, 32 and 64, of new objects, of one object reset again and again, '
        'stepped to the wrapping or run completely, and through the ensemble functions and the parallel driver (read '
        'from their files). Oracle: vf/thresholds.jsonl, distributions from a program of its own (tools/reference.c: '
        'union-find with displacements, 2e5 to 4e6 realizations each); for the non-interacting model its probability to wrap at '
        'p = 0.592746 is 0.690 on all sides, as known exactly. Tested are mean, spread and the shares of about 11 to 16 '
        'intervals of pc (|z| > 7 is a violation), by model, side and source. Execution: one realization; distinct by '
        'model, side and place in its case.')
ROUNDS = 1
NEED = dict(statistics_judged=60, realizations=20000)
ASSUMPTIONS = ['the generator of Python is random; a false alarm has probability < 1e-8']
PC = 0.59274605


def reference():
    ref = {}
    for line in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'thresholds.jsonl')):
        d = json.loads(line)
        ref[['L0', 'L1', 'L2'][d['model']], d['side']] = d
    return ref


REF = reference()
LAW = dict(L0='L0', base='L0', SP='L0', L1='L1', L2='L2')


def cases(tier, seed):
    rng = random.Random('C32/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 16
    out = []
    for cls in ('L0', 'base', 'L1', 'L2', 'SP'):
        few = 2 if cls in ('base', 'SP') else 1
        for L, n, reps in ((8, 500, 10), (16, 200, 12), (32, 60, 12), (64, 12, 12)):
            for i in range(max(1, reps * k // few)):
                out.append(dict(cls=cls, L=L, n=n, how=['steps', 'steps', 'runs', 'fresh'][i % 4] if cls != 'SP' else 'runs',
                                seed=rng.randrange(10 ** 9)))
    for i in range(12 * k):
        out.append(dict(cls=['L0', 'L1', 'L2'][i % 3], L=[8, 16][i // 3 % 2], n=[300, 80][i // 3 % 2], how=['ensemble', 'driver'][i // 6 % 2],
                        seed=rng.randrange(10 ** 9)))
    return sorted(out, key=lambda c: -c['L'] ** 2 * c['n'])


def values(case):
    """the critical probabilities of realizations"""
    cls, L, n, how = case['cls'], case['L'], case['n'], case['how']
    random.seed(case['seed'])
    if how in ('ensemble', 'driver'):
        with scratch():
            if how == 'ensemble':
                from run_py import ensemble
                ensemble.run_ensemble_entropy_order_threads_v2(classes()[cls], L, n, 0)
            else:
                from run_py import rsbd_percolatioin_run as R
                R.run_simulation_threads_v4(L, n, 2, int(cls[1]))
            for f in listing():
                if kind(f) == 'critical_values':
                    for row in parse('data/' + f)[1]:
                        yield float(row[0])
        return
    o = None
    for i in range(n):
        if o is None or how == 'fresh':
            o = classes()[cls](length=L)
        else:
            o.reset()
        if how == 'runs':
            o.run_once()
        else:
            while o.place_one_site() and not o.detect_wrapping():
                pass
        yield o.get_pc()


def run(case, rec):
    cls, L, how = case['cls'], case['L'], case['how']
    N = L * L
    ref = REF[LAW[cls], L]
    tops = [b for b, _ in ref['bins']]
    cdf = above(N)
    count = [0] * len(tops)
    got, wrap, n, last = 0.0, 0.0, 0, None
    for p in values(case):
        k = round(p * N)
        if abs(k - p * N) > 1e-6 * N or not 1 <= k <= N:
            rec.violation('a critical probability is no number of sites over all sites', got=p, L=L, cls=cls, how=how)
        n += 1
        got += p - ref['mean']
        wrap += cdf[k] - ref['share']
        count[next(i for i, t in enumerate(tops) if k <= t)] += 1
        rec.execution([case['seed'], cls, L, n])
        last = p
    rec.check(n == case['n'], 'the critical values of some realizations are missing', got=n, want=case['n'], how=how)
    rec.count('realizations', n)
    for key in ('%s/%d/%s' % (cls, L, how), '%s/%d/all' % (cls, L)):
        rec.add('m/mean pc/' + key, [got, n * ref['sd'] ** 2, n])
        if LAW[cls] == 'L0':
            rec.add('m/probability to wrap at 0.592746/' + key, [wrap, n * ref['share_sd'] ** 2, n])
        rec.add('bins/' + key, count)
    if LAW[cls] == 'L0':
        rec.add('share/%d' % L, [wrap + n * ref['share'], n])
    rec.saw('sides', L)
    rec.sample(dict(case, last_pc=last))


def above(N, _cache={}):
    """P(Binomial(N, PC) >= n) for all n"""
    if N not in _cache:
        acc, out = 0.0, [0.0] * (N + 1)
        for n in range(N, -1, -1):
            acc += math.exp(math.lgamma(N + 1) - math.lgamma(n + 1) - math.lgamma(N - n + 1) + n * math.log(PC) + (N - n) * math.log1p(-PC))
            out[n] = acc
        _cache[N] = out
    return _cache[N]


def finalize(agg, rec):
    rep = {}
    try:
        stats.martingales(agg, rec, rep, min_var=0.0)
        for name, t in sorted(agg.sums.items()):
            if name.startswith('bins/'):
                cls, L, how = name[5:].split('/')
                n = sum(t)
                share = [q for _, q in REF[LAW[cls], int(L)]['bins']]
                if n * min(share) < 5:
                    continue
                x = sum((c - n * q) ** 2 / (n * q) for c, q in zip(t, share))
                stats.verdict(rec, rep, 'distribution of pc/' + name[5:], max(0.0, stats.chi2_z(x, len(t) - 1)), '%d realizations' % n)
    finally:
        agg.report = dict(judged=len(rep), largest=dict(sorted(rep.items(), key=lambda kv: -abs(kv[1]))[:10]),
                          probability_to_wrap_at_0592746={k[6:]: [round(v[0] / v[1], 4), v[1]] for k, v in sorted(agg.sums.items())
                                                          if k.startswith('share/')})
