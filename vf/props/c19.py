"""L2: selection law."""
from .. import law, stats

RULE = ('Realizations of L2 on sides 3..48, of new and of reset objects. At every placement the probability of every '
        'empty site by the law (1 + for each direction 1/4 if the site behind is occupied, and 1/4 if both behind are) is computed from the sites occupied before; '
        'for about 40 features of a site (number and directions of occupied neighbors, across the boundary, age, '
        'rows, columns...), by quarter of the run, side and kind of object, the sum of observed minus expected is '
        'tested (|z| > 7 is a violation). Besides, the next selection is drawn some 1500 times from copies of one state '
        '(early and late, first and later realizations) and compared with the law site by site (chi-square). Execution: '
        'one realization, or one such state; distinct by order or state.')
ROUNDS = 1
NEED = dict(statistics_judged=300, placements=100000, frozen_states=100, frozen_selections=100000)
ASSUMPTIONS = ['side >= 3', 'the generator of Python is random; a false alarm has probability < 1e-8']


def cases(tier, seed):
    return law.cases('L2', tier, seed)


run = law.run


def finalize(agg, rec):
    rep = {}
    try:
        stats.martingales(agg, rec, rep)
        law.frozen_verdict(agg, rec, rep)
    finally:
        agg.report = dict(judged=len(rep), largest=dict(sorted(rep.items(), key=lambda kv: -abs(kv[1]))[:12]))
