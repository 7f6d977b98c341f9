"""Ensemble files hold the averages and critical values of the realizations, correctly labelled."""
import os
import random
import re

import numpy as np

from ..files import kind, listing, now, parse, scratch, stamps
from ..logged import close, logged
from ..model import Model
from ..sut import classes

RULE = ('The three ensemble functions are run with a subclass which logs every realization, for all classes, sides '
        '3..36, ensemble sizes 1..300, thread numbers 0..65 and several runs in one process and directory. From the '
        'files: the table of averages equals the mean of the logged arrays (relative 3e-10, the printed digits), the '
        'critical rows equal the logged values in order, header and labels describe them, and each realization is '
        'complete, starts from an empty lattice, differs from the others and agrees with the model of its sequence. '
        'Execution: one call; distinct by the sequences in it.')
NEED = dict(monitor_evaluations=1000, tables=100, critical_rows=400, realizations=500)
ASSUMPTIONS = ['./data exists']

SIGNATURES = dict(L0='SitePercolationL0_', L1='SitePercolationL1_', L2='SitePercolationL2_', base='SitePercolation')


def cases(tier, seed):
    rng = random.Random('C21/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 20
    out = []
    for i in range(200 * k):
        out.append(dict(cls=['L0', 'L1', 'L2', 'base'][i % 4], L=rng.choice([3, 4, 5, 6, 7, 8, 10, 12]),
                        f=['one', 'threads', 'v2'][i % 3], n=rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 16]),
                        th=rng.choice([0, 0, 1, 2, 3, 10, 12]), seed=rng.randrange(10 ** 9),
                        own_seed=rng.choice([None, None, 0, 1, 77]), repeat=rng.choice([1, 1, 2])))
    out += [dict(cls=c, L=L, f='v2', n=n, th=1, seed=rng.randrange(10 ** 9), own_seed=None, repeat=1)
            for c, L, n in (('L0', 20, 3), ('L1', 16, 3), ('L0', 5, 101), ('L2', 4, 40), ('L0', 32, 2), ('L0', 3, 300))]
    out += [dict(cls=c, L=L, f=f, n=n, th=th, seed=rng.randrange(10 ** 9), own_seed=None, repeat=1)
            for c, L, f, n, th in (('L0', 3, 'one', 130, 0), ('L1', 4, 'threads', 110, 65), ('L2', 3, 'threads', 260, 4),
                                   ('L1', 24, 'one', 2, 0), ('L2', 24, 'threads', 2, 3), ('base', 36, 'one', 1, 0))]
    return sorted(out, key=lambda c: -c['L'] ** 2 * c['n'])


def call(case, cls):
    from run_py import ensemble
    if case['f'] == 'one':
        ensemble.run_ensemble_entropy_order(cls, case['L'], case['n'])
    elif case['f'] == 'threads':
        ensemble.run_ensemble_entropy_order_threads(cls, case['L'], case['n'], case['th'])
    elif case['own_seed'] is None:
        ensemble.run_ensemble_entropy_order_threads_v2(cls, case['L'], case['n'], case['th'])
    else:
        ensemble.run_ensemble_entropy_order_threads_v2(cls, case['L'], case['n'], case['th'], seed=case['own_seed'])


def header(rec, head, L, n, name, since):
    stamps(rec, name, head, since)
    rec.check(head['length'] == head['L'] == L, 'side in the header is wrong', file=name, got=(head['length'], head['L']))
    rec.check(head['ensemble_size'] == head['En'] == n, 'number of realizations in the header is wrong', file=name,
              got=(head['ensemble_size'], head['En']), want=n)
    rec.check(bool(re.fullmatch(r'\d{4}\.\d\d\.\d\d', head['date'])) and
              bool(re.fullmatch(r'\d\d:\d\d:\d\d', head['time'])), 'date or time in the header is wrong', file=name)


def run(case, rec):
    random.seed(case['seed'])
    L, n, N = case['L'], case['n'], case['L'] ** 2
    with scratch():
        for rep in range(case['repeat']):
            before = set(listing())
            log = []
            since = now()
            call(case, logged(case['cls'], log))
            new = sorted(set(listing()) - before)
            files = {kind(f): f for f in new}
            want = {'entropy_order', 'critical_values'} if case['f'] != 'threads' else {'entropy_order'}
            rec.check(set(files) == want and len(new) == len(want), 'other files than expected were written', got=new)
            rec.check(len(log) == n, 'another number of realizations was made than asked for', got=len(log), want=n)
            for i, r in enumerate(log):
                rec.count('realizations')
                rec.check(r['start'] == 0, 'a realization does not start from the empty lattice', number=i)
                rec.check(r['data'].shape == (N, 4), 'a realization is not complete', number=i, shape=r['data'].shape)
            if N >= 16:
                rec.check(len({r['order'] for r in log}) == n, 'realizations of the ensemble are repeated')
            # each realization against the model of its own sequence
            pick = random.Random(case['seed'])
            for r in pick.sample(log, min(3, n)):
                m = Model(L).run(r['order'])
                rec.check(close(r['data'], m.curve, 1e-6) and r['pc'] == m.pc / N and r['sites'] == m.pc_sites and
                          r['bonds'] == m.pc_bonds, 'a realization is not that of its sequence')
            name = files['entropy_order']
            head, t = parse('data/' + name)
            header(rec, head, L, n, name, since)
            mean = sum(r['data'] for r in log) / n
            rec.check(t.shape == (N, 4), 'table of averages has a wrong shape', got=t.shape)
            rec.check(close(t, mean), 'the table is not the average of the realizations', file=name,
                      worst=float(np.abs(t - mean).max()), n=n)
            rec.check(close(t[:, 0], [(k + 1) / N for k in range(N)]), 'first column is not k/N', got=list(t[:4, 0]))
            rec.count('tables')
            rec.check(head['columns'] == ['p', 'H', 'P1', 'P2'], 'column names are wrong', got=head['columns'])
            desc = dict(x.split('=', 1) for x in head['desc'])
            curve = {'p': 0, 'H': 1}
            for c in ('P1', 'P2'):
                d = desc[c].lower()
                rec.check(('largest' in d) != ('wrapping' in d), 'description of a column is unclear', column=c, desc=d)
                curve[c] = 2 if 'largest' in d else 3
            rec.check('occupation' in desc['p'] and 'entropy' in desc['H'], 'description of the columns is wrong',
                      desc=desc)
            for j, c in enumerate(head['columns']):
                rec.check(close(t[:, j], mean[:, curve[c]]), 'a column is not what its description says', column=c,
                          desc=desc[c], file=name)
            for f in new:
                if case['f'] != 'one':
                    rec.check(re.findall(r'_th(\d+)(?=[._])', f) == [str(case['th'])],
                              'file name does not carry the number of the worker', file=f)
                rec.check(f.startswith(SIGNATURES[case['cls']]) and '_L%d_' % L in f, 'file name is wrong', file=f)
            if 'critical_values' in files:
                head, t = parse('data/' + files['critical_values'])
                header(rec, head, L, n, files['critical_values'], since)
                rows = [[r['pc'], r['sites'], r['bonds']] for r in log]
                rec.check(t.shape == (n, 3), 'there is not one row of critical values per realization', got=t.shape,
                          want=n)
                rec.check(close(t, rows), 'critical values in the file are not those of the realizations',
                          got=t[:3].tolist(), want=rows[:3])
                rec.check(len(head['columns']) == 3 and head['columns'][0] == 'pc' and 'site' in head['columns'][1] and
                          'bond' in head['columns'][2], 'columns of critical values are mislabelled',
                          got=head['columns'])
                rec.count('critical_rows', n)
            rec.execution((case['f'], case['cls'], L, [r['order'] for r in log]))
    rec.saw('functions', case['f'] + '/' + case['cls'])
    rec.sample(case)
