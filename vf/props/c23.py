"""Shortest-path ensembles: one row (pc, p*) per realization, in files and over workers."""
import contextlib
import io
import random
import re

import numpy as np

from ..files import kind, listing, now, parse, scratch
from ..logged import close, logged
from ..model import Model
from .c21 import header

RULE = ('The shortest-path ensemble functions are run with a subclass which logs every realization (sides 3..40, '
        '1..150 realizations, with and without seed, several runs in one directory); the rows of the file are compared '
        'with the logged values and with the model of the logged sequence, header and name checked, and the printed '
        'list of the older function likewise. The parallel driver is run with real processes. Execution: one call; '
        'distinct by the sequences.')
NEED = dict(monitor_evaluations=800, rows=400, printed_rows=40, parallel_runs=8, rows_checked_with_model=300)
ASSUMPTIONS = ['./data exists']


def cases(tier, seed):
    rng = random.Random('C23/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 20
    out = [dict(kind='file', L=rng.choice([3, 4, 5, 6, 8, 10, 12, 15]), n=rng.choice([1, 1, 2, 3, 5, 8, 20]),
                th=rng.choice([0, 0, 1, 2, 11]), seed=rng.randrange(10 ** 9), own_seed=rng.choice([None, None, 0, 5]),
                repeat=rng.choice([1, 2])) for i in range(110 * k)]
    out += [dict(kind='file', L=L, n=n, th=0, seed=rng.randrange(10 ** 9), own_seed=None, repeat=1)
            for L, n in ((25, 3), (40, 2), (4, 150))]
    out += [dict(kind='printed', L=rng.choice([3, 4, 6, 9]), n=rng.choice([1, 3, 8]), seed=rng.randrange(10 ** 9))
            for i in range(20 * k)]
    out += [dict(kind='parallel', L=rng.choice([4, 5, 6]), n=n, workers=w, seed=rng.randrange(10 ** 9))
            for n, w in ((1, 1), (6, 2), (7, 2), (7, 3), (2, 5), (11, 4), (16, 8), (9, 1), (10, 3), (13, 5))
            for _ in range(k)]
    out += [dict(kind='parallel', L=L, n=n, workers=w, seed=rng.randrange(10 ** 9)) for L, n, w in ((16, 6, 4), (4, 70, 3))]
    out += [dict(kind='printed', L=L, n=n, seed=rng.randrange(10 ** 9)) for L, n in ((20, 3), (3, 120))]
    return sorted(out, key=lambda c: -c['L'] ** 2 * c['n'])


def run(case, rec):
    from run_py import shortest_path_run as R
    random.seed(case['seed'])
    L, n, N = case['L'], case['n'], case['L'] ** 2
    with scratch():
        if case['kind'] == 'printed':
            log = []
            old = R.ShortestPathAfter_pc
            R.ShortestPathAfter_pc = logged('SP', log)
            buf = io.StringIO()
            try:
                with contextlib.redirect_stdout(buf):
                    R.ensemble_shortest_path_v1(L, n)
            finally:
                R.ShortestPathAfter_pc = old
            got = [float(x) for x in re.findall(r'p\*=\s+([0-9.e-]+)', buf.getvalue())]
            if not log:
                rec.count('printed_rows_not_logged', n)
                rec.check(len(got) == n, 'printed list has a wrong length', got=len(got))
                return
            rec.check(got == [r['p_star'] for r in log] and len(got) == n, 'printed values are not those of the '
                      'realizations', got=got, want=[r['p_star'] for r in log])
            rec.count('printed_rows', n)
            rec.execution(('printed', [r['order'] for r in log]))
            return
        if case['kind'] == 'parallel':
            since = now()
            R.run_simulation_shortest_path_threads(L, n, thread=case['workers'])
            names = listing()
            rec.check(all(kind(f) == 'shortest_path_p' for f in names), 'unexpected files', got=names)
            total, tables = 0, []
            for f in names:
                head, t = parse('data/' + f)
                header(rec, head, L, len(t), f, since)
                rec.check(t.shape[1] == 2, 'wrong number of columns', got=t.shape)
                rec.check(bool((t[:, 1] >= t[:, 0] - 1e-12).all() and (t[:, 0] > 0).all() and (t <= 1).all()),
                          'rows are not 0 < pc <= p* <= 1', rows=t.tolist())
                steps = t * N
                rec.check(bool(np.all(np.abs(steps - np.round(steps)) < 1e-6)), 'values are not multiples of 1/N')
                total += len(t)
                tables.append(t.tolist())
            rec.check(total == n, 'the workers together made another number of realizations', got=total, want=n)
            rec.check(len(names) == min(n, case['workers']), 'there is not one file per worker', got=names)
            rec.count('parallel_runs')
            rec.execution(('parallel', L, n, case['workers'], tables))
            rec.saw('split', (n, case['workers']))
            return
        for rep in range(case['repeat']):
            before = set(listing())
            log = []
            kw = {} if case['own_seed'] is None else dict(seed=case['own_seed'])
            since = now()
            R.ensemble_shortest_path_v2_thread(logged('SP', log), L, n, case['th'], **kw)
            new = sorted(set(listing()) - before)
            rec.check(len(new) == 1 and kind(new[0]) == 'shortest_path_p', 'other files than expected', got=new)
            head, t = parse('data/' + new[0])
            header(rec, head, L, n, new[0], since)
            rec.check(head['columns'] == ['pc', 'p*'], 'column names are wrong', got=head['columns'])
            rec.check(new[0].startswith('SitePercolationshortest_path_') and '_L%d_' % L in new[0] and
                      '_th%d' % case['th'] in new[0], 'file name is wrong', got=new[0])
            rec.check(len(log) == n, 'another number of realizations was made', got=len(log), want=n)
            rows = [[r['pc'], r['p_star']] for r in log]
            rec.check(t.shape == (n, 2) and close(t, rows), 'rows of the file are not those of the realizations',
                      got=t[:3].tolist(), want=rows[:3])
            rec.count('rows', n)
            for r in log:
                rec.check(r['start'] == 0, 'a realization does not start from the empty lattice')
                m = Model(L)
                for s in r['order']:
                    m.place(s)
                    if m.p_star:
                        break
                rec.check((r['pc'], r['p_star'], r['p']) == (m.pc / N, m.p_star / N, m.p_star / N),
                          'values of a realization are not those of its sequence', got=(r['pc'], r['p_star'], r['p']),
                          want=(m.pc / N, m.p_star / N), order=r['order'])
                rec.count('rows_checked_with_model')
            if N >= 16:
                rec.check(len({r['order'] for r in log}) == n, 'realizations are repeated')
            rec.execution(('file', L, [r['order'] for r in log]))
    rec.sample(case)
