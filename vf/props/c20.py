"""Shortest path: the first p with a complete row or column inside the first wrapping cluster."""
import random

from .. import gen
from ..sut import Monitor, Session, classes, history

RULE = ('Runs of the shortest-path class with orders of all families (two wrapping clusters bridged later, complete '
        'lines outside of the wrapping cluster, lines completed together with the wrapping, by a join, or last) and '
        'random ones, new and reset objects, partial lists. The value and the step at which the run stops are compared '
        'with the model, which keeps the clusters and the complete lines. Execution: one run; non-trivial: a path is '
        'found after the wrapping step; distinct by order.')
NEED = dict(line_scans=500, runs_again=20, monitor_evaluations=1000, paths=300, paths_by_join=10, no_path=30, at_wrapping=10, resets=50)
ASSUMPTIONS = ['side >= 3']


class Path(Monitor):
    found = None

    def run_end(self):
        s, m, rec = self.s, self.s.m, self.rec
        if self.found == (len(m.order), m.order[-1:]):
            rec.count('runs_again')
        self.found = (len(m.order), m.order[-1:])
        got = s.obj.get_shortest_path_p()
        want = (m.p_star or 0) / s.N
        rec.check(abs(got - want) < 1e-12, 'p* is wrong', got=got, want=want, pc=m.pc, order=m.order, L=s.L)
        if m.p_star:
            rec.check(len(m.order) == m.p_star, 'the run did not stop at p*', stopped=len(m.order), want=m.p_star)
            rec.check(got >= s.obj.get_pc() > 0, 'p* is below pc', got=got, pc=s.obj.get_pc())
            rec.count('paths')
            r, c = divmod(m.order[-1], s.L)
            root = m.find(m.order[-1])
            on_line = all(m.occ[r * s.L + j] for j in range(s.L)) or all(m.occ[j * s.L + c] for j in range(s.L))
            if not on_line:
                rec.count('paths_by_join')
            if m.p_star == m.pc:
                rec.count('at_wrapping')
        else:
            rec.count('no_path')

    def was_reset(self):
        self.rec.check(self.s.obj.get_shortest_path_p() == 0, 'p* is not zero after reset')


def cases(tier, seed):
    rng = random.Random('C20/%s/%s' % (seed, tier))
    out = []
    k = 1 if tier == 'quick' else 25
    for i in range(700 * k):
        L = rng.choice([3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15])
        ops = []
        for j in range(rng.choice([1, 1, 2, 3])):
            if j or rng.random() < .5:
                ops.append(['reset'])
            fam = rng.choice(['two_bands', 'two_bands', 'stripes', 'helix', 'comb', 'cross_last', None, None])
            o = None
            if rng.random() < .8:
                o, _ = gen.order(rng, L, fam)
                if rng.random() < .25:
                    o = o[:rng.randrange(1, len(o) + 1)]
                ops.append(['ids', o])
            if o and len(o) > 2 and rng.random() < .2:      # the list is continued later
                ops[-1:] = [['ids', o[:rng.randrange(1, len(o))]], ['run'], ['ids', o]]
            ops.append(['run'])
            if rng.random() < .2:
                ops += [['run']] * rng.choice([1, 2])
            if rng.random() < .3:
                ops.append(['look'])
        out.append(dict(L=L, seed=rng.choice([None, rng.randrange(10 ** 6)]), ops=ops))
    for L in (20, 25, 32, 40, 50, 64):
        for i in range(2 * min(k, 5)):
            o, _ = gen.order(rng, L, rng.choice(['two_bands', 'stripes', 'random', 'helix']))
            out.append(dict(L=L, seed=None, ops=[['ids', o], ['run']]))
        out.append(dict(L=L, seed=rng.randrange(10 ** 6), ops=[['reset'], ['run'], ['reset'], ['run']]))
    out.append(dict(L=260, seed=rng.randrange(10 ** 6), ops=[['reset'], ['run']]))
    return sorted(out, key=lambda c: -c['L'])


def run(case, rec):
    s = Session(rec, 'SP', case['L'], case['seed'], [Path()])
    for op in case['ops']:
        if op[0] == 'reset' and s.m.order:
            log(rec, s)
        if op[0] == 'look':
            look(s, rec)
        else:
            s.play([op])
    log(rec, s)


def look(s, rec):
    """the scans for lines, at p* and on further single placements"""
    from source_py.simulation.index import Index
    m, L = s.m, s.L
    rng = random.Random(len(m.order) * 31 + L)
    while True:
        if m.pc:
            root = m.find(m.wrap_site)
            inside = [m.occ[x] and m.find(x) == root for x in range(s.N)]
            rows = [all(inside[r * L + c] for c in range(L)) for r in range(L)]
            cols = [all(inside[r * L + c] for r in range(L)) for c in range(L)]
            rec.check(bool(s.obj.scan_all_rows() or s.obj.scan_all_cols()) == any(rows + cols), 'the scan of all lines is wrong',
                      rows=rows, columns=cols, order=m.order, L=L)
            for _ in range(3):
                r, c = rng.randrange(L), rng.randrange(L)
                a = s.obj.scan_row_col_of_selected_site(Index(r, c))
                rec.check(sorted(map(bool, a)) == sorted([rows[r], cols[c]]), 'the scan of the lines through a site is wrong', site=(r, c),
                          got=a, row=rows[r], column=cols[c], order=m.order, L=L)
                rec.count('line_scans')
        for _ in range(1 + s.N // 40):
            if not s.step(1):
                return


def log(rec, s):
    rec.execution((s.L, tuple(s.m.order)), s.m.p_star is not None and s.m.p_star > s.m.pc)
    rec.sample(dict(L=s.L, order=s.m.order[:30], pc=s.m.pc, p_star=s.m.p_star))
