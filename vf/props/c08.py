"""Incremental entropy equals the entropy of the cluster size distribution."""
import math

from ..sut import Monitor, run_history, standard_cases

TOL = 1e-8
RULE = ('Histories as in C02, up to hundreds of resets on one object. After every placement the incremental entropy '
        '(and, sampled, the direct one) is compared with -sum mu ln mu over the bond fractions of all clusters '
        'computed with exact summation by the model; initially ln(2 L^2), at the end 0, never increasing. '
        'Execution: one realization; non-trivial: some join of several clusters; distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, curve_rows=1000, direct_entropies=500, joins_of_4_clusters=5, resets=20)
ASSUMPTIONS = ['side >= 2', 'tolerance %g absolute' % TOL]


class Entropy(Monitor):
    def started(self):
        self.n = 0
        self.initial()

    def was_reset(self):
        self.initial()

    def initial(self):
        want = math.log(2 * self.s.N)
        for f in (self.s.obj.entropy, self.s.obj.entropy_v1, self.s.obj.entropy_v2):
            self.rec.check(abs(f() - want) < TOL, 'entropy of the empty lattice is wrong', got=f(), want=want)
        self.prev = want

    def placed(self, site):
        o, m, rec = self.s.obj, self.s.m, self.rec
        self.n += 1
        H, want = o.entropy(), m.curve[-1][1]
        rec.check(abs(H - want) < TOL, 'entropy is wrong', got=H, want=want, step=len(m.order), order=m.order)
        rec.check(H <= self.prev + TOL, 'entropy increases', got=H, before=self.prev, order=m.order)
        self.prev = H
        if self.n % (3 if self.s.L < 14 else max(400, self.s.N // 20)) == 0:
            rec.count('direct_entropies')
            rec.check(abs(o.entropy_v1() - want) < TOL, 'directly computed entropy is wrong', got=o.entropy_v1(),
                      want=want, order=m.order)
            rec.check(abs(o.entropy_v2() - want) < TOL, 'incremental entropy is wrong', got=o.entropy_v2(), want=want)

    def run_end(self):
        s, m, rec = self.s, self.s.m, self.rec
        if len(m.order) == s.N:
            rec.check(abs(s.obj.entropy()) < TOL, 'entropy of the full lattice is not 0', got=s.obj.entropy())
        if s.cls == 'SP':
            return
        a = list(s.obj.get_entropy_array())
        rec.check(len(a) == len(s.rows), 'recorded entropy has the wrong length', got=len(a), want=len(s.rows))
        for v, k in zip(a, s.rows):
            rec.count('curve_rows')
            rec.check(abs(v - m.curve[k][1]) < TOL, 'recorded entropy is wrong', got=v, want=m.curve[k][1],
                      step=k + 1, order=m.order)


def cases(tier, seed):
    out = standard_cases(tier, seed, 'C08', sides=(2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13))
    for i, cls in enumerate(('L0', 'L1', 'L2', 'base')):
        ops = []
        for _ in range(60 if tier == 'quick' else 600):
            ops += [['reset'], ['run']]
        out.append(dict(kind='history', cls=cls, L=3 + i, seed=seed + i, ops=ops, families=['own']))
    return out


def run(case, rec):
    run_history(case, rec, [Entropy()])
