"""Wrapping order parameter: 0, then the bond fraction of the first wrapping cluster, up to 1."""
from ..sut import Monitor, run_history, standard_cases

COL = 3
NAME = 'wrapping'
RULE = ('Histories as in C02 with many two-band orders (a second, larger wrapping cluster next to the first). '
        'After every step, and for every row recorded by run_once(), the wrapping order parameter is compared with '
        'the bond fraction of the first wrapping cluster in the model, and must not decrease. Execution: one '
        'realization; non-trivial: some join of several clusters; distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, wrappings=100, curve_rows=1000)
ASSUMPTIONS = ['side >= 3', 'the wrapping test is made after every placement']


class Param(Monitor):
    def value(self):
        return self.s.obj.order_param_wrapping()

    def array(self):
        return self.s.obj.get_order_param_wrapping_array()

    def detected(self, result):
        m = self.s.m
        v = self.value()
        self.rec.check(abs(v - m.curve[-1][COL]) < 1e-12, 'order parameter (%s) is wrong' % NAME, got=v,
                       want=m.curve[-1][COL], step=len(m.order), order=m.order)

    def was_reset(self):
        self.rec.check(self.value() == 0, 'order parameter (%s) is not zero after reset' % NAME, got=self.value())

    def run_end(self):
        s, m, rec = self.s, self.s.m, self.rec
        if m.order:
            v = self.value()
            rec.check(abs(v - m.curve[-1][COL]) < 1e-12, 'order parameter (%s) is wrong' % NAME, got=v,
                      want=m.curve[-1][COL], order=m.order)
            if len(m.order) == s.N:
                rec.check(v == 1.0, 'order parameter (%s) of the full lattice is not 1' % NAME, got=v)
        if s.cls == 'SP':
            return
        a = list(self.array())
        rec.check(len(a) == len(s.rows), 'recorded curve (%s) has the wrong length' % NAME, got=len(a),
                  want=len(s.rows))
        prev = 0.0
        for v, k in zip(a, s.rows):
            rec.count('curve_rows')
            rec.check(abs(v - m.curve[k][COL]) < 1e-12, 'recorded order parameter (%s) is wrong' % NAME, got=v,
                      want=m.curve[k][COL], step=k + 1, order=m.order)
            rec.check(v >= prev, 'order parameter (%s) decreases' % NAME, got=v, before=prev)
            prev = v


def cases(tier, seed):
    return standard_cases(tier, seed, 'C06') + standard_cases(
        tier, seed, 'C06b', classes_=('L0', 'base', 'SP'), n_quick=60, n_thorough=900, sides=(6, 7, 8, 9, 10, 12, 14),
        big=(), large=(), huge=(), families=['two_bands', 'stripes', 'helix', 'comb'])


def run(case, rec):
    run_history(case, rec, [Param()])
