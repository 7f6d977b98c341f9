"""Largest-cluster order parameter: bond fraction of the largest cluster, after every placement."""
from ..sut import run_history, standard_cases
from . import c06

RULE = ('Histories as in C02 with many ties and joins of several clusters. After every step, and for every row '
        'recorded by run_once(), the largest-cluster order parameter (and the bond count behind it) is compared '
        'with the maximum over all clusters of the model. Execution: one realization; non-trivial: some join of '
        'several clusters; distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, curve_rows=1000, joins_of_3_clusters=50, joins_of_4_clusters=5)
ASSUMPTIONS = ['side >= 2', 'read after at least one placement, or after reset (0)']


class Largest(c06.Param):
    def value(self):
        return self.s.obj.order_param_largest_clstr()

    def array(self):
        return self.s.obj.get_order_param_largest_array()

    def placed(self, site):
        m = self.s.m
        got = self.s.obj.largest_cluster()
        self.rec.check(got == m.largest, 'size of the largest cluster is wrong', got=got, want=m.largest,
                       step=len(m.order), order=m.order)
        v = self.value()
        self.rec.check(abs(v - m.curve[-1][2]) < 1e-12, 'order parameter (largest) is wrong', got=v,
                       want=m.curve[-1][2], order=m.order)

    def detected(self, result):
        self.placed(None)

    def run_end(self):
        c06.COL, c06.NAME = 2, 'largest'
        super().run_end()

    def was_reset(self):
        c06.COL, c06.NAME = 2, 'largest'
        super().was_reset()


def cases(tier, seed):
    return standard_cases(tier, seed, 'C07', sides=(2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)) + standard_cases(
        tier, seed, 'C07b', classes_=('L0', 'base'), n_quick=60, n_thorough=900, sides=(5, 6, 7, 8, 9, 10, 12, 14),
        big=(), large=(), huge=(), families=['blocks', 'checker', 'rings', 'stripes'])


def run(case, rec):
    run_history(case, rec, [Largest()])
