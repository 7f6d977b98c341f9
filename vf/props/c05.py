"""pc and the size of the wrapping cluster at pc: right when it happens, unchanged afterwards."""
from ..sut import Monitor, run_history, standard_cases

RULE = ('Histories as in C02. After every wrapping test the three critical values are read and compared with the '
        'model: zero before the first wrapping, then the values at that placement for ever (until reset). '
        'Execution: one realization; non-trivial: it wraps; distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, wrappings=100, reads_after_wrapping=500, reads_before_wrapping=500)
ASSUMPTIONS = ['side >= 3', 'the wrapping test is made after every placement']


class Critical(Monitor):
    def read(self):
        o, m, rec = self.s.obj, self.s.m, self.rec
        got = (o.get_pc(), o.get_site_count_wrapping_cluster_pc(), o.get_bond_count_wrapping_cluster_pc())
        if m.pc is None:
            rec.count('reads_before_wrapping')
            rec.check(got == (0, 0, 0), 'critical values reported without wrapping', got=got, order=m.order)
        else:
            rec.count('reads_after_wrapping')
            want = (m.pc / self.s.N, m.pc_sites, m.pc_bonds)
            rec.check(got == want, 'critical values are wrong', got=got, want=want, step=len(m.order), order=m.order)

    def detected(self, result):
        self.read()

    def run_end(self):
        self.read()

    def was_reset(self):
        self.read()

    def placed(self, site):
        # in run_once(): the test of the previous placement is done, this one's is not
        s, m = self.s, self.s.m
        if s.in_run and m.pc is not None and m.pc < len(m.order):
            self.read()


def cases(tier, seed):
    return standard_cases(tier, seed, 'C05')


def run(case, rec):
    run_history(case, rec, [Critical()])
