"""The recorded curves have one aligned row per placed site."""
import numpy as np

from ..sut import Monitor, run_history, standard_cases

RULE = ('Histories as in C02 with realizations of different numbers of sites on one object (partial, extended and '
        'changed lists, manual steps before run_once(), aborted realizations). After run_once() the four lists and '
        'the data array are read: same length, one row per site placed by run_once() since reset, p = k/N of that '
        'site, columns p, H, P_largest, P_wrapping as in the model, and unchanged by later operations on the object. '
        'Execution: one realization; non-trivial: some join of several clusters; distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, rows=1000, arrays=50, earlier_arrays_rechecked=20)
ASSUMPTIONS = ['side >= 3 (for the wrapping column)']


class Curves(Monitor):
    def started(self):
        self.kept = []

    def run_end(self):
        s, m, rec = self.s, self.s.m, self.rec
        if s.cls == 'SP':
            return
        o = s.obj
        a = np.array(o.get_data_array())
        rec.count('arrays')
        rec.check(a.shape == (len(s.rows), 4), 'data array has the wrong shape', got=a.shape, rows=len(s.rows),
                  placed=len(m.order))
        cols = [o.get_occupation_prob_array(), o.get_entropy_array(), o.get_order_param_largest_array(),
                o.get_order_param_wrapping_array()]
        for i, (c, name) in enumerate(zip(cols, ('p', 'H', 'P_largest', 'P_wrapping'))):
            rec.check(len(c) == len(s.rows), 'list %s has the wrong length' % name, got=len(c), want=len(s.rows))
            rec.check(list(c) == list(a[:, i]), 'column %d of the data array is not the list %s' % (i, name))
        for r, k in zip(a, s.rows):
            rec.count('rows')
            rec.check(r[0] == (k + 1) / s.N, 'occupation probability of a row is wrong', got=r[0], want=(k + 1) / s.N)
            rec.check(max(abs(x - y) for x, y in zip(r, m.curve[k])) < 1e-8, 'row differs from the lattice it was '
                      'recorded for', got=list(r), want=m.curve[k], order=m.order)
        raw = o.get_data_array()
        self.kept.append((raw, raw.copy()))

    def was_reset(self):
        for raw, copy in self.kept:
            self.rec.count('earlier_arrays_rechecked')
            self.rec.check(raw.shape == copy.shape and (raw == copy).all(), 'a data array handed out earlier changed')
        o = self.s.obj
        self.rec.check(not any(map(len, (o.get_occupation_prob_array(), o.get_entropy_array(),
                                         o.get_order_param_largest_array(), o.get_order_param_wrapping_array()))),
                       'curves are not empty after reset')

    def settled(self):
        if self.kept:
            raw, copy = self.kept[-1]
            self.rec.check((raw == copy).all(), 'a data array handed out earlier changed')


def cases(tier, seed):
    return standard_cases(tier, seed, 'C09', classes_=('L0', 'L1', 'L2', 'base'), n_quick=500)


def run(case, rec):
    run_history(case, rec, [Curves()])
