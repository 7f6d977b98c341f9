"""Wrapping is detected at exactly the placement which closes the first winding loop."""
import random

from .. import gen
from ..model import nb
from ..sut import Monitor, Session, run_history, standard_cases

RULE = ('Histories as in C02, weighted to late, helical and double wrapping; wrapping status after every placement '
        '(detect_wrapping() in manual steps, the recorded wrapping curve and get_pc() after run_once()) is compared '
        'with winding vectors computed by the model. Execution: one realization; non-trivial: the realization wraps '
        'or has at least 3 joins closing a loop without wrapping; distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, wrappings=100, windings=4, non_wrapping_loops=100)
ASSUMPTIONS = ['the wrapping test is made after every placement, as run_once() does']


class Wrapping(Monitor):
    def __init__(self):
        self.last = False

    def detected(self, result):
        m, rec = self.s.m, self.rec
        want = m.wrap_site is not None
        rec.check(bool(result) == want, 'wrapping reported too early' if result else 'wrapping missed',
                  step=len(m.order), order=m.order)
        if m.order:
            x = m.order[-1] if len(m.order) % 2 else m.order[len(m.order) // 2]
            got = list(self.s.obj.lattice_ref.get_sites_for_wrapping_test(x))
            near = {t for t, _ in nb(m.L)[x] if m.occ[t]}
            rec.check(set(got) == near and len(got) == len(near), 'the sites for the wrapping test are not the occupied neighbors',
                      site=x, got=got, want=sorted(near), order=m.order)
        if not want and m.stats['same']:
            rec.count('non_wrapping_loops')
        if len(m.order) % 3 == 0:   # asking twice changes nothing
            rec.check(bool(self.s.obj.detect_wrapping()) == want, 'second wrapping test in one step differs',
                      order=m.order)

    def run_end(self):
        s, m, rec = self.s, self.s.m, self.rec
        pc = s.obj.get_pc()
        want = (m.pc or 0) / s.N
        rec.check(pc == want, 'critical occupation probability is wrong', got=pc, want=want, order=m.order)
        arr = list(s.obj.get_order_param_wrapping_array())
        if s.cls != 'SP' and len(arr) == len(s.rows):
            for i, k in enumerate(s.rows):
                wrapped = m.pc is not None and k + 1 >= m.pc
                rec.check((arr[i] > 0) == wrapped, 'wrapping recorded at another step than the one which closed the '
                          'loop', step=k + 1, wraps_at=m.pc, order=m.order)
                if not wrapped:
                    rec.count('non_wrapping_loops', 1 if m.stats['same'] else 0)


def cases(tier, seed):
    out = standard_cases(tier, seed, 'C04')
    rng = random.Random('C04x/%s/%s' % (seed, tier))
    for i in range(160 if tier == 'quick' else 4000):
        L = rng.choice([3, 3, 4, 5, 6, 7, 8, 10, 12, 15])
        fam = rng.choice(['helix', 'two_bands', 'cross_last', 'stripes', 'tree', 'rings', 'spiral', 'comb', 'boustro'])
        o, _ = gen.order(rng, L, fam)
        cls = rng.choice(['L0', 'L0', 'base', 'SP'])
        out.append(dict(kind='history', cls=cls, L=L, seed=None, families=[fam],
                        ops=[['ids', o], ['run'] if rng.random() < .4 else ['all']]))
    out.append(dict(kind='tiny'))
    return out


def run(case, rec):
    if case['kind'] == 'tiny':
        # sides 1 and 2: see KNOWN_FINDINGS.txt
        for L in (1, 2):
            s = Session(rec, 'L0', L, seed=1)
            s.run()
            s.log()
            if s.m.pc is not None and s.obj.get_pc() == 0 and not any(s.obj.get_order_param_wrapping_array()):
                rec.known['tiny-lattice-never-wraps'] = 'side %d: fully occupied, no wrapping reported' % L
            elif s.obj.get_pc() != s.m.pc / s.N:
                rec.violation('critical occupation probability is wrong on a tiny lattice', L=L, got=s.obj.get_pc())
        return
    run_history(case, rec, [Wrapping()])
