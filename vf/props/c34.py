"""The built-in self checks pass on every state which can be reached and fail on damaged ones."""
import random

from .. import gen
from ..core import Inconclusive
from ..model import Model
from ..observe import observe, quietly, same
from ..sut import classes, history, Session, Monitor

RULE = ('Histories as in C02: at random moments all the built-in self checks are called, none may fail and none may change '
        'the state. Complete realizations are then damaged in one place (group of a site or bond, members or counts of '
        'clusters, size of the largest cluster, ids, bonds of a site, sites of a bond, relative coordinates): the self check of that part has to fail. '
        'test_run_once() has to stop with the first wrapping, having recorded the states before. Execution: one '
        'realization or damage; non-trivial: side >= 3 and at least 4 placements; distinct by class, side, order, damage.')
NEED = dict(monitor_evaluations=3000, self_checks=3000, damages=300, runs_to_wrapping=50)
ASSUMPTIONS = ['a damage which the queries do not show (lists handed out as copies) is left out']

LATTICE = ['test_neighbor_count', 'test_relative_index', 'scan_sites', 'scan_bonds', 'test_rwo_col_scan']


def passes(f, *a):
    try:
        quietly(f, *a)
        return True
    except Exception:
        return False


class Self(Monitor):
    def started(self):
        self.rng = random.Random(self.s.L * 7919 + self.s.N)
        self.look()

    def was_reset(self):
        self.look()

    def placed(self, site):
        # between placement and test of wrapping the object is not at rest: looked at in attempt_failed and detected
        pass

    def detected(self, r):
        if self.rng.random() < .3:
            self.look()

    def attempt_failed(self):
        if self.rng.random() < .05:
            self.look()

    def run_end(self):
        self.look()

    def look(self):
        o, rec = self.s.obj, self.rec
        before = observe(o)
        for name in LATTICE:
            rec.count('self_checks')
            rec.check(passes(getattr(o.lattice_ref, name)), 'a self check fails on a right state: Lattice.%s' % name,
                      order=self.s.m.order, L=self.s.L, cls=self.s.cls)
        for name in ('test_lattice', 'test_clusters'):
            rec.count('self_checks')
            rec.check(passes(getattr(o, name)), 'a self check fails on a right state: %s' % name, order=self.s.m.order,
                      L=self.s.L, cls=self.s.cls)
        for i in (self.rng.randrange(self.s.N), 0):
            lat = o.lattice_ref
            rec.check(passes(lat.get_site_by_id(i).test_site) and passes(lat.get_bond_by_id(2 * i).test_bond),
                      'the self check of a site or bond fails on a right state', site=i)
        if len(self.s.m.order) == self.s.N:
            gid = o.lattice_ref.get_site_gid_by_id(0)
            rec.check(passes(o.lattice_ref.test_lattice, gid), 'a self check fails on the full lattice', order=self.s.m.order)
            rec.check(not passes(o.lattice_ref.test_lattice, gid + 1), 'a self check does not notice another group')
        d = same(before, observe(o), 0)
        rec.check(d is None, 'a self check changed the state: %s' % d)


# ---------------------------------------------------------------- damages: (self check, what) after which it has to fail

def _site_gid(o, rng):
    s = o.lattice_ref.get_site_by_id(rng.randrange(o.lattice_ref.length ** 2))
    s.set_gid(rng.choice([-1, s.get_gid() + 1]))
    return [o.test_lattice]


def _bond_gid(o, rng):
    b = o.lattice_ref.get_bond_by_id(rng.randrange(2 * o.lattice_ref.length ** 2))
    b.set_gid(rng.choice([-1, b.get_gid() + 1]))
    return [o.test_lattice]


def _site_id(o, rng):
    s = o.lattice_ref.get_site_by_id(rng.randrange(o.lattice_ref.length ** 2))
    s.set_id(s.get_id() + rng.choice([1, -1, 5]))
    return [o.lattice_ref.scan_sites, o.test_lattice]


def _bond_id(o, rng):
    s = o.lattice_ref.get_bond_by_id(rng.randrange(2 * o.lattice_ref.length ** 2))
    s.set_id(s.get_id() + rng.choice([1, -1, 5]))
    return [o.lattice_ref.scan_bonds, o.test_lattice]


def _double_bond(o, rng):
    s = o.lattice_ref.get_site_by_id(rng.randrange(o.lattice_ref.length ** 2))
    b = s.connecting_bonds()
    i, j = rng.sample(range(4), 2)
    b[i] = b[j]
    if len(set(s.connecting_bonds())) == 4:
        return None
    return [o.lattice_ref.test_neighbor_count, o.test_lattice, s.test_site]


def _other_bond(o, rng):
    """a site names a bond which does not touch it"""
    L = o.lattice_ref.length
    x = rng.randrange(L * L)
    s = o.lattice_ref.get_site_by_id(x)
    own = list(s.connecting_bonds())
    new = rng.choice([b for b in range(2 * L * L) if b not in own])
    i = rng.randrange(4)
    s.connecting_bonds()[i] = new
    if s.connecting_bonds()[i] != new:
        return None
    return [o.lattice_ref.scan_sites, o.lattice_ref.scan_bonds, o.test_lattice]


def _other_site(o, rng):
    """a bond names a site which it does not touch"""
    L = o.lattice_ref.length
    b = o.lattice_ref.get_bond_by_id(rng.randrange(2 * L * L))
    own = list(b.connected_sites())
    new = rng.choice([x for x in range(L * L) if x not in own])
    i = rng.randrange(2)
    b.connected_sites()[i] = new
    if b.connected_sites()[i] != new:
        return None
    return [o.lattice_ref.scan_sites, o.lattice_ref.scan_bonds, o.test_lattice]


def _one_site(o, rng):
    b = o.lattice_ref.get_bond_by_id(rng.randrange(2 * o.lattice_ref.length ** 2))
    b.connected_sites().pop()
    if len(b.connected_sites()) != 1:
        return None
    return [o.lattice_ref.test_neighbor_count, o.lattice_ref.scan_bonds, b.test_bond, o.test_lattice]


def _same_site(o, rng):
    b = o.lattice_ref.get_bond_by_id(rng.randrange(2 * o.lattice_ref.length ** 2))
    b.connected_sites()[0] = b.connected_sites()[1]
    if len(set(b.connected_sites())) != 1:
        return None
    return [b.test_bond, o.test_lattice]


def _coordinate(o, rng):
    """of a site moved far away from its neighbors"""
    from source_py.simulation.index import RelativeIndex
    s = o.lattice_ref.get_site_by_id(rng.randrange(o.lattice_ref.length ** 2))
    r = s.get_relative_index()
    s.set_relative_index(RelativeIndex(r.x_coord() + 1000, r.y_coord() + 2000))
    return [o.lattice_ref.test_relative_index, o.test_lattice]


def _member(o, rng):
    """a site or bond too many in another cluster"""
    L = o.lattice_ref.length
    g = o.lattice_ref.get_site_gid_by_id(0)
    other = rng.choice([x for x in range(2 * L * L) if x != g])
    if rng.random() < .5:
        o.cluster_pool_ref.add_sites(other, rng.randrange(L * L))
    else:
        o.cluster_pool_ref.add_bonds(other, rng.randrange(2 * L * L))
    return [o.test_clusters]


def _surplus(o, rng):
    """counted twice in the cluster"""
    g = o.lattice_ref.get_site_gid_by_id(0)
    if rng.random() < .5:
        o.cluster_pool_ref.add_sites(g, 0)
    else:
        o.cluster_pool_ref.add_bonds(g, 0)
    return [o.test_clusters]


def _cleared(o, rng):
    o.cluster_pool_ref.clear_cluster(o.lattice_ref.get_site_gid_by_id(0))
    return [o.test_clusters]


def _largest(o, rng):
    """one more realization in which the largest cluster is lost sight of"""
    if not callable(getattr(o, 'track_largest_cluster', None)):
        return None
    o.reset()
    left = [rng.randrange(o.lattice_ref.site_count)]
    follow = o.track_largest_cluster

    def track(*a, **k):
        left[0] -= 1
        if left[0] >= 0:
            return follow(*a, **k)
    o.track_largest_cluster = track
    try:
        quietly(o.run_once)
    except Exception:       # its result is needed
        return None
    del o.track_largest_cluster
    if o.largest_cluster() == 2 * o.lattice_ref.length ** 2 or o.occupation_prob() != 1:
        return None
    return [o.test_clusters]


DAMAGES = dict(largest=_largest, site_gid=_site_gid, bond_gid=_bond_gid, site_id=_site_id, bond_id=_bond_id, double_bond=_double_bond,
               other_bond=_other_bond, other_site=_other_site, one_site=_one_site, same_site=_same_site,
               coordinate=_coordinate, member=_member, surplus=_surplus, cleared=_cleared)


def cases(tier, seed):
    rng = random.Random('C34/%s/%s' % (seed, tier))
    n = 400 if tier == 'quick' else 2500
    out = []
    for i in range(n):
        cls = rng.choice(['L0', 'L1', 'L2', 'SP', 'base'])
        L = rng.choice([3, 4, 5, 6, 7, 8, 9, 10])
        ops, names = history(rng, cls, L, n_real=rng.choice([1, 2]))
        out.append(dict(kind='accepted', cls=cls, L=L, seed=rng.randrange(10 ** 6), ops=ops))
    for name in DAMAGES:
        for i in range(n // 4):
            out.append(dict(kind='damaged', damage=name, cls=rng.choice(['L0', 'L1', 'L2', 'base']), L=rng.choice([3, 4, 5, 6, 8]),
                            seed=rng.randrange(10 ** 6), again=rng.random() < .3))
    for i in range(n):
        L = rng.choice([3, 4, 5, 6, 7, 9, 12])
        out.append(dict(kind='to_wrapping', cls=rng.choice(['L0', 'L1', 'L2', 'base', 'SP']), L=L, seed=rng.randrange(10 ** 6),
                        order=gen.order(rng, L)[0]))
    return out


def accepted(case, rec):
    s = Session(rec, case['cls'], case['L'], case['seed'], [Self()])
    s.play(case['ops'])
    s.log()
    rec.saw('classes', case['cls'])


def damaged(case, rec):
    rng = random.Random(case['seed'])
    o, _ = quietly(lambda: classes()[case['cls']](length=case['L'], seed=case['seed']))
    if case['again']:
        quietly(o.run_once)
        o.reset()
    quietly(o.run_once)
    for f in (o.test_lattice, o.test_clusters):
        rec.check(passes(f), 'a self check fails on a complete realization', cls=case['cls'], L=case['L'], seed=case['seed'])
    fs = DAMAGES[case['damage']](o, rng)
    if fs is None:
        rec.count('damages_not_visible')
        return
    rec.count('damages')
    rec.saw('damages', case['damage'])
    for f in fs:
        rec.check(not passes(f), 'a self check does not notice damage', damage=case['damage'], check=f.__qualname__,
                  cls=case['cls'], L=case['L'])
    rec.execution((case['damage'], case['cls'], case['L'], case['seed']))


def to_wrapping(case, rec):
    L = case['L']
    o, _ = quietly(lambda: classes()[case['cls']](length=L, seed=case['seed']))
    own = case['cls'] in ('L1', 'L2')
    if not own:
        quietly(o.set_custome_site_id_list, case['order'])
    if not passes(o.test_run_once):
        rec.violation('test_run_once() fails on a right realization', cls=case['cls'], L=L, order=case['order'], seed=case['seed'])
    rec.count('runs_to_wrapping')
    order = list(o.get_site_id_sequence()) if own else case['order']
    m = Model(L).run(order)
    rec.check(round(o.occupation_prob() * L * L) == m.pc, 'test_run_once() did not stop with the first wrapping', got=o.occupation_prob(),
              want=m.pc / L / L, order=order)
    rec.check(abs(o.get_pc() - m.pc / L / L) < 1e-9 and o.get_site_count_wrapping_cluster_pc() == m.pc_sites and
              o.get_bond_count_wrapping_cluster_pc() == m.pc_bonds, 'wrong critical values after test_run_once()', order=order)
    rows = list(zip(o.get_occupation_prob_array(), o.get_entropy_array(), o.get_order_param_largest_array(),
                    o.get_order_param_wrapping_array()))
    want = m.curve[:m.pc - 1]
    rec.check(len(rows) == len(want) and all(abs(x - y) < 1e-9 for a, b in zip(rows, want) for x, y in zip(a, b)),
              'test_run_once() does not record the states before wrapping', rows=len(rows), want=len(want), order=order)
    rec.execution((case['cls'], L, tuple(order)), m.pc > 3)


def run(case, rec):
    globals()[case['kind']](case, rec)
