"""Drives the real simulation classes through histories of public operations, keeps the
reference model in step and calls the monitors of a property at every step."""
import itertools
import math
import random

from .core import HarnessError, Violation, Inconclusive
from .model import Model

ATTEMPT_FACTOR = 400     # attempts per site allowed before a run is said not to end


def classes():
    from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
    from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1, SitePercolationL2
    from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc
    from source_py.simulation.percolation_sq_lattice import SitePercolation
    return dict(L0=SitePercolationL0, L1=SitePercolationL1, L2=SitePercolationL2,
                SP=ShortestPathAfter_pc, base=SitePercolation)


class Monitor:
    """One property.  The session calls these; each may call rec.check(...)."""

    def attach(self, s):
        self.s, self.rec = s, s.rec

    def started(self):
        pass

    def placed(self, site):
        """just after a site was occupied (wrapping not yet tested in this step)"""

    def attempt_failed(self):
        """place_one_site() went on without occupying a site"""

    def finished(self):
        """place_one_site() said there is nothing left"""

    def detected(self, result):
        """after detect_wrapping(), called once after every placement in manual steps"""

    def caught_up(self, sites):
        """run_once() placed these sites, in this order, without passing place_one_site() or detect_wrapping()"""

    def run_end(self):
        """run_once() returned"""

    def was_reset(self):
        pass

    def settled(self):
        """after every operation of the history"""


class Session:
    def __init__(self, rec, cls, L, seed=None, monitors=(), hints=None, obj=None):
        self.rec, self.cls, self.L, self.N = rec, cls, L, L * L
        kw = dict(length=L)
        if seed is not None:
            kw['seed'] = seed
        self.obj = obj if obj is not None else classes()[cls](**kw)
        self.m = Model(L)
        self.empty = set(range(self.N))
        self.hints = L > 40 if hints is None else hints
        self.attempts = 0
        self.since_scan = self.scans = 0
        self.rows = []              # indices into m.curve recorded by run_once() since the last reset
        self.in_run = False
        self.by_place = False
        self.pending = None         # result of the step just made
        self.expected = None        # the list of sites to be placed in order (custom list), if known
        self.pointer = 0
        self.mons = list(monitors)
        self._orig = self.obj.place_one_site
        self.obj.place_one_site = self._place
        self._orig_detect = self.obj.detect_wrapping
        self.obj.detect_wrapping = self._detect
        self._p = self.obj.occupation_prob()
        for mon in self.mons:
            mon.attach(self)
        for mon in self.mons:
            mon.started()

    # ------------------------------------------------------------ observation
    def gid(self, s):
        return self.obj.lattice_ref.get_site_gid_by_id(s)

    def occupied_now(self, s):
        return self.gid(s) >= 0

    def _new_sites(self):
        """newly occupied sites, by looking at the lattice"""
        if self.hints and self.since_scan < self.N // 16:
            for f in (lambda: self.obj.selected_id, lambda: self.obj.get_site_id_sequence()[-1]):
                try:
                    h = f()
                except Exception:
                    continue
                if h in self.empty and self.occupied_now(h):
                    self.since_scan += 1
                    return [h]
        self.since_scan = 0
        self.scans += 1
        if self.N > 10000 and self.scans > 400:
            raise Inconclusive('the placements of a large lattice can not be followed fast enough')
        g = self.obj.lattice_ref.get_site_gid_by_id
        return [s for s in self.empty if g(s) >= 0]

    def _place(self):
        self.attempts += 1
        if self.attempts > ATTEMPT_FACTOR * self.N + 20000:
            self.rec.violation('the run does not come to an end', attempts=self.attempts, occupied=len(self.m.order))
        before = self.obj.occupation_prob()
        going = self._orig()
        self.by_place = True
        self._observe(before, going)
        return going

    def _detect(self):
        """a run which places sites in another way than by place_one_site() is seen here"""
        p = self.obj.occupation_prob()
        if self.in_run and p != self._p:
            self._observe(self._p, True)
        return self._orig_detect()

    def _observe(self, before, going):
        self._p = self.obj.occupation_prob()
        changed = self._p != before
        if changed or not self.hints and (self.cls in ('L0', 'SP', 'base') or self.attempts % 5 == 0):
            new = self._new_sites()
        else:
            new = []
        if len(new) > 1 and self.in_run and not self.by_place:
            return self._catch_up(new)
        if len(new) > 1:
            self.rec.violation('one step occupied several sites', sites=new)
        if new:
            s = new[0]
            self.empty.discard(s)
            self.m.place(s)
            self.rec.count('placements')
            if self.in_run:
                self.rows.append(len(self.m.order) - 1)
            self.pending = s
            for mon in self.mons:
                mon.placed(s)
        else:
            self.pending = None
            if going:
                self.rec.count('failed_attempts')
                for mon in self.mons:
                    mon.attempt_failed()
            else:
                for mon in self.mons:
                    mon.finished()

    def _catch_up(self, new):
        """a run which goes its own way is followed afterwards, by the sequence it reports; its single steps are not seen then
        (those of the manual histories are), its curves and its end are"""
        left = set(new)
        order = []
        for x in self.obj.get_site_id_sequence():
            if x in left:
                left.discard(x)
                order.append(x)
        if left:
            raise Inconclusive('run_once() can not be followed: occupied sites are not in the reported sequence')
        for x in order:
            self.empty.discard(x)
            self.m.place(x)
            self.rows.append(len(self.m.order) - 1)
        self.rec.count('placements_followed_afterwards', len(order))
        self.pending = None
        for mon in self.mons:
            mon.caught_up(order)

    # ------------------------------------------------------------ operations
    def run(self):
        self.in_run = True
        self.by_place = False
        try:
            self.obj.run_once()
        finally:
            self.in_run = False
        if not self.by_place:
            self.since_scan = self.N
            if self.obj.occupation_prob() != self._p:
                self._p = self.obj.occupation_prob()
                self._catch_up(self._new_sites())
            if self.cls != 'SP':
                for mon in self.mons:
                    mon.finished()
        self.rec.count('runs')
        for mon in self.mons:
            mon.run_end()
        self._settled()

    def step(self, k, detect=True):
        """as run_once() does, by hand; -> False when nothing is left"""
        for _ in range(k):
            while True:
                going = self.obj.place_one_site()
                if not going or self.pending is not None:
                    break
            if not going:
                self._settled()
                return False
            if detect:
                r = self.obj.detect_wrapping()
                for mon in self.mons:
                    mon.detected(r)
        self._settled()
        return True

    def reset(self):
        self.obj.reset()
        self._p = self.obj.occupation_prob()
        self.m.reset()
        self.empty = set(range(self.N))
        self.rows = []
        self.attempts = 0
        self.since_scan = 0
        self.pointer = 0
        self.rec.count('resets')
        for mon in self.mons:
            mon.was_reset()
        self._settled()

    def ids(self, lst, shuffle=None):
        if shuffle is None:
            self.obj.set_custome_site_id_list(lst)
        else:
            self.obj.set_custome_site_id_list(lst, shuffle)

    def idx(self, lst, shuffle=None):
        if shuffle is None:
            self.obj.set_custome_site_index_list(lst)
        else:
            self.obj.set_custome_site_index_list(lst, shuffle)

    def _settled(self):
        for mon in self.mons:
            mon.settled()

    # ------------------------------------------------------------ histories
    def play(self, ops):
        for op in ops:
            name, args = op[0], op[1:]
            if name == 'run':
                self.run()
            elif name == 'step':
                self.step(*args)
            elif name == 'all':
                self.step(self.N + 1)
            elif name == 'reset':
                self.reset()
            elif name == 'ids':
                self.ids(*args)
                self.expected = list(args[0])
            elif name == 'idx':
                self.idx([tuple(x) for x in args[0]], *args[1:])
                self.expected = [r * self.L + c for r, c in args[0]]
            elif name == 'rng':
                random.seed(args[0])
            else:
                raise HarnessError('unknown operation %r' % (op,))
        return self

    def summary(self):
        """for the evidence: identifies the execution"""
        return (self.cls, self.L, tuple(self.m.order), self.m.pc)

    def nontrivial(self):
        return len(self.m.order) > 3 and sum(v for k, v in self.m.stats['merge'].items() if k > 1) > 0

    def log(self):
        self.rec.execution(self.summary(), self.nontrivial())
        st = self.m.stats
        for k, n in st['merge'].items():
            self.rec.count('joins_of_%d_clusters' % k, n)
        self.rec.count('closed_loops', st['same'])
        if self.m.pc:
            self.rec.count('wrappings')
            w = st['winding']
            if w:
                self.rec.saw('windings', (abs(w[0]), abs(w[1])))
        self.rec.saw('sides', self.L)
        self.rec.sample(dict(cls=self.cls, L=self.L, order=self.m.order[:12], placed=len(self.m.order),
                             pc=self.m.pc, wrapping_sites=self.m.pc_sites))


# ---------------------------------------------------------------- histories shared by the checks

def history(rng, cls, L, n_real=None, families=None):
    """A history of public operations on one object."""
    from . import gen
    ops = []
    names = []
    n_real = n_real or rng.choice([1, 1, 2, 2, 3, 5])
    for i in range(n_real):
        if i:
            ops.append(['reset'])
        elif rng.random() < .5:
            ops.append(['reset'])
        if cls in ('L0', 'SP', 'base') and rng.random() < .8:
            fam = rng.choice(families) if families else None
            o, fam = gen.order(rng, L, fam)
            names.append(fam)
            if rng.random() < .3:
                o = o[:rng.randrange(1, len(o) + 1)]
            as_idx = rng.random() < .3
            put = (lambda x: ['idx', [[s // L, s % L] for s in x]]) if as_idx else (lambda x: ['ids', list(x)])
            if rng.random() < .25 and len(o) > 2 and cls != 'SP':
                k = rng.randrange(1, len(o))
                ops.append(put(o[:k]))
                ops.append(rng.choice([['run'], ['all']]))
                if rng.random() < .4:
                    ops.append(['step', rng.choice([1, 1, 2, 5])])      # attempts after the end
                ops.append(put(o))
            else:
                ops.append(put(o))
        else:
            names.append('own')
        x = rng.random()
        if x < .45:
            ops.append(['run'])
        elif x < .8:
            ops.append(['all'])
        else:
            ops.append(['step', rng.randrange(1, L * L + 1)])
            if rng.random() < .6:
                ops.append(['run'])
    return ops, names


def standard_cases(tier, seed, tag, classes_=('L0', 'L1', 'L2', 'SP'), n_quick=240, n_thorough=6000,
                   sides=(3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13), big=((20, 4), (31, 2), (40, 1)),
                   large=((64, 1),), families=None, huge=((260, 1),)):
    """Cases shared by the step monitors. `big`: (side, how many)."""
    from . import gen
    rng = random.Random('%s/%s/%s' % (tag, seed, tier))
    n = n_quick if tier == 'quick' else n_thorough
    mul = 1 if tier == 'quick' else max(1, n_thorough // n_quick // 3)
    cases = []
    fams = families or gen.NAMES
    for i in range(n):
        cls = rng.choice(classes_) if i % 3 else 'L0' if 'L0' in classes_ else classes_[0]
        L = rng.choice(sides) if i >= len(sides) else sides[i]
        ops, names = history(rng, cls, L)
        cases.append(dict(kind='history', cls=cls, L=L, seed=rng.choice([None, rng.randrange(10 ** 6)]),
                          ops=ops, families=names))
    # every family at least twice, as one full run each
    for fam in fams:
        for j in range(2 * mul):
            L = rng.choice([x for x in sides if x >= 5] or list(sides))
            cls = 'L0' if 'L0' in classes_ else classes_[0]
            o, _ = gen.order(rng, L, fam)
            cases.append(dict(kind='history', cls=cls, L=L, seed=None, families=[fam],
                              ops=[['ids', o], rng.choice([['run'], ['all']])]))
    for L, k in big:
        for j in range(k * mul):
            cls = rng.choice(classes_)
            ops, names = history(rng, cls, L, n_real=1)
            cases.append(dict(kind='history', cls=cls, L=L, seed=rng.randrange(10 ** 6), ops=ops, families=names))
    for L, k in large:
        for j in range(k):
            cls = classes_[j % len(classes_)]
            o, fam = gen.order(rng, L)
            cases.append(dict(kind='history', cls=cls, L=L, seed=rng.randrange(10 ** 6), families=[fam],
                              ops=[['ids', o], ['run']] if cls in ('L0', 'SP', 'base') else [['run']]))
    # ids beyond 2^16
    for L, k in huge:
        for cls in rng.sample(list(classes_), k) if tier == 'quick' else classes_:
            cases.append(dict(kind='history', cls=cls, L=L, seed=rng.randrange(10 ** 6), families=['own'],
                              ops=[['reset'], ['run']]))
    # all orders of the last sites after a common start; in the thorough tier all orders of side 3, up to translations
    if families is None:
        cls = [c for c in classes_ if c in ('L0', 'base')] or classes_
        starts = [(3, 3), (4, 11), (5, 20), (6, 31)] if tier == 'quick' else \
            [(3, (0, x)) for x in range(1, 9)] + [(L, n) for L, n in ((4, 10), (5, 19), (6, 30), (7, 43)) for _ in range(4)]
        for L, start in starts:
            if isinstance(start, int):
                o, _ = gen.order(rng, L, None if rng.random() < .5 else 'random')
                o = list(o) + rng.sample([x for x in range(L * L) if x not in set(o)], L * L - len(set(o)))
                cut = rng.sample(range(L * L), L * L - start)       # any sites are the last ones
                start = [x for i, x in enumerate(o) if i not in set(cut)]
            cases.append(dict(kind='history', cls=rng.choice(cls), L=L, seed=None, families=['all_orders'], ops=[],
                              start=list(start), by=rng.choice(['run', 'all'])))
    # long series of realizations on one object
    for cls in classes_:
        L = rng.choice([4, 5, 6])
        ops = []
        for _ in range(25 * mul):
            ops += [['reset'], rng.choice([['run'], ['run'], ['step', rng.randrange(1, L * L)], ['all']])]
        cases.append(dict(kind='history', cls=cls, L=L, seed=rng.randrange(10 ** 6), ops=ops, families=['own']))
    # many turns around the lattice before wrapping
    follow = [c for c in classes_ if c in ('L0', 'base', 'SP')]
    rng = random.Random('coil/%s/%s/%s' % (tag, seed, tier))
    for i in range(0 if families or not follow else 10 * mul):
        L = rng.choice([8, 9, 10, 12, 12, 15, 16, 20])
        cases.append(dict(kind='history', cls=rng.choice(follow), L=L, seed=None, families=['coil'],
                          ops=[['ids', gen.coil(rng, L)], rng.choice([['run'], ['all']])]))
    # the expensive ones first: the pool finishes sooner
    cases.sort(key=lambda c: -c['L'])
    return cases


def run_history(case, rec, monitors):
    s = Session(rec, case['cls'], case['L'], case['seed'], monitors)
    for f in case.get('families', ()):
        rec.saw('families', f)
    rec.saw('classes', case['cls'])
    ops = case['ops']
    if 'start' in case:
        rest = [x for x in range(case['L'] ** 2) if x not in set(case['start'])]
        ops = ([[['reset'], ['ids', list(case['start']) + list(p)], [case['by']]][i] for p in itertools.permutations(rest) for i in range(3)])
        rec.count('orders_enumerated', math.factorial(len(rest)))
    for op in ops:
        if op[0] == 'reset' and s.m.order:
            s.log()
        s.play([op])
    s.log()
    return s
