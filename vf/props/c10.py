"""Every site is occupied exactly once; a run ends with everything it had to place."""
import random

from ..sut import Monitor, Session, run_history, standard_cases

RULE = ('Histories as in C02 with full lattice scans after every attempt: an attempt occupies one empty site or '
        'changes nothing, occupied sites stay occupied, p is the number of placements over N; a run over the whole '
        'lattice occupies all N sites, ends in bounded steps, and leaves one cluster with all sites and bonds; '
        'further attempts do nothing. Execution: one realization; non-trivial: more than 3 sites with a join; '
        'distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, failed_attempts=200, full_lattices=100, attempts_after_the_end=100)
ASSUMPTIONS = ['custom lists name no site twice', 'end of a run: within %d attempts per site' % 400]


class Once(Monitor):
    def snapshot(self):
        lat, N = self.s.obj.lattice_ref, self.s.N
        return [lat.get_site_gid_by_id(i) for i in range(N)]

    def started(self):
        self.full = self.s.L <= 14
        self.again()

    def again(self):
        self.gids = self.snapshot()
        self.rec.check(all(g < 0 for g in self.gids), 'a new or reset lattice has occupied sites')
        self.rec.check(self.s.obj.occupation_prob() == 0, 'occupation probability is not 0 at the start')
        self.seq = []

    was_reset = again

    def compare(self, site):
        s, rec = self.s, self.rec
        now = self.snapshot()
        for i, (a, b) in enumerate(zip(self.gids, now)):
            if i == site:
                rec.check(a < 0 <= b, 'placed site was not empty', site=i)
            else:
                rec.check((a < 0) == (b < 0), 'a site which was not placed changed its occupation', site=i, placed=site)
        self.gids = now

    def placed(self, site):
        s, m, rec = self.s, self.s.m, self.rec
        self.seq.append(site)
        every = max(200, s.N // 20)
        if self.full or len(self.seq) % every == 0:
            if not self.full:
                between = set(self.seq[-every:-1])
                self.gids = [self.gids[i] if i not in between else 0 for i in range(s.N)]
            self.compare(site)
        p = s.obj.occupation_prob()
        rec.check(p == len(m.order) / s.N, 'occupation probability is wrong', got=p, want=len(m.order) / s.N)

    def caught_up(self, sites):
        self.seq += sites
        self.gids = self.snapshot()

    def attempt_failed(self):
        s, m, rec = self.s, self.s.m, self.rec
        rec.check(s.cls in ('L1', 'L2'), 'a step of this model placed no site')
        if self.full:
            now = self.snapshot()
            rec.check(now == self.gids, 'a failed attempt changed the lattice', order=m.order)
        rec.check(s.obj.occupation_prob() == len(m.order) / s.N, 'a failed attempt changed the occupation probability')

    def run_end(self):
        s, m, rec = self.s, self.s.m, self.rec
        if s.cls in ('L1', 'L2') and not self.custom:
            rec.check(len(m.order) == s.N, 'the run ended before all sites were occupied', got=len(m.order), want=s.N)
        if len(m.order) == s.N and s.cls != 'SP':
            self.check_full()

    custom = False

    def check_full(self):
        s, rec = self.s, self.rec
        rec.count('full_lattices')
        o = s.obj
        rec.check(sorted(m_ for m_ in s.m.order) == list(range(s.N)), 'sites placed more or less than once')
        g = {o.lattice_ref.get_site_gid_by_id(i) for i in range(s.N)} | \
            {o.lattice_ref.get_bond_gid_by_id(i) for i in range(2 * s.N)}
        rec.check(len(g) == 1, 'the full lattice is not one cluster', gids=g)
        g = g.pop()
        rec.check(o.cluster_pool_ref.get_cluster_site_count(g) == s.N and
                  o.cluster_pool_ref.get_cluster_bond_count(g) == 2 * s.N, 'the last cluster has not all members')
        for _ in range(3):
            rec.count('attempts_after_the_end')
            rec.check(o.place_one_site() is False, 'placing goes on after the end')
        rec.check(self.snapshot() == [g] * s.N and o.occupation_prob() == 1.0, 'attempts after the end change the '
                  'lattice')

    def finished(self):
        s, m, rec = self.s, self.s.m, self.rec
        if s.cls in ('L1', 'L2') and not self.custom:
            rec.check(len(m.order) == s.N, 'nothing left to place, but empty sites remain', got=len(m.order), want=s.N)
        if s.expected is not None:
            rec.check(sorted(m.order) == sorted(s.expected), 'sites placed are not the sites asked for',
                      got=m.order, want=s.expected)


def cases(tier, seed):
    out = standard_cases(tier, seed, 'C10', sides=(2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13), huge=())
    rng = random.Random('C10/%s/%s' % (seed, tier))
    out = [dict(kind='history', cls=cls, L=260, seed=rng.randrange(10 ** 6), families=['own'], ops=[['reset'], ['run']])
           for cls in ('L1', 'L2')] + out
    for i in range(120 if tier == 'quick' else 3000):
        out.append(dict(kind='own', cls=['L0', 'L1', 'L2'][i % 3], L=rng.choice([2, 3, 4, 5, 6, 7, 9]),
                        seed=rng.randrange(10 ** 6), reset=rng.random() < .7, real=rng.choice([1, 2, 3])))
    return out


def run(case, rec):
    if case['kind'] == 'own':
        mon = Once()
        s = Session(rec, case['cls'], case['L'], case['seed'], [mon], hints=False)
        for r in range(case['real']):
            if r or case['reset']:
                if r:
                    s.log()
                s.reset()
            s.run()
            rec.check(len(s.m.order) == s.N, 'the run ended before all sites were occupied', got=len(s.m.order))
        s.log()
        return
    run_history(case, rec, [Once()])
