"""Relative coordinates agree with the geometry inside every cluster which does not wrap."""
from ..sut import Monitor, run_history, standard_cases

RULE = ('Histories as in C02. After placements, for every cluster which the model says has not wrapped, the '
        'relative coordinates of all its sites are compared with displacements summed along bonds by the model: '
        'the difference must be one constant vector per cluster. Execution: one realization; non-trivial: some join '
        'of several clusters; distinct by class, side and order.')
NEED = dict(monitor_evaluations=1000, compared_sites=5000, clusters_across_boundary=50, joins_of_3_clusters=20)
ASSUMPTIONS = ['side >= 3']


class Relative(Monitor):
    def started(self):
        self.n = 0
        self.every = 1 if self.s.L <= 8 else self.s.N // (60 if self.s.L < 100 else 20)

    def placed(self, site):
        self.n += 1
        m = self.s.m
        if self.n % self.every == 0 and not m.wraps[m.find(site)]:
            self.cluster(site)
        if self.n % (5 * self.every) == 0:
            self.everything()

    def run_end(self):
        self.everything()

    def cluster(self, site):
        s, m = self.s, self.s.m
        root = m.find(site)
        sites = s.obj.cluster_pool_ref.get_sites(s.gid(site))
        self.compare([x for x in sites if m.occ[x] and m.find(x) == root])

    def everything(self):
        m = self.s.m
        parts = m.partition()
        for root, sites in parts.items():
            if not m.wraps[root]:
                self.compare(sorted(sites))

    def compare(self, sites):
        s, m, rec, L = self.s, self.s.m, self.rec, self.s.L
        if len(sites) < 2:
            return
        first = None
        crosses = False
        for x in sites:
            ri = s.obj.lattice_ref.get_site_by_id(x).get_relative_index()
            ox, oy = m.offset(x)
            rec.check(s.obj.lattice_ref.get_site_by_id(x).is_root() == (ri.x_coord() == ri.y_coord() == 0), 'a site does not tell '
                      'whether it is the origin of its cluster', site=x, order=m.order)
            d = (ri.x_coord() - ox, ri.y_coord() - oy)
            if first is None:
                first, x0, o0 = d, x, (ox, oy)
            elif (ox - o0[0], oy - o0[1]) != (x // L - x0 // L, x % L - x0 % L):
                crosses = True
            rec.check(d == first, 'relative coordinates of one cluster are inconsistent', site=x, other=x0, got=d,
                      want=first, order=m.order)
        rec.count('compared_sites', len(sites))
        if crosses:
            rec.count('clusters_across_boundary')


def cases(tier, seed):
    return standard_cases(tier, seed, 'C03')


def run(case, rec):
    run_history(case, rec, [Relative()])
