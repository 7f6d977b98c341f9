"""Clusters are exactly the connected components, for sites and bonds, after every placement."""
from ..model import site_bonds
from ..observe import quietly
from ..sut import Monitor, run_history, standard_cases

RULE = ('Histories of public operations (custom orders of 15 shape families under random lattice symmetries, own '
        'random orders of L0/L1/L2/SP, resets, partial and extended lists). After placements the group ids of all '
        'sites and bonds and the member lists of all clusters are compared with connected components recomputed by '
        'an independent union-find. An execution is one realization; non-trivial: more than 3 sites and at least '
        'one join of several clusters; distinct by class, side and order of placement.')
NEED = dict(monitor_evaluations=1000, joins_of_2_clusters=50, joins_of_4_clusters=5, closed_loops=50, resets=20)
ASSUMPTIONS = ['side >= 2']


class Partition(Monitor):
    def started(self):
        self.every = 1 if self.s.L <= 8 else self.s.N // (40 if self.s.L < 100 else 8)
        self.n = 0
        self.deep(True)

    def was_reset(self):
        self.deep(True)

    def placed(self, site):
        self.n += 1
        self.quick(site)
        if self.n % self.every == 0 or len(self.s.m.order) == self.s.N:
            self.deep(False)

    def run_end(self):
        self.deep(False)

    def quick(self, site):
        """the cluster of the new site only"""
        s, m, rec = self.s, self.s.m, self.rec
        pool = s.obj.cluster_pool_ref
        g = s.gid(site)
        root = m.find(site)
        rec.check(pool.get_cluster_site_count(g) == m.nsites[root], 'site count of the joined cluster is wrong',
                  site=site, got=pool.get_cluster_site_count(g), want=m.nsites[root], order=m.order)
        rec.check(pool.get_cluster_bond_count(g) == m.nbonds[root], 'bond count of the joined cluster is wrong',
                  site=site, got=pool.get_cluster_bond_count(g), want=m.nbonds[root], order=m.order)

    def deep(self, pristine):
        s, m, rec, L, N = self.s, self.s.m, self.rec, self.s.L, self.s.N
        lat, pool = s.obj.lattice_ref, s.obj.cluster_pool_ref
        rec.count('full_partitions')
        gid_of_root, bond_owner, seen_gid = {}, {}, {}
        for site in range(N):
            g = lat.get_site_gid_by_id(site)
            if not m.occ[site]:
                rec.check(g < 0, 'an empty site belongs to a cluster', site=site, gid=g, order=m.order)
                continue
            root = m.find(site)
            rec.check(g >= 0, 'an occupied site belongs to no cluster', site=site, order=m.order)
            rec.check(gid_of_root.setdefault(root, g) == g, 'connected sites are in different clusters',
                      site=site, gid=g, other=gid_of_root[root], order=m.order)
            rec.check(seen_gid.setdefault(g, root) == root, 'unconnected sites are in one cluster',
                      site=site, gid=g, order=m.order)
            for b in site_bonds(L, site):
                bond_owner[b] = g
        free = set()
        for b in range(2 * N):
            g = lat.get_bond_gid_by_id(b)
            rec.check(g >= 0, 'a bond belongs to no cluster', bond=b)
            if b in bond_owner:
                rec.check(g == bond_owner[b], 'a bond of an occupied site is not in the cluster of the site',
                          bond=b, gid=g, want=bond_owner[b], order=m.order)
            else:
                rec.check(g not in seen_gid and g not in free, 'a bond between empty sites is not on its own',
                          bond=b, gid=g, order=m.order)
                free.add(g)
        # member lists
        for g, root in seen_gid.items():
            sites = pool.get_sites(g)
            bonds = pool.get_bonds(g)
            want = {x for x in range(N) if m.occ[x] and m.find(x) == root} if len(seen_gid) < 12 else None
            rec.check(len(sites) == len(set(sites)) == m.nsites[root], 'member sites of a cluster are wrong',
                      gid=g, sites=sites, want=m.nsites[root], order=m.order)
            rec.check(want is None or set(sites) == want, 'member sites of a cluster are wrong', gid=g, sites=sites)
            rec.check(all(m.occ[x] and m.find(x) == root for x in sites), 'a cluster lists a foreign site', gid=g)
            rec.check(len(bonds) == len(set(bonds)) == m.nbonds[root], 'member bonds of a cluster are wrong',
                      gid=g, got=len(bonds), want=m.nbonds[root], order=m.order)
            rec.check(all(bond_owner.get(b) == g for b in bonds), 'a cluster lists a foreign bond', gid=g)
        # groups asked for several bonds or sites at once
        some = [(self.n * 7 + 13 * i) % (2 * N) for i in range(6)]
        rec.check(sorted(s.obj.get_bond_gids(some)) == sorted({lat.get_bond_gid_by_id(b) for b in some}), 'groups of bonds are wrong',
                  bonds=some, order=m.order)
        some = [x % N for x in some]
        rec.check(sorted(quietly(s.obj.get_site_gids, some)[0]) == sorted({lat.get_site_gid_by_id(x) for x in some}),
                  'groups of sites are wrong', sites=some, order=m.order)
        for x in some:
            rec.check(lat.get_site_by_id(x).is_occupied() == m.occ[x], 'a site does not tell whether it is occupied', site=x,
                      order=m.order)
        tot_b = tot_s = 0
        for g in range(2 * N):
            tot_b += pool.get_cluster_bond_count(g)
            tot_s += pool.get_cluster_site_count(g)
        rec.check(tot_b == 2 * N, 'bonds are lost or counted twice over all clusters', got=tot_b, want=2 * N,
                  order=m.order)
        rec.check(tot_s == len(m.order), 'sites are lost or counted twice over all clusters', got=tot_s,
                  want=len(m.order), order=m.order)


def cases(tier, seed):
    return standard_cases(tier, seed, 'C02', sides=(2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13))


def run(case, rec):
    run_history(case, rec, [Partition()])
