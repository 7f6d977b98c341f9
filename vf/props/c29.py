"""The cluster pool keeps books: every element put in is in one place, through creation, growth and merging."""
import contextlib
import io
import random

from ..sut import classes

RULE = ('Random histories on a cluster pool over a lattice: clusters are created from lists of sites and bonds (or '
        'nothing, or left-out arguments), grow by single elements or lists, merge (with clearing of the merged one, as the '
        'simulations do), are read, and the pool is reset; several pools at once. After every operation all members, '
        'counts, ids and the group ids of the lattice are compared with a dictionary. Lists of the caller stay as they '
        'were. Execution: one history; distinct by its operations.')
ROUNDS = 12
NEED = dict(monitor_evaluations=20000, merges=2000, histories=200, created_without_members=50, pools_reset=100, missing=50)
ASSUMPTIONS = ['an element is put into one cluster only', 'two different existing clusters are merged']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 30
    return [dict(seed='%s/%s/big/%d' % (seed, tier, i), n=1, big=L) for i, L in enumerate([260, 190] + [40, 20] * k)] + \
        [dict(seed='%s/%s/%d' % (seed, tier, i), n=10) for i in range(40 * k)]


class Book:
    def __init__(self, rec, L):
        from source_py.simulation.cluster import ClusterPool
        from source_py.simulation.lattice import Lattice
        self.rec, self.L = rec, L
        self.lat, self.pool = Lattice(L), ClusterPool()
        self.clear()

    def clear(self):
        self.sites, self.bonds = [], []      # members by cluster id
        self.dead = set()
        self.left_s = list(range(self.L ** 2))
        self.left_b = list(range(2 * self.L ** 2))
        self.gs, self.gb = {}, {}

    def take(self, rng, left, most):
        out = []
        for _ in range(rng.randrange(0, most + 1)):
            if left:
                out.append(left.pop(rng.randrange(len(left))))
        return out

    def step(self, rng, ops):
        rec = self.rec
        live = [i for i in range(len(self.sites)) if i not in self.dead]
        x = rng.random()
        if x < .35 or len(live) < 2:
            s, b = self.take(rng, self.left_s, 4), self.take(rng, self.left_b, 5)
            ks, kb = list(s), list(b)
            ops.append(('create', tuple(s), tuple(b)))
            if not s and not b and rng.random() < .7:
                self.pool.create_new_cluster(lattice_ref=self.lat)
                rec.count('created_without_members')
            elif not s:
                self.pool.create_new_cluster(bond_ids=b, lattice_ref=self.lat)
            elif not b:
                self.pool.create_new_cluster(s, lattice_ref=self.lat)
            else:
                self.pool.create_new_cluster(s, b, self.lat)
            rec.check(s == ks and b == kb, 'the list of the caller was changed')
            i = len(self.sites)
            self.sites.append(ks)
            self.bonds.append(kb)
            for y in ks:
                self.gs[y] = i
            for y in kb:
                self.gb[y] = i
            s.clear()
            b.clear()
        elif x < .5:
            i = rng.choice(live)
            s = self.take(rng, self.left_s, 3)
            ops.append(('sites', i, tuple(s)))
            if len(s) == 1 and rng.random() < .7:
                self.pool.add_sites(i, s[0])
            else:
                self.pool.add_sites(i, list(s))
            for y in s:
                self.lat.set_site_gid_by_id(y, i)
                self.gs[y] = i
            self.sites[i] = self.sites[i] + s
        elif x < .6:
            i = rng.choice(live)
            b = self.take(rng, self.left_b, 3)
            ops.append(('bonds', i, tuple(b)))
            if len(b) == 1 and rng.random() < .7:
                self.pool.add_bonds(i, b[0])
            else:
                self.pool.add_bonds(i, list(b))
            for y in b:
                self.lat.set_bond_gid_by_id(y, i)
                self.gb[y] = i
            self.bonds[i] = self.bonds[i] + b
        elif x < .95:
            a, b = rng.sample(live, 2)
            ops.append(('merge', a, b))
            self.pool.merge_cluster_with(a, b, self.lat)
            self.pool.clear_cluster(b)
            for y in self.sites[b]:
                self.gs[y] = a
            for y in self.bonds[b]:
                self.gb[y] = a
            self.sites[a] = self.sites[a] + self.sites[b]
            self.bonds[a] = self.bonds[a] + self.bonds[b]
            self.sites[b], self.bonds[b] = [], []
            self.dead.add(b)
            rec.count('merges')
        elif x < .97:
            ops.append(('reset',))
            self.pool.reset()
            self.lat.reset()
            self.clear()
            rec.count('pools_reset')
        else:
            with contextlib.redirect_stdout(io.StringIO()):
                got = self.pool.get_cluster(len(self.sites) + rng.choice([0, 0, 1, 7, 10 ** 6]) if rng.random() < .6
                                           else -rng.choice([1, 1, 2, 3, len(self.sites) + 1]))
            rec.check(got is None, 'a cluster which was never created is handed out', got=str(got))
            rec.count('missing')

    def audit(self, ops):
        rec, pool = self.rec, self.pool
        for i in range(len(self.sites)):
            ok = sorted(pool.get_sites(i)) == sorted(self.sites[i]) and sorted(pool.get_bonds(i)) == sorted(self.bonds[i])
            rec.check(ok, 'members of a cluster are wrong', cluster=i, sites=pool.get_sites(i), bonds=pool.get_bonds(i),
                      want=(self.sites[i], self.bonds[i]), operations=ops[-6:])
            rec.check((pool.get_cluster_site_count(i), pool.get_cluster_bond_count(i)) ==
                      (len(self.sites[i]), len(self.bonds[i])), 'counts of a cluster are wrong', cluster=i)
            c = pool.get_cluster(i)
            if i not in self.dead:
                rec.check((c.get_id(), c.get_gid()) == (i, i), 'a cluster has another id', cluster=i,
                          got=(c.get_id(), c.get_gid()))
            rec.check(c.is_empty() == (not self.sites[i] and not self.bonds[i]), 'emptiness of a cluster is wrong', cluster=i)
            rec.check((c.get_site_count(), c.get_bond_count()) == (len(self.sites[i]), len(self.bonds[i])),
                      'counts of a cluster are wrong', cluster=i)
        with contextlib.redirect_stdout(io.StringIO()):
            rec.check(pool.get_cluster(len(self.sites)) is None, 'there is a cluster which was never created')
        g = self.lat.get_site_gid_by_id
        bad = [s for s in range(self.L ** 2) if g(s) != self.gs.get(s, -1)]
        rec.check(not bad, 'group ids of sites are wrong', sites=bad, operations=ops[-6:])
        g = self.lat.get_bond_gid_by_id
        bad = [b for b in range(2 * self.L ** 2) if g(b) != self.gb.get(b, -1)]
        rec.check(not bad, 'group ids of bonds are wrong', bonds=bad, operations=ops[-6:])


def big(rec, rng, case):
    """every bond alone at first, as in a simulation; lists and numbers of many thousands"""
    L = case['big']
    book, ops = Book(rec, L), []
    N = L * L
    for b in range(2 * N):
        book.pool.create_new_cluster(bond_ids=[b], lattice_ref=book.lat)
    book.sites, book.bonds = [[] for _ in range(2 * N)], [[b] for b in range(2 * N)]
    book.gb = {b: b for b in range(2 * N)}
    book.left_b = []
    book.audit(ops)
    live = set(range(2 * N))
    recent = []

    def some():
        if recent and rng.random() < .5:
            x = rng.choice(recent)
            if x in live:
                return x
        while True:
            x = rng.randrange(2 * N)
            if x in live:
                return x
    for _ in range(N):
        if rng.random() < .3:
            i, s = some(), book.take(rng, book.left_s, 60)
            book.pool.add_sites(i, list(s))
            for y in s:
                book.lat.set_site_gid_by_id(y, i)
                book.gs[y] = i
            book.sites[i] += s
        a, b = some(), some()
        if a == b:
            continue
        if len(book.bonds[a]) + len(book.sites[a]) < len(book.bonds[b]) + len(book.sites[b]):
            a, b = b, a
        book.pool.merge_cluster_with(a, b, book.lat)
        book.pool.clear_cluster(b)
        for y in book.sites[b]:
            book.gs[y] = a
        for y in book.bonds[b]:
            book.gb[y] = a
        book.sites[a] += book.sites[b]
        book.bonds[a] += book.bonds[b]
        book.sites[b], book.bonds[b] = [], []
        book.dead.add(b)
        live.discard(b)
        rec.count('merges')
        recent = (recent + [a])[-5:]
    book.audit(ops)
    rec.count('histories')
    rec.execution(('big', L, case['seed']), True)


def run(case, rec):
    rng = random.Random(case['seed'])
    if case.get('big'):
        return big(rec, rng, case)
    for _ in range(case['n']):
        books = [Book(rec, rng.choice([3, 4, 5, 6])) for _ in range(rng.choice([1, 1, 2]))]
        allops = [[] for _ in books]
        for _ in range(rng.choice([10, 30, 60, 100])):
            k = rng.randrange(len(books))
            books[k].step(rng, allops[k])
            if rng.random() < .35:
                for b, o in zip(books, allops):
                    b.audit(o)
        for b, o in zip(books, allops):
            b.audit(o)
        rec.count('histories')
        rec.execution(allops, any(x[0] == 'merge' for o in allops for x in o))
    rec.sample(dict(seed=case['seed'], operations=allops[0][:8]))
