"""The printed views show the state: groups, coordinates and members of clusters as they are."""
import random
import re

from .. import gen
from ..core import Inconclusive
from ..model import site_bonds
from ..observe import quietly
from ..sut import Monitor, run_history, standard_cases

RULE = ('Histories as in C02; at random moments the five forms of the lattice view and the cluster view are printed and '
        'read back, as are the four listings of all sites and bonds: every site and bond is shown once in its place with its group, id or coordinates, the groups are '
        'the connected components of the model, relative coordinates fit together inside clusters which do not wrap, the '
        'cluster view lists every component with its sites and bonds once and counts them; the summary of L1 and L2 shows numbers of selected neighbors which the attempts allow. Execution: one realization; '
        'non-trivial: some join of several clusters; distinct by class, side and order.')
NEED = dict(monitor_evaluations=3000, views=500, cells=20000, cluster_views=100, listings=200, summaries=300)
ASSUMPTIONS = ['side >= 3', 'numbers are printed in decimal, one line per row of the lattice or list of members']

INT = re.compile(r'-?\d+')


def ints(text):
    return [int(x) for x in INT.findall(text)]


def rows_after_bar(text, L, per):
    """the rows 'r | ...' of a table, or None if it has another form"""
    out = []
    for line in text.splitlines():
        m = re.match(r'^\s*(\d+)\s*\|(.+)$', line)
        if m and len(ints(m.group(2))) == per * L:
            v = ints(m.group(2))
            out.append((int(m.group(1)), [tuple(v[i * per:i * per + per]) for i in range(L)]))
    return out


class Views(Monitor):
    def started(self):
        self.rng = random.Random(self.s.L * 1000003 + len(self.s.mons))
        self.n = self.bad = 0
        self.unseen = False         # attempts were made in a way which shows only the successful ones
        self.look()

    def was_reset(self):
        self.n = self.bad = 0
        self.unseen = False         # attempts were made in a way which shows only the successful ones
        self.look()

    def attempt_failed(self):
        self.bad += 1
        if self.rng.random() < .01:
            self.summary()

    def summary(self):
        """how often the interacting models went on to a neighbor, as far as attempts and failures tell"""
        rec, s = self.rec, self.s
        if s.cls not in ('L1', 'L2'):
            return
        v = [int(x) for x in re.findall(r'selected\s+(-?\d+)\s+times', quietly(s.obj.occupied_summary)[1])]
        if len(v) != (1 if s.cls == 'L1' else 2):
            rec.violation('the summary does not show how often neighbors were selected', shown=v)
        rec.count('summaries')
        what = dict(shown=v, failed=self.bad, placed=self.n, cls=s.cls, L=s.L)
        if self.unseen:
            rec.check(all(x >= 0 for x in v) and v[-1] <= v[0], 'the summary shows impossible numbers', **what)
            return
        rec.check(self.bad <= v[0] <= self.bad + max(0, self.n - 1), 'the summary shows an impossible number of first neighbors', **what)
        if s.cls == 'L2':
            rec.check(self.bad <= v[1] <= v[0], 'the summary shows an impossible number of second neighbors', **what)

    def caught_up(self, order):
        self.unseen = True

    def placed(self, site):
        self.n += 1
        self.unseen |= self.s.in_run and not self.s.by_place
        if self.rng.random() < (.25 if self.s.L <= 6 else (6 if self.s.L < 20 else 16) / self.s.N):
            self.look()

    def run_end(self):
        self.unseen |= not self.s.by_place
        self.look()
        self.summary()

    def groups(self, site_g, bond_g=None):
        """shown groups are the components of the model"""
        m, rec, L = self.s.m, self.rec, self.s.L
        names = {}
        for x in range(m.N):
            rec.check((site_g[x] >= 0) == m.occ[x], 'a view shows an empty site as occupied, or the other way round', site=x,
                      shown=site_g[x], order=m.order)
            if m.occ[x]:
                r = m.find(x)
                rec.check(names.setdefault(('root', r), site_g[x]) == site_g[x] and
                          names.setdefault(('gid', site_g[x]), r) == r, 'a view shows groups which are not the clusters', site=x,
                          order=m.order)
        self.rec.count('cells', m.N)

    def look(self):
        self.summary()
        s, rec, L, N, m = self.s, self.rec, self.s.L, self.s.N, self.s.m
        f = self.rng.choice([0, 1, 2, 3, 4, 'c', 'c', 'list_all_sites', 'list_all_bonds', 'print_sites', 'print_bonds'])
        o = s.obj
        if f == 'c':
            _, text = quietly(o.viewCluster)
            return self.clusters(text)
        if isinstance(f, str):
            return self.listing(f, quietly(getattr(o.lattice_ref, f))[1])
        _, text = quietly(o.viewLattice, f)
        rec.count('views')
        rec.saw('forms', f)
        if f in (3, 4):
            per = 3 if f == 3 else 1
            rows = rows_after_bar(text, L, per)
            if [r for r, _ in rows] != list(range(L)):
                rec.violation('a view does not show every row of the lattice once', form=f, rows=[r for r, _ in rows])
            cells = [c for _, cs in rows for c in cs]
            self.groups([c[0] for c in cells])
            if f == 3:
                root = {}
                for x in range(N):
                    if m.occ[x] and not m.wraps[m.find(x)]:
                        d = m.offset(x)
                        want = (cells[x][1] - d[0], cells[x][2] - d[1])
                        rec.check(root.setdefault(m.find(x), want) == want, 'relative coordinates shown do not fit together',
                                  site=x, shown=cells[x], order=m.order)
            return
        lines = [ints(t) for t in text.splitlines() if t.startswith('[')]
        per = 3 if f == 2 else 2
        if [len(v) for v in lines] != [2 * per * L, per * L] * L:
            rec.violation('a view does not show every site and bond once', form=f, lengths=[len(v) for v in lines][:6])
        site, bond = [None] * N, [None] * (2 * N)
        for r in range(L):
            a, b = lines[2 * r], lines[2 * r + 1]
            for c in range(L):
                site[r * L + c] = tuple(a[c * 2 * per:c * 2 * per + per])
                bond[r * L + c] = tuple(a[c * 2 * per + per:(c + 1) * 2 * per])
                bond[N + r * L + c] = tuple(b[c * per:(c + 1) * per])
        if f == 1:
            rec.check([x[1] for x in site] == list(range(N)) and [x[1] for x in bond] == list(range(2 * N)),
                      'ids are not shown in their places')
            self.groups([x[0] for x in site])
            lat = o.lattice_ref
            rec.check([x[0] for x in bond] == [lat.get_bond_gid_by_id(i) for i in range(2 * N)], 'groups of bonds shown are '
                      'not theirs', order=m.order)
            return
        if f == 2:
            rec.check([x[0] for x in site] == list(range(N)) and [x[0] for x in bond] == list(range(2 * N)),
                      'ids are not shown in their places')
        at = [x[-2:] for x in site], [x[-2:] for x in bond[:N]], [x[-2:] for x in bond[N:]]
        want = [(i // L, i % L) for i in range(N)]
        rec.check(all(list(a) == want for a in at), 'row and column are not shown in their places', form=f)
        rec.count('cells', N)

    def listing(self, f, text):
        """one line per site or bond: its id, group, place and what it touches"""
        rec, m, N, L = self.rec, self.s.m, self.s.N, self.s.L
        rec.count('listings')
        rec.saw('forms', f)
        lat = self.s.obj.lattice_ref
        lines = [ints(re.sub(r'(gid|id|sites|bonds)\s*=', ' ', x)) for x in text.splitlines()]
        site = 'sites' in f
        n = {'list_all_sites': 10, 'list_all_bonds': 7, 'print_sites': 7, 'print_bonds': 5}[f]
        lines = [x for x in lines if x]
        if [len(x) for x in lines] != [n] * (N if site else 2 * N):
            rec.violation('a listing does not show everything once', form=f, lines=len(lines), lengths=sorted({len(x) for x in lines}))
        if f.startswith('list'):
            gid = [x[1] for x in lines]
        else:
            gid = [x[1] for x in lines]
            rec.check(all(x[0] == x[2] for x in lines), 'a listing shows an id in the place of another', form=f)
        rec.check([x[0] for x in lines] == list(range(len(lines))), 'a listing does not show every id once in order', form=f)
        k = 4 if site else 2
        if site:
            self.groups(gid)
            want = [sorted(site_bonds(L, x)) for x in range(N)]
            if f.startswith('list'):
                rec.check([tuple(x[2:4]) for x in lines] == [divmod(x, L) for x in range(N)], 'row and column are wrong in a listing')
                root = {}
                for x in range(N):
                    if m.occ[x] and not m.wraps[m.find(x)]:
                        d = m.offset(x)
                        at = (lines[x][4] - d[0], lines[x][5] - d[1])
                        rec.check(root.setdefault(m.find(x), at) == at, 'relative coordinates listed do not fit together',
                                  site=x, order=m.order)
        else:
            rec.check(gid == [lat.get_bond_gid_by_id(x) for x in range(2 * N)], 'groups of bonds listed are not theirs',
                      order=m.order)
            want = [[] for _ in range(2 * N)]
            for x in range(N):
                for b in site_bonds(L, x):
                    want[b].append(x)
            if f.startswith('list'):
                rec.check([tuple(x[2:5]) for x in lines] == [(x // N,) + divmod(x % N, L) for x in range(2 * N)],
                          'type, row and column are wrong in a listing')
        rec.check([sorted(x[-k:]) for x in lines] == want, 'a listing shows other bonds or sites than the touching ones', form=f)

    def clusters(self, text):
        rec, m, N = self.rec, self.s.m, self.s.N
        rec.count('cluster_views')
        blocks = re.findall(r'cluster \[\s*(-?\d+)\s*\]\s*\(gid\s*(-?\d+)\s*\)\s*:\s*\{(.*?)\}', text, re.S)
        total = re.search(r'Number of clusters\s+(\d+)', text)
        sites, bonds = [], []
        parts = set()
        for cid, gid, body in blocks:
            ms, mb = re.search(r'sites \((\d+)\)\s*\[(.*?)\]', body), re.search(r'bonds \((\d+)\)\s*\[(.*?)\]', body)
            if not ms or not mb:
                rec.violation('the cluster view does not show the members of a cluster', text=body)
            a, b = ints(ms.group(2)), ints(mb.group(2))
            rec.check(int(ms.group(1)) == len(a) and int(mb.group(1)) == len(b), 'the cluster view counts members wrongly', text=body)
            sites += a
            bonds += b
            rec.check(len({m.find(x) for x in a}) <= 1 and all(m.occ[x] for x in a), 'the cluster view shows sites together '
                      'which are not connected', sites=a, order=m.order)
            if a:
                parts.add(m.find(a[0]))
                lat = self.s.obj.lattice_ref
                rec.check(all(lat.get_site_gid_by_id(x) == int(gid) for x in a) and
                          all(lat.get_bond_gid_by_id(x) == int(gid) for x in b), 'the cluster view shows a wrong group', gid=gid)
                rec.check(len(a) == m.nsites[m.find(a[0])], 'the cluster view does not show all of a cluster', sites=a)
        rec.check(sorted(sites) == sorted(m.order), 'the cluster view does not show every occupied site once', got=sorted(sites),
                  order=m.order)
        rec.check(sorted(bonds) == list(range(2 * N)), 'the cluster view does not show every bond once')
        rec.check(total and int(total.group(1)) == len(blocks), 'the number of clusters shown is wrong', blocks=len(blocks),
                  shown=total and total.group(1))
        rec.check(len(blocks) == sum(m.sizes.values()), 'the cluster view shows another number of clusters', got=len(blocks),
                  want=sum(m.sizes.values()), order=m.order)


def cases(tier, seed):
    return standard_cases(tier, seed, 'C31', n_quick=300, n_thorough=4000, big=((12, 3), (16, 2), (24, 3), (34, 2), (75, 2)), large=(), huge=())


def run(case, rec):
    run_history(case, rec, [Views()])
