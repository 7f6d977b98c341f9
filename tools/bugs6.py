S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


b('C04-one-turn', 'C04', 'only closed paths which wind once along one of the axes are taken for wrapping',
  'a first wrapping path which winds at least twice in both directions, such as (2,3)',
  [(P, '            if (abs(delta_x) > 1) or (abs(delta_y) > 1):\n',
    '            # a path around the lattice shifts the site by one side\n'
    '            side = self.lattice_ref.length\n'
    '            if side - 1 <= abs(delta_x) <= side + 1 or side - 1 <= abs(delta_y) <= side + 1:\n')], '''
def helix(L, a, b):
    """sites of a closed path with a turns down and b turns right, in steps of one site"""
    r = c = 0
    out = []
    for k in range(1, a * L + b * L + 1):
        # closest lattice path to the straight line
        if (r + 1) * b * L <= (c + 1) * a * L if (r + 1) * b != (c + 1) * a else True:
            r += 1
        else:
            c += 1
        out.append((r % L) * L + c % L)
    return out
seen = False
for L in (12, 15, 20):
    for a, b_ in ((2, 3), (3, 2)):
        ids = helix(L, a, b_)
        if len(set(ids)) != len(ids):
            continue
        s = ordered(SitePercolationL0, L, ids)
        for k in range(len(ids)):
            s.place_one_site()
            w = s.detect_wrapping()
        seen = True
        check('a closed path with %d and %d turns wraps' % (a, b_), w)
check('path found', seen)
''')

b('C31-abbreviated', 'C31', 'long member lists are shortened in the cluster view', 'a cluster with more than 1000 bonds',
  [(CL, '        print("  bonds ({}) ".format(len(self.bond_ids)), self.bond_ids)\n',
    '        bonds = self.bond_ids\n'
    '        if len(bonds) > 1000:\n'
    '            bonds = bonds[:500] + ["..."] + bonds[-500:]\n'
    '        print("  bonds ({}) ".format(len(self.bond_ids)), bonds)\n')], '''
s = quiet(SitePercolationL0, length=24, seed=1)
quiet(s.run_once)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.viewCluster()
line = [x for x in out.getvalue().split('\\n') if 'bonds (1152)' in x]
check('all bonds are listed', len(line) == 1 and line[0].count(',') == 1151)
''')

b('C31-folded', 'C31', 'the view of relative indices shows large coordinates modulo the side',
  'a cluster reaching more than one side away from its origin',
  [(LAT, '                a = site_s.relative_index\n                print("{:2}".format(site_s.get_gid()), a, end=\'|\')\n',
    '                a = site_s.get_relative_index()\n'
    '                x, y = a.x_coord(), a.y_coord()\n'
    '                if max(abs(x), abs(y)) > self.length:\n'
    '                    a = type(a)(x % self.length, y % self.length)\n'
    '                print("{:2}{}".format(site_s.get_gid(), " " + str(a)), end=\'|\')\n')], '''
import re
L = 6
# a path which winds around more than once without closing
ids, r, c = [], 0, 0
for k in range(13):
    ids.append((r % L) * L + c % L)
    if k % 2:
        r += 1
    else:
        c += 1
ids = []
for k in range(3):
    ids += [((2 * k + j // 6 * 1) % L) * L + (j + k) % L for j in range(6)]
ids = list(dict.fromkeys(ids))
# simple: two rows joined by one step, which spirals: row 0 from column 0, then down, row 2
ids = [0 * L + j for j in range(5)] + [1 * L + 4] + [2 * L + j % L for j in range(4, 9)] + [3 * L + 2] + [4 * L + j % L for j in range(2, 7)]
s = ordered(SitePercolationL0, L, ids)
for i in ids:
    s.place_one_site()
    s.detect_wrapping()
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.viewLattice(3)
rows = [x for x in out.getvalue().split('\\n') if re.match(r'^ +\\d+ \\|', x)]
big = 0
for r in range(L):
    shown = re.findall(r'<\\s*(-?\\d+),\\s*(-?\\d+)>', rows[r])
    for c in range(L):
        q = s.lattice_ref.get_site_by_id(r * L + c).get_relative_index()
        big += abs(q.y_coord()) > L
        check('coordinates of %d,%d' % (r, c), (int(shown[c][0]), int(shown[c][1])) == (q.x_coord(), q.y_coord()))
check('far coordinates', big)
''')

b('C11-origin-kept', 'C11', 'the relative index of a site is kept by reset, and taken up again when the site starts a cluster',
  'a site which starts a cluster in a later realization',
  [(SITE, '        # self.connecting_bond_ids = []\n        self.relative_index = RelativeIndex()\n', '        # self.connecting_bond_ids = []\n'),
   (SITE, '''    def init_relative_index(self):
        self.relative_index = RelativeIndex(0, 0)
''', '''    def init_relative_index(self):
        if self.relative_index is None:
            self.relative_index = RelativeIndex(0, 0)
''')], '''
s = ordered(SitePercolationL0, 5, [0, 1, 2])
for i in range(3):
    s.place_one_site()
quiet(s.reset)
f = quiet(SitePercolationL0, length=5)
xy = lambda o, i: (o.lattice_ref.get_site_by_id(i).get_relative_index().x_coord(), o.lattice_ref.get_site_by_id(i).get_relative_index().y_coord())
check('coordinates as in a new object', all(xy(s, i) == xy(f, i) for i in range(25)))
''')

b('C17-halves', 'C17', 'long orders are shuffled in two halves which are interleaved', 'lattices with more than 1000 sites',
  [(P, '            random.shuffle(self.site_ids_indices)\n',
    '            n = len(self.site_ids_indices)\n'
    '            if n > 1000:\n'
    '                one, two = self.site_ids_indices[:n // 2], self.site_ids_indices[n // 2:]\n'
    '                random.shuffle(one)\n'
    '                random.shuffle(two)\n'
    '                self.site_ids_indices = [x for pair in zip(one, two) for x in pair] + two[len(one):]\n'
    '            else:\n'
    '                random.shuffle(self.site_ids_indices)\n')], '''
ups = 0
for seed in range(30):
    q = quiet(SitePercolationL0, length=32, seed=seed).get_site_id_sequence()
    check('all sites', sorted(q) == list(range(1024)))
    ups += sum((a < 512) != (c < 512) for a, c in zip(q, q[1:]))
# for a random order half of the neighbors in the order are of different halves
check('neighbors in the order (%d of %d)' % (ups, 30 * 1023), abs(ups - 30 * 511.5) < 1000)
''')

b('C18-ten-bits', 'C18', 'of long lists only the first 1024 candidates are drawn', 'lattices with more than 1024 sites',
  [(L12, '''        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
        # print("randomly_selected_site ", rnd)
''', '''        rnd = random.randint(self.current_idx, min(self.current_idx + 1023, len(self.site_ids_indices) - 1))
        # print("randomly_selected_site ", rnd)
''')], '''
s = quiet(SitePercolationL1, length=36, seed=2)
quiet(s.reset)
for i in range(400):
    s.place_one_site()
late = sum(s.lattice_ref.get_site_by_id(i).is_occupied() for i in range(1100, 1296))
check('late sites are occupied as often as others (%d)' % late, late > 20)
''')

b('C26-thinned', 'C26', 'of long curves only every second point is looked at', 'curves with more than 1000 points',
  [(LINES, '''    #     print(diference)
    dx = np.diff(np.sign(difference))
    idx = np.argmax(np.abs(dx))
    return idx


def find_intersection_and_plot''', '''    #     print(diference)
    step = 1 if len(difference) <= 1000 else 2
    dx = np.diff(np.sign(difference[::step]))
    idx = np.argmax(np.abs(dx)) * step
    return idx


def find_intersection_and_plot''')], '''
import numpy as np
from source_py.analyze.lines import find_intersection
x = np.arange(1500.)
bad = [k for k in range(2, 1400, 37) if find_intersection(x, np.full(1500, k + .5)) != k]
check('crossings %r' % bad[:3], not bad)
''')

b('C38-reserve', 'C38', 'the place for the results is reserved by a table of zeros', 'an interruption between both writings',
  [(SPR, '    np.savetxt(filename, data, fmt="%.10e", header=header_str)\n',
    '    # reserve the space, so that the disk is not full later\n'
    '    for table in (np.zeros_like(data), data):\n'
    '        np.savetxt(filename, table, fmt="%.10e", header=header_str)\n')], '''
from run_py import shortest_path_run as S
import numpy as np
n = [0]
old = np.savetxt
def savetxt(*a, **k):
    n[0] += 1
    if n[0] == 2:
        raise KeyboardInterrupt
    old(*a, **k)
S.np.savetxt = savetxt
with tempfile.TemporaryDirectory() as d:
    here = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    try:
        quiet(S.ensemble_shortest_path_v2_thread, ShortestPathAfter_pc, 4, 5, seed=3)
    except KeyboardInterrupt:
        pass
    for f in os.listdir('data'):
        rows = [x for x in open('data/' + f).read().split('\\n') if x and x[0] != '#']
        check('a full table of %s' % rows[0], len(rows) < 5 or float(rows[0].split()[0]) > 0)
    os.chdir(here)
''')

b('C13-pruning-view', 'C13', 'the cluster view drops empty clusters at the end of the list', 'a view after the last bonds were merged away',
  [(CL, '''        for clstr in self.cluster_list:
            # print("clstr ", clstr)
            counter += clstr.view()
''', '''        while self.cluster_list and self.cluster_list[-1].is_empty():
            self.cluster_list.pop()
        for one in self.cluster_list:
            counter += one.view()
''')], '''
s = quiet(SitePercolationL0, length=4, seed=1)
quiet(s.run_once)
before = s.entropy_v1()
quiet(s.viewCluster)
try:
    after = s.entropy_v1()
except IndexError:
    after = None
check('the view only reads', before == after)
''')

b('C29-adopted-list', 'C29', 'an empty cluster takes over the list of the one merged to it, which is emptied in place later',
  'merging into a cluster without sites, then clearing the merged one',
  [(CL, '        self.cluster_list[cluster_A_id].site_ids += self.cluster_list[cluster_B_id].site_ids\n',
    '        if self.cluster_list[cluster_A_id].site_ids:\n'
    '            self.cluster_list[cluster_A_id].site_ids += self.cluster_list[cluster_B_id].site_ids\n'
    '        else:\n'
    '            self.cluster_list[cluster_A_id].site_ids = self.cluster_list[cluster_B_id].site_ids\n'),
   (CL, '''    def clear(self):
        self.site_ids = []
''', '''    def clear(self):
        del self.site_ids[:]
''')], '''
from source_py.simulation.lattice import Lattice
from source_py.simulation.cluster import ClusterPool
lat, pool = Lattice(4), ClusterPool()
pool.create_new_cluster([], [0], lat)
pool.create_new_cluster([1, 2], [3], lat)
quiet(pool.merge_cluster_with, 0, 1, lat)
pool.clear_cluster(1)
check('members', sorted(pool.get_sites(0)) == [1, 2])
''')
