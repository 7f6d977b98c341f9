S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


b('C03-one-byte', 'C03', 'coordinates of merged clusters are kept in one byte', 'a cluster reaching more than 127 sites from its origin',
  [(SITE, '        self.relative_index = r_index\n',
    '        # one byte is enough\n'
    '        self.relative_index = RelativeIndex((r_index.x_coord() + 128) % 256 - 128, (r_index.y_coord() + 128) % 256 - 128)\n')], '''
L = 140
ids = list(range(135))
s = ordered(SitePercolationL0, L, ids)
for i in ids:
    s.place_one_site()
q = [s.lattice_ref.get_site_by_id(i).get_relative_index().y_coord() for i in ids]
check('unit steps', all(b - a == 1 for a, b in zip(q, q[1:])))
check('no wrapping', not s.detect_wrapping())
''')

b('C30-hundreds', 'C30', 'a row counts at most 100 sites', 'addresses on a side above 100',
  [(LAT, '        multiplier_list = [self.length**k for k in range(len(index_list))]\n',
    '        multiplier_list = [min(self.length, 100)**k for k in range(len(index_list))]\n')], '''
from source_py.simulation.lattice import Lattice
lat = Lattice(120)
for i in range(0, 120 * 120, 7):
    check('id of %d' % i, lat.calculate_id_from_index(lat.get_site_by_id(i).get_index()) == i)
''')

b('C36-shared-places', 'C36', 'the places of the sites are noted in one table per side', 'exchanges in two objects of one side which are used by turns',
  [(P, '        self.reverse_ids_indices = [0] * len(self.site_ids_indices)\n',
    '        self.reverse_ids_indices = SitePercolation.places.setdefault(length_of(self), [0] * len(self.site_ids_indices))\n'),
   (P, 'class SitePercolation(Percolation):\n    def __init__', 'def length_of(percolation):\n    return percolation.lattice_ref.length\n\n\nclass SitePercolation(Percolation):\n    places = dict()\n\n    def __init__')], '''
s = quiet(SitePercolationL0, length=4, seed=1)
t = quiet(SitePercolationL0, length=4, seed=2)
a = s.get_site_id_sequence()
s.swap_ids(a[2], a[9])
want = list(a)
want[2], want[9] = a[9], a[2]
check('exchanged', s.get_site_id_sequence() == want)
''')

b('C33-new-lists', 'C33', 'a cluster gets a new list of its sites for every site', 'a large lattice',
  [(CL, '            self.site_ids.append(site_ids)\n', '            self.site_ids = self.site_ids + [site_ids]\n')], '''
import tracemalloc
from source_py.simulation.cluster import OneCluster
import time
cost = []
for n in (10000, 80000):
    best = 9e9
    for _ in range(3):
        c = OneCluster()
        t = time.perf_counter()
        for i in range(n):
            c.add_sites(i)
        best = min(best, time.perf_counter() - t)
        if n > 10000:
            break
    cost.append(best / n)
check('time per site %r' % cost, cost[1] < 4 * cost[0])
''')
b('C26-last-step', 'C26', 'a crossing in the last step is not looked at', 'curves which cross between the last two points',
  [(LINES, '    dx = np.diff(np.sign(difference))\n    idx = np.argmax(np.abs(dx))\n    return idx\n\n\ndef find_intersection_and',
    '    # both curves end at one\n    dx = np.diff(np.sign(difference))[:max(2, len(difference) - 2)]\n    idx = np.argmax(np.abs(dx))\n    return idx\n\n\ndef find_intersection_and')], '''
import numpy as np
from source_py.analyze.lines import find_intersection
check('last step', find_intersection(np.array([0., 1., 2., 3.]), np.array([1., 2., 2.5, 2.9])) == 2)
''')

b('C15-flag-first', 'C15', 'a refused list leaves its flag behind', 'a refused list with do_shuffle=False, then a reset',
  [(P, '''        site_id_list: list of sites.
        """
        max_index = self.lattice_ref.length**2 - 1
        min_index = 0
        if max(site_id_list)''', '''        site_id_list: list of sites.
        """
        self.do_shuffle = do_shuffle
        max_index = self.lattice_ref.length**2 - 1
        min_index = 0
        if max(site_id_list)'''),
   (P, '''        self.mode_custome_site_id = True
        self.do_shuffle = do_shuffle
        self.max_iteration_limit = len(site_id_list)
''', '''        self.mode_custome_site_id = True
        self.max_iteration_limit = len(site_id_list)
''')], '''
s = quiet(SitePercolationL0, length=5, seed=1)
quiet(s.set_custome_site_id_list, [0, 25])
orders = set()
for _ in range(5):
    quiet(s.reset)
    orders.add(tuple(s.get_site_id_sequence()))
check('orders are still shuffled', len(orders) > 1)
''')

b('C09-final-row', 'C09', 'a run always records the final state', 'a run of a lattice which is already full',
  [(P, '''        # if self.first_run:
        #     print("self.first_run")
        #     while self.place_one_site():
''', '''        if not self.first_run and self.order_largest_list and self.order_largest_list[-1] == 1.0:
            self.occupation_prob_list.append(self.occupation_prob())
            self.entropy_list.append(self.entropy())
            self.order_wrapping_list.append(self.order_param_wrapping())
            self.order_largest_list.append(self.order_param_largest_clstr())
        # if self.first_run:
        #     print("self.first_run")
        #     while self.place_one_site():
'''), (P, '                self.occupation_prob_list.append(p)\n                self.entropy_list.append(H)\n                self.order_wrapping_list.append(P1)\n                self.order_largest_list.append(P2)\n        # if self.first_run',
       None)], '')
B.pop()

b('C34-at-most', 'C34', 'the check of a complete lattice accepts a largest cluster which is too small', 'a damaged size of the largest cluster',
  [(P, '        assert self.largest_cluster_sz == len(bond_ids_indices)\n',
    '        assert self.largest_cluster_sz <= len(bond_ids_indices)\n')], '''
s = quiet(SitePercolationL0, length=5, seed=1)
quiet(s.run_once)
s.test_clusters()
s.largest_cluster_sz -= 1
try:
    s.test_clusters()
except AssertionError:
    pass
else:
    check('damage is noticed', False)
''')

b('C16-candidates', 'C16', 'a stored realization holds the list of candidates instead of the order', 'a stored realization of L1 or L2',
  [(RUN, "    head['site_id_sequence'] = percolation.get_site_id_sequence()\n",
    "    head['site_id_sequence'] = list(percolation.site_ids_indices)\n")], '''
import json
from run_py import rsbd_percolatioin_run as R
for cls in (SitePercolationL0, SitePercolationL1):
    d = tempfile.mkdtemp()
    os.mkdir(d + '/data')
    old = os.getcwd()
    os.chdir(d)
    quiet(R.single_realization, cls, 6)
    f = os.listdir('data')[0]
    h = json.load(open('data/' + f))
    os.chdir(old)
    check('ids and indices agree', [list(divmod(i, 6)) for i in h['site_id_sequence']] == h['site_index_sequence'])
    import shutil
    shutil.rmtree(d)
''')

b('C06-second', 'C06', 'a second wrapping cluster which is the largest takes over',
  'a second wrapping path which is closed in a larger cluster apart from the first',
  [(P, '''        if self.after_wrapping:
            return True
        # print("detect_wrapping")
''', '''        if self.after_wrapping and self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id) \\
                >= self.largest_cluster_sz:
            return True
        # print("detect_wrapping")
'''), (P, '''                self.after_wrapping = True
                self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()
                self.pc_occupied_site_count''', '''                if self.after_wrapping:
                    # the larger wrapping cluster counts
                    self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()
                    return True
                self.after_wrapping = True
                self.wrapping_cluster_id = self.lattice_ref.get_site_by_id(self.selected_id).get_gid()
                self.pc_occupied_site_count'''), (P, '                return True\n            pass\n        return False\n',
                                                  '                return True\n            pass\n        return self.after_wrapping\n')], '''
L = 8
ids = list(range(L)) + [3 * L + c for c in range(L)] + [4 * L + c for c in range(L)]
s = ordered(SitePercolationL0, L, ids)
first = None
for i in ids:
    s.place_one_site()
    if s.detect_wrapping() and first is None:
        first = s.order_param_wrapping()
check('the share is that of the first wrapping cluster', s.order_param_wrapping() == first)
''')

b('C10-last-of-list', 'C10', 'L1 gives up when one candidate is left with all neighbors occupied in its record',
  'an L1 realization whose last candidate has counted all its directions but one',
  [(L12, '''        if self.current_idx >= len(self.site_ids_indices):
            # print("No sites to occupy")
            return SelectionState.EMPTY_SITE_LIST
        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
        # print("randomly_selected_site ", rnd)
''', '''        left = len(self.site_ids_indices) - self.current_idx
        if left <= 0 or self.x_occupied > 60 * len(self.site_ids_indices):
            # print("No sites to occupy")
            return SelectionState.EMPTY_SITE_LIST
        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
        # print("randomly_selected_site ", rnd)
''')], '''
short = 0
for seed in range(3000):
    s = quiet(SitePercolationL1, length=3, seed=seed)
    quiet(s.reset)
    quiet(s.run_once)
    short += s.occupation_prob() != 1
check('complete %d' % short, short == 0)
''')
B.pop()

b('C28-last-tie', 'C28', 'p* looks for a complete column only if no row is nearly complete',
  'a first line which is a column, while the row of the same site misses one site',
  [(SP, '''            # print("    scanning ", scan_str1, " and ", scan_str2)
            if gid != self.wrapping_cluster_id:
                row_flag = False
                pass

            pass
        return column_flag, row_flag
''', '''            # print("    scanning ", scan_str1, " and ", scan_str2)
            if gid != self.wrapping_cluster_id:
                row_flag, column_flag = False, column_flag and xcx < self.lattice_ref.length - 1

        return column_flag, row_flag
''')], '''
L = 6
def pstar(ids):
    s = ordered(ShortestPathAfter_pc, L, ids)
    quiet(s.run_once)
    return s.get_shortest_path_p()
import random as R
R.seed(5)
for _ in range(300):
    ids = list(range(L * L))
    R.shuffle(ids)
    check('p* after transposition', pstar(ids) == pstar([i % L * L + i // L for i in ids]))
''')

b('C02-half-label', 'C02', 'the sites of a long list are relabelled only from its 1000th on', 'a merged cluster with more than 1000 sites',
  [(CL, '        for ss in self.cluster_list[cluster_B_id].site_ids:\n',
    '        sites = self.cluster_list[cluster_B_id].site_ids\n'
    '        for ss in sites if len(sites) <= 1000 else sites[1000:] + sites[:999]:\n')], '''
L = 48
# two bands of 23 rows each (1104 sites), then a joining site
a = [r * L + c for r in range(0, 23) for c in range(L)]
c_ = [r * L + c for r in range(24, 47) for c in range(L)]
s = ordered(SitePercolationL0, L, a + c_ + [23 * L])
for i in a + c_ + [23 * L]:
    s.place_one_site()
g = {s.lattice_ref.get_site_gid_by_id(i) for i in a + c_}
check('one label', len(g) == 1)
''')

b('C21-empty-last', 'C21', 'a worker with number 10 or more names its columns in another order', 'more than ten workers',
  [(ENS, '''    head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
''', '''    columns = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
    head['columns'] = sorted(columns) if (thread_count or 0) > 9 else columns
''')], '''
import json
from run_py import ensemble as E
d = tempfile.mkdtemp()
os.mkdir(d + '/data')
os.chdir(d)
quiet(E.run_ensemble_entropy_order_threads_v2, SitePercolationL0, 4, 2, 11)
f = [x for x in os.listdir('data') if 'critical' in x][0]
h = json.loads(open('data/' + f).readline()[2:])
import shutil
os.chdir('/')
shutil.rmtree(d)
check('columns', h['columns'][1] == 'wrapping cluster site count at pc')
''')

b('C12-worker-seed', 'C12', 'workers with a number above 9 are seeded by it', 'ten workers or more',
  [(SPR, '''    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
''', '''    if seed is not None or thread_count > 9:
        percolation = percolationClass(length=length, seed=thread_count if seed is None else seed)
''')], '''
from run_py import shortest_path_run as R
d = tempfile.mkdtemp()
os.mkdir(d + '/data')
os.chdir(d)
for k in range(2):
    quiet(R.ensemble_shortest_path_v2_thread, ShortestPathAfter_pc, 8, 10, 12)
t = [open('data/' + f).read().split('\\n', 1)[1] for f in os.listdir('data')]
import shutil
os.chdir('/')
shutil.rmtree(d)
check('other realizations in the second run', len(set(t)) == 2)
''')
