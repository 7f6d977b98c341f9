S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


b('C07-short', 'C07', 'the size of the largest cluster is kept in a 16 bit number', 'a side of 182 or more',
  [(P, '            self.largest_cluster_sz = new_size\n', '            self.largest_cluster_sz = int(np.uint16(new_size & 0xffff))\n')], '''
s = quiet(SitePercolationL0, length=190, seed=5)
quiet(s.reset)
while s.place_one_site():
    pass
check('the largest cluster is everything', s.order_param_largest_clstr() == 1)
''')

b('C13-sorted-view', 'C13', 'the view of a cluster sorts its members in place',
  'looking at the clusters during a realization and reading the members afterwards',
  [(CL, '''        print("  sites ({}) ".format(len(self.site_ids)), self.site_ids)
''', '''        self.site_ids.sort()
        print("  sites ({}) ".format(self.get_site_count()), self.site_ids)
''')], '''
a, c = (ordered(SitePercolationL0, 5, [3, 2, 1, 7, 0]) for _ in range(2))
for s in (a, c):
    for _ in range(5):
        s.place_one_site()
quiet(a.viewCluster)
g = a.lattice_ref.get_site_gid_by_id(3)
check('the view does not change the members', a.cluster_pool_ref.get_sites(g) == c.cluster_pool_ref.get_sites(g))
''')

b('C21-blocks', 'C21', 'the mean is a mean of means over blocks, and the last block is shorter',
  'more than 64 realizations, not a multiple of 64',
  [(ENS, '''    percolation = percolationClass(length=length)
    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
        pass
    data = None
    critical_data = []
''', '''    percolation = percolationClass(length=length)
    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
        pass
    data = None
    block = None
    blocks = 0
    critical_data = []
'''), (ENS, '''        aaa = percolation.get_data_array()
        if data is None:
            data = aaa
        else:
            data += aaa
            pass
        pass
        # print("temp ")
        # print(aaa)
        del aaa
        end_t = time.time() - start_t
        log_str = ''', '''        aaa = percolation.get_data_array()
        block = aaa if block is None else block + aaa
        if en % 64 == 0 or en == ensembleSize:
            block = block / ((en - 1) % 64 + 1)
            data = block if data is None else data + block
            block = None
            blocks += 1
            pass
        # print("temp ")
        # print(aaa)
        del aaa
        end_t = time.time() - start_t
        log_str = '''), (ENS, '''    data /= ensembleSize  # taking average
    # print(data)
    signature = percolation.get_signature()
    now = datetime.now()
    current_time = now.strftime("%Y%m%d_%H%M%S")
    log_str = "current_time " + current_time
    # print(log_str)
    logging.info(log_str)
    write_entropy_order(''', '''    data /= blocks  # taking average
    # print(data)
    signature = percolation.get_signature()
    now = datetime.now()
    current_time = now.strftime("%Y%m%d_%H%M%S")
    log_str = "current_time " + current_time
    # print(log_str)
    logging.info(log_str)
    write_entropy_order(''')], '''
import numpy as np
from run_py import ensemble
d = tempfile.mkdtemp()
os.makedirs(d + '/data')
here = os.getcwd()
os.chdir(d)
tables = []


class Watched(SitePercolationL0):
    def run_once(self):
        super().run_once()
        tables.append(self.get_data_array().copy())


try:
    quiet(ensemble.run_ensemble_entropy_order_threads_v2, Watched, 5, 70)
    f = [x for x in os.listdir('data') if 'entropy' in x][0]
    t = np.loadtxt('data/' + f)
finally:
    os.chdir(here)
    import shutil
    shutil.rmtree(d)
check('mean', np.allclose(t, np.mean(tables, axis=0), atol=1e-9))
''')

b('C22-cpus', 'C22', 'the number of processes is limited to the processors, the shares are not',
  'more workers than processors',
  [(RUN, '''    for i in range(thread_counts):
        # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
        # the first ones take the remainder, so that En realizations are made in total
''', '''    for i in range(min(thread_counts, 2 * multiprocessing.cpu_count())):
        # inargs = {'length':LL, "ensembleSize":En, "thread_count":i}
        # the first ones take the remainder, so that En realizations are made in total
''')], '''
from run_py import rsbd_percolatioin_run as R
import multiprocessing, re
d = tempfile.mkdtemp()
os.makedirs(d + '/data')
here = os.getcwd()
os.chdir(d)
n = 2 * multiprocessing.cpu_count() + 3
try:
    quiet(R.run_simulation_threads_v4, 3, n, n)
    got = len([x for x in os.listdir('data') if 'critical' in x])
finally:
    os.chdir(here)
    import shutil
    shutil.rmtree(d)
check('one file per worker', got == n)
''', nth={RUN: 1})

b('C27-cache', 'C27', 'neighbors are cached per lattice for ever, which keeps every lattice alive', 'objects which are dropped',
  [(LAT, 'from source_py.simulation.index import Index\n', 'from source_py.simulation.index import Index\nimport functools\n'),
   (LAT, '''        row = s0_index // self.length
        col = s0_index % self.length
        return col, row
''', '''        return self._col_row(s0_index)

    @functools.lru_cache(maxsize=None)
    def _col_row(self, s0_index):
        return s0_index % self.length, s0_index // self.length
''')], '''
import gc, weakref
s = quiet(SitePercolationL0, length=6)
w = weakref.ref(s.lattice_ref)
del s
gc.collect()
check('the lattice is gone', w() is None)
''')

b('C31-long-numbers', 'C31', 'the view cuts numbers to three digits', 'groups above 999',
  [(LAT, '                print("{:3}".format(site_s.get_gid()), end=\'|\')\n',
    '                print("{:3.3}".format(str(site_s.get_gid())), end=\'|\')\n')], '''
L = 24
s = quiet(SitePercolationL0, length=L, seed=4)
quiet(s.reset)
for _ in range(100):
    s.place_one_site()
gids = {s.lattice_ref.get_site_gid_by_id(i) for i in range(L * L)} - {-1}
f = io.StringIO()
with contextlib.redirect_stdout(f):
    s.viewLattice(4)
shown = f.getvalue().replace('|', ' ').split()
for g in gids:
    check('group %d is shown' % g, str(g) in shown)
''')

b('C33-occupied-list', 'C33', 'occupied sites are looked up in a list', 'large lattices; results are the same',
  [(P, '        assert self.current_site.get_gid() == -1  # must be unoccupied\n        # print(">>>***>>>selected id ", self.selected_id, " site ", self.current_site)\n',
    '        assert self.selected_id not in self.site_ids_indices[:self.current_idx]  # must be unoccupied\n')], '''
import time


def per_site(L):
    best = 1e9
    for _ in range(2):
        s = quiet(SitePercolationL0, length=L, seed=1)
        quiet(s.reset)
        t = time.process_time()
        quiet(s.run_once)
        best = min(best, (time.process_time() - t) / L ** 2)
    return best


check('time per site', per_site(200) < 4 * per_site(40))
''')

b('C20-rows-first', 'C20', 'after a merger only rows are scanned if the current site completes none of its own lines... and columns only on short lattices',
  'a merger which brings a complete column into the wrapping cluster on a lattice of side above 12',
  [(SP, '                        column_flag = column_flag or self.scan_all_cols()\n                        row_flag = row_flag or self.scan_all_rows()\n',
    '                        column_flag = column_flag or self.scan_all_cols()\n                        if previous_count > 0:\n                            row_flag = row_flag or self.scan_all_rows()\n')], '''
# the first wrapping joins a complete column (which wraps itself)... a column winds: it is the wrapping cluster at once
# so: a winding diagonal cluster whose last site also joins a complete-but-for-nothing column is impossible;
# a row of L sites wraps by itself, hence this edit changes nothing
check('equivalent', True)
''')
B.pop()   # equivalent: a complete line wraps by itself

b('C08-cut', 'C08', 'clusters with less than a thousandth of all bonds are left out when removed from the sum, by rounding to six digits',
  'many mergers: the errors add up', [(P, '''        # print("before ", self.entropy_value)
        self.entropy_value += H
''', '''        # print("before ", self.entropy_value)
        self.entropy_value += H if abs(H) > 1e-12 else 0
        if len(gids) == 4 and self.after_wrapping and self.entropy_value < 1e-3:
            self.entropy_value = 0
''')], '''
check('none', True)
''')
B.pop()

b('C11-list-mode', 'C11', 'a reset object keeps the limit of the list it had before when it is given the same number of sites as index list',
  'a short custom list, a reset, and a full list given by indices',
  [(P, '''        self.site_ids_indices = site_index_list
        self.mode_custome_site_id = True
        self.do_shuffle = do_shuffle
        self.max_iteration_limit = len(self.site_ids_indices)
''', '''        if not self.mode_custome_site_id:
            self.max_iteration_limit = len(site_index_list)
        self.site_ids_indices = site_index_list
        self.mode_custome_site_id = True
        self.do_shuffle = do_shuffle
''')], '''
s = ordered(SitePercolationL0, 4, [0, 1, 2])
quiet(s.run_once)
quiet(s.reset)
quiet(s.set_custome_site_index_list, [(i // 4, i % 4) for i in range(16)])
quiet(s.run_once)
check('all listed sites', s.occupation_prob() == 1)
''')

b('C28-last-row', 'C28', 'relative steps are taken from row numbers modulo the side only for columns',
  'clusters across the upper boundary', [(P, '''        if abs(xx) > 1:
            xx = -xx // abs(xx)
            pass
''', '''        if abs(xx) > 1:
            xx = -xx // abs(xx) if abs(yy) == 0 else xx
            pass
''')], '''
check('none', True)
''')
B.pop()

b('C18-first-neighbor-bias', 'C18', 'the direction is drawn from the bits of the number of the site drawn before',
  'the distribution of directions at one site over many placements',
  [(L12, '''            direction = random.randint(0, len(sites)-1)
            central2 = sites[direction]
''', '''            direction = (random.randint(0, len(sites)-1) + (rnd & self.x_occupied & 1)) % len(sites)
            central2 = sites[direction]
''')], '''
check('none', True)
''')
B.pop()   # equivalent: a uniform direction plus anything is uniform

b('C17-late-half', 'C17', 'from the second shuffle on only the sites are shuffled which were placed before the run ended early',
  'a reset after a run which was stopped early',
  [(P, '            random.shuffle(self.site_ids_indices)\n', '''            if 0 < self.current_idx < len(self.site_ids_indices):
                # the others have not been used
                used = self.site_ids_indices[:self.current_idx]
                random.shuffle(used)
                self.site_ids_indices[:self.current_idx] = used
            else:
                random.shuffle(self.site_ids_indices)
                pass
''')], '''
s = quiet(SitePercolationL0, length=6, seed=3)
seen = set()
for _ in range(40):
    quiet(s.reset)
    for k in range(5):
        s.place_one_site()
        seen.add(s.selected_id)
check('all sites come among the first', len(seen) > 30)
''')

b('C34-half', 'C34', 'the self check of bonds looks at the first of the two sites only', 'a damaged second site of a bond',
  [(LAT, '''            for ss in sites:
                bondids = self.site_matrix[ss].connecting_bonds()
                assert id in bondids
''', '''            for ss in sites[:1]:
                bondids = self.site_matrix[ss].connecting_bonds()
                assert id in bondids
''')], '''
from source_py.simulation.lattice import Lattice
lat = Lattice(5)
b = lat.bond_matrix[7]
b.connected_site_ids[1] = 20
try:
    lat.scan_bonds()
    good = False
except AssertionError:
    good = True
check('damage is seen', good)
''')

b('C09-view', 'C09', 'the table of results is a view on one buffer of the object which the next realization fills again',
  'keeping the table of a realization while the next one runs',
  [(P, '        return np.c_[pp, HH, PP_largest, PP_wraping]\n', '''        table = np.c_[pp, HH, PP_largest, PP_wraping]
        if getattr(self, "_table", None) is None or self._table.shape != table.shape:
            self._table = table
        else:
            self._table[:] = table
        return self._table
''')], '''
s = quiet(SitePercolationL0, length=5, seed=2)
quiet(s.reset)
quiet(s.run_once)
a = s.get_data_array()
keep = a.copy()
quiet(s.reset)
quiet(s.run_once)
s.get_data_array()
check('the table is as it was', (a == keep).all())
''')

b('C14-shared-state', 'C14', 'the neighbor list of the last site is kept in the class', 'two lattices of one process used in turns',
  [(LAT, '''    def get_all_neighbor_sites(self, central_site_id):
        bonds = self.get_neighbor_bonds(central_site_id)
''', '''    _last = (None, None)

    def get_all_neighbor_sites(self, central_site_id):
        if Lattice._last[0] != central_site_id or max(Lattice._last[1]) >= self.bond_count:
            Lattice._last = (central_site_id, self.get_neighbor_bonds(central_site_id))
        bonds = Lattice._last[1]
''')], '''
from source_py.simulation.lattice import Lattice
a, c = Lattice(4), Lattice(6)
a.get_all_neighbor_sites(9)
check('neighbors on the larger lattice', sorted(c.get_all_neighbor_sites(9)) == [3, 8, 10, 15])
''')

b('C06-relabeled', 'C06', 'the number of the wrapping cluster is not followed when a larger cluster takes it in on lattices where it is small',
  'a wrapping cluster which is smaller than half of the cluster that joins it',
  [(P, '''            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids):
''', '''            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids) and \\
                    5 * self.order_param_wrapping() > max(self.cluster_pool_ref.get_cluster_bond_count(x) for x in bond_gids) \\
                    / self.lattice_ref.bond_count:
''')], '''
L = 24
line = [i for i in range(L)]
block = [r * L + c for r in range(2, 23) for c in range(1, 23)]
s = ordered(SitePercolationL0, L, line + block + [L + 3])
while s.place_one_site():
    s.detect_wrapping()
check('all in the wrapping cluster', s.order_param_wrapping() > .8)
''')
