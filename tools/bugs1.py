S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


b('C05-stale-after-reset', 'C05', 'the sizes of the wrapping cluster at criticality survive a reset, and are read before the next wrapping',
  'a complete run, a reset, and reading the sizes before wrapping occurs again',
  [(P, '''        self.cluster_pool_ref.reset()
        self.pc_bond_count_wrapping_cluster = None
        self.pc_site_count_wrapping_cluster = None
        pass

    def viewLattice''', '''        self.cluster_pool_ref.reset()
        pass

    def viewLattice''')], '''
s = quiet(SitePercolationL0, length=6, seed=3)
quiet(s.run_once)
quiet(s.reset)
quiet(s.place_one_site)
quiet(s.detect_wrapping)
check('size before wrapping', s.get_site_count_wrapping_cluster_pc() == 0 and s.get_bond_count_wrapping_cluster_pc() == 0)
''')

b('C11-largest-one', 'C11', 'the largest cluster of a reset object has one bond instead of none before the first placement',
  'a reset object asked for its largest cluster before the first placement',
  [(P, '''        self.largest_cluster_sz = 0
        self.largest_cluster_id = -1
        self.entropy_value = self.max_entropy
        self.occupied_site_count = 0''', '''        self.largest_cluster_sz = 1
        self.largest_cluster_id = -1
        self.entropy_value = self.max_entropy
        self.occupied_site_count = 0''')], '''
s = quiet(SitePercolationL0, length=6, seed=3)
fresh = s.order_param_largest_clstr(), s.largest_cluster()
quiet(s.run_once)
quiet(s.reset)
check('reset as new', (s.order_param_largest_clstr(), s.largest_cluster()) == fresh)
''')

b('C07-reset-in-subclass', 'C07', 'the largest cluster is reset in the L0 class only, so the other models carry it over to the next realization',
  'second realization of an L1, L2 or shortest-path object after a long first one',
  [(P, '''        self.wrapping_cluster_id = -1
        self.largest_cluster_sz = 0
        self.largest_cluster_id = -1
        self.entropy_value = self.max_entropy
        self.occupied_site_count = 0''', '''        self.wrapping_cluster_id = -1
        self.entropy_value = self.max_entropy
        self.occupied_site_count = 0'''),
   (L0, '''        super(SitePercolationL0, self).reset()
''', '''        super(SitePercolationL0, self).reset()
        self.largest_cluster_sz = 0
        self.largest_cluster_id = -1
''')], '''
for cls in (SitePercolationL1, SitePercolationL2, ShortestPathAfter_pc):
    s = quiet(cls, length=6, seed=3)
    quiet(s.run_once)
    quiet(s.reset)
    quiet(s.place_one_site)
    check('4 bonds after one site in ' + cls.__name__, s.order_param_largest_clstr() == 4 / 72)
''')

b('C18-count-survives', 'C18', 'the number of directions left of a site is not restored by reset, so L1 retires sites too early in later realizations',
  'second realization of an L1 object',
  [(SITE, '''        self.first_nn_count = 4  # for L1 percolation
        self.second_directional_nn_count = 4  # for L2 percolation
''', '''        self.second_directional_nn_count = 4  # for L2 percolation
''')], '''
s = quiet(SitePercolationL1, length=5, seed=11)
quiet(s.run_once)
quiet(s.reset)
for site in s.lattice_ref.site_matrix:
    check('all four directions are open again', not site.is_removable(1))
''')

b('C17-sattolo', 'C17', 'the sites are shuffled by a Fisher-Yates loop which never leaves an element in place (only cyclic permutations of the '
  'order before)', 'the distribution over many realizations; each single order looks random',
  [(P, '''            random.shuffle(self.site_ids_indices)
            # print("id order''', '''            for k in range(len(self.site_ids_indices) - 1, 0, -1):
                m = random.randrange(k)
                self.site_ids_indices[k], self.site_ids_indices[m] = self.site_ids_indices[m], self.site_ids_indices[k]
                pass
            # print("id order''')], '''
random.seed(5)
n = same = 0
s = quiet(SitePercolationL0, length=3)
for i in range(400):
    a = s.get_site_id_sequence()
    quiet(s.reset)
    b = s.get_site_id_sequence()
    n += 9
    same += sum(x == y for x, y in zip(a, b))
check('a site keeps its place sometimes (%d of %d)' % (same, n), same > 200)
''')

b('C12-seed-zero', 'C12', 'an ensemble started with seed 0 runs unseeded', 'the seed 0',
  [(ENS, '''    percolation = percolationClass(length=length)
    if seed is not None:''', '''    percolation = percolationClass(length=length)
    if seed:''')], '''
import glob
from run_py import ensemble
got = []
for i in range(2):
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        os.mkdir('data')
        random.seed(100 + i)
        quiet(ensemble.run_ensemble_entropy_order_threads_v2, SitePercolationL0, 5, 3, seed=0)
        got.append(sorted([l for l in open(f) if not l.startswith('#')] for f in glob.glob('data/*')))
        os.chdir('/')
check('two ensembles with seed 0 agree', got[0] == got[1])
''')

b('C09-cached-table', 'C09', 'the data table is kept and returned again although the run was continued',
  'asking for the table, continuing the run, and asking again',
  [(P, '''        return np.c_[pp, HH, PP_largest, PP_wraping]''', '''        if getattr(self, '_table', None) is None or self._table[0] is not pp:
            self._table = (pp, np.c_[pp, HH, PP_largest, PP_wraping])
            pass
        return self._table[1]''')], '''
s = ordered(SitePercolationL0, 4, [0, 1, 2])
quiet(s.run_once)
check('3 rows', s.get_data_array().shape == (3, 4))
quiet(s.set_custome_site_id_list, [0, 1, 2, 3, 7])
quiet(s.run_once)
check('5 rows after continuing', s.get_data_array().shape == (5, 4))
''')

b('C13-shared-bond-list', 'C13', 'looking at the neighbors of a site takes the site out of its bonds, which breaks later placements',
  'calling get_connected_sites during a simulation',
  [(P, '''            connected_sites = list(sb2.connected_sites())''', '''            connected_sites = sb2.connected_sites()''')], '''
s = quiet(SitePercolationL0, length=5, seed=1)
site = s.lattice_ref.get_site_by_id(7)
a = sorted(s.get_connected_sites(site, site.connecting_bonds()))
check('neighbors', a == [2, 6, 8, 12])
for bb in site.connecting_bonds():
    check('bond still joins two sites', len(s.lattice_ref.get_neighbor_sites(bb)) == 2)
''')

b('C31-view-no-sites', 'C31', 'the cluster view leaves out clusters which have bonds only', 'the view of a partly occupied lattice',
  [(CL, '''        if self.is_empty():
            return 0
        print("cluster''', '''        if not self.site_ids:
            return 0
        print("cluster''')], '''
s = ordered(SitePercolationL0, 4, [5, 6])
quiet(s.run_once)
f = io.StringIO()
with contextlib.redirect_stdout(f):
    s.viewCluster()
shown = f.getvalue().count('cluster [')
check('32 bonds, 7 of them in one cluster: 26 clusters (%d)' % shown, shown == 26)
''')

b('C15-first-last', 'C15', 'only the first and last entry of a sorted copy by absolute value is validated, so a small negative id is accepted',
  'a list with a negative id which is smaller in absolute value than others',
  [(P, '''        if max(site_id_list) > max_index or min(site_id_list) < min_index:
            print("Invalid site id list")
            return
        self.site_ids_indices = list''', '''        by_size = sorted(site_id_list, key=abs)
        if by_size[-1] > max_index or by_size[-1] < min_index or by_size[0] < min_index:
            print("Invalid site id list")
            return
        self.site_ids_indices = list''')], '''
s = quiet(SitePercolationL0, length=5, seed=2)
before = s.get_site_id_sequence()
quiet(s.set_custome_site_id_list, [0, 3, -2, 17])
check('refused without effect', s.get_site_id_sequence() == before)
''')

b('C15-index-list-no-shuffle', 'C15', 'shuffling is ignored for lists of indices on later resets', 'an index list with do_shuffle=True',
  [(P, '''        self.site_ids_indices = site_index_list
        self.mode_custome_site_id = True
        self.do_shuffle = do_shuffle''', '''        self.site_ids_indices = site_index_list
        self.mode_custome_site_id = True
        self.do_shuffle = bool(do_shuffle) and len(site_index_list) == self.lattice_ref.site_count''')], '''
random.seed(8)
seen = set()
for i in range(60):
    s = quiet(SitePercolationL0, length=6)
    quiet(s.set_custome_site_index_list, [(0, 0), (0, 1), (1, 4), (5, 5), (3, 2)], do_shuffle=True)
    seen.add(tuple(s.get_site_id_sequence()))
check('orders vary', len(seen) > 10)
''')

b('C16-transposed', 'C16', 'the recorded index sequence of L1 has row and column exchanged', 'an L1 sequence exported by indices and replayed',
  [(L12, '''            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())''', '''            indices.append(self.lattice_ref.get_row_col_from_id(id))''')], '''
s = quiet(SitePercolationL1, length=5, seed=4)
quiet(s.run_once)
check('ids and indices agree', [r * 5 + c for r, c in s.get_index_sequence()] == s.get_site_id_sequence())
''', nth={L12: 0})

b('C05-wrong-counter', 'C05', 'the critical occupation is taken from the position in the list, which is not the number of sites in L1 and L2',
  'interacting models', [(P, '''                self.pc_occupied_site_count = self.occupied_site_count''',
                          '''                self.pc_occupied_site_count = self.current_idx''')], '''
for cls in (SitePercolationL1, SitePercolationL2):
    s = quiet(cls, length=8, seed=5)
    while not quiet(s.detect_wrapping) if s.selected_id is not None else True:
        quiet(s.place_one_site)
    check('pc of ' + cls.__name__, quiet(s.get_pc) == s.occupation_prob())
''')

b('C06-bigger-root', 'C06', 'after wrapping a larger cluster swallows the wrapping cluster, whose id then names an empty cluster',
  'a cluster larger than the wrapping cluster which joins it later',
  [(P, '''            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids):''',
    '''            if self.after_wrapping and (self.wrapping_cluster_id in bond_gids[:3]):''')], '''
L = 9
row = [4 * L + c for c in range(L)]
block = [r * L + c for r in (0, 1, 2, 6, 7) for c in range(8)]
rest = [x for x in range(L * L) if x not in row and x not in block]
for seed in range(6):
    random.seed(seed)
    random.shuffle(rest)
    s = ordered(SitePercolationL0, L, row + block + rest)
    quiet(s.run_once)
    a = s.get_order_param_wrapping_array()
    check('never decreases', all(x <= y for x, y in zip(a, a[1:])))
    check('ends at 1', a[-1] == 1)
''')

b('C04-two-steps', 'C04', 'wrapping is only recognized when the coordinates differ by more than two, which a ring of three sites never does',
  'side 3', [(P, '''            if (abs(delta_x) > 1) or (abs(delta_y) > 1):''',
              '''            if (abs(delta_x) > 2) or (abs(delta_y) > 2):''')], '''
s = ordered(SitePercolationL0, 3, [0, 1, 2, 3])
for i in range(3):
    quiet(s.place_one_site)
    w = quiet(s.detect_wrapping)
    check('wraps with the third site', w == (i == 2))
''')

b('C20-after-previous', 'C20', 'lines are looked for only from the placement after wrapping on',
  'a straight line which is completed by the very placement that wraps',
  [(SP, '''                if self.detect_wrapping():
''', '''                wrapped_before = self.after_wrapping
                if self.detect_wrapping() and (wrapped_before or self.occupied_site_count > self.lattice_ref.length):
''')], '''
s = ordered(ShortestPathAfter_pc, 5, [5, 6, 7, 8, 9, 20, 21])
quiet(s.run_once)
check('p* = 5/25', s.get_shortest_path_p() == 5 / 25)
''')

b('C08-entropy-add', 'C08', 'reset adds the initial entropy instead of setting it, which is right only after a complete run',
  'a reset after a run that did not fill the lattice',
  [(P, '''        self.largest_cluster_id = -1
        self.entropy_value = self.max_entropy
        self.occupied_site_count = 0''', '''        self.largest_cluster_id = -1
        self.entropy_value = self.max_entropy if self.occupied_site_count == self.lattice_ref.site_count else \\
            self.max_entropy + min(0., self.entropy_value - self.entropy_v1())
        self.occupied_site_count = 0''')], '''
import math
s = quiet(SitePercolationL0, length=12, seed=5)
for i in range(40):
    for k in range(60):
        quiet(s.place_one_site)
    quiet(s.reset)
check('initial entropy', abs(s.entropy() - math.log(288)) < 1e-9)
''')

b('C18-second-chance', 'C18', 'L1 draws a second neighbor when the first one is occupied, before the attempt is given up',
  'the distribution of the selected sites; each selection is admissible',
  [(L12, '''            if self.lattice_ref.get_site_by_id(central2).is_occupied():
                # print("first''', '''            if self.lattice_ref.get_site_by_id(sites[direction]).is_occupied():
                direction = random.randint(0, len(sites)-1)
                central2 = sites[direction]
                pass
            if self.lattice_ref.get_site_by_id(sites[direction]).is_occupied():
                # print("first''')], '''
import pickle
random.seed(1)
L, n = 5, 20000
s = quiet(SitePercolationL1, length=L)
order = list(range(10))
for x in order:
    s.selected_id = x
    s.current_site = s.lattice_ref.get_site_by_id(x)
    s.lattice_ref.init_relative_index(x)
    s.merge_clusters_v2(s.current_site.connecting_bonds())
    s.occupied_site_count += 1
state = pickle.dumps(s)
hits = [0] * 25
for i in range(n):
    s = pickle.loads(state)
    before = s.occupied_site_count
    with contextlib.redirect_stdout(io.StringIO()):
        while s.occupied_site_count == before:
            s.place_one_site()
    hits[s.selected_id] += 1
far = sum(hits[15:20])
e = n * 5 / (5 + 10 * 1.25)
check('sites without occupied neighbor: %d instead of %d' % (far, e), abs(far - e) <= 6 * (e * (1 - e / n)) ** .5)
''')

b('C19-clamped', 'C19', 'the second neighbor is kept inside the lattice instead of continuing on the other side',
  'an L2 selection across the boundary',
  [(L12, '''        row = index.row() % self.lattice_ref.length
        column''', '''        row = min(max(index.row(), 0), self.lattice_ref.length - 1) if index.row() < 0 else index.row() % self.lattice_ref.length
        column''')], '''
from source_py.simulation.index import Index
s = quiet(SitePercolationL2, length=6, seed=1)
for r in (-1, 0, 5, 6):
    for c in (-1, 2, 6):
        i = s.correct_index_for_periodicity(Index(r, c))
        check('periodic', (i.row(), i.column()) == (r % 6, c % 6))
''')

b('C19-three-directions', 'C19', 'L2 retires a site when three of its four directions are exhausted',
  'an L2 run late enough that a site has three exhausted directions while a second neighbor is still empty',
  [(SITE, '''            return self.second_directional_nn_count == 0''', '''            return self.second_directional_nn_count < 2''')], '''
from source_py.simulation.site import Site
s = Site(0, 0)
s.set_id(0)
for d in range(4):
    check('open before all four directions are exhausted', not s.is_removable(2))
    s.reduce_2st_directional_nn(d)
check('exhausted', s.is_removable(2))
''')

b('C14-shared-record', 'C14', 'L1 objects which were never reset share one record of their sequence',
  'two new L1 objects in use at the same time', 
  [(L12, '''        # Once the sequece is recorded, we can use it in regular site percolation. To check the outcomes.
        self.site_id_sequence_record = []
''', '''        # Once the sequece is recorded, we can use it in regular site percolation. To check the outcomes.
'''), (L12, '''class SitePercolationL1(SitePercolation):
''', '''class SitePercolationL1(SitePercolation):
    site_id_sequence_record = []

''')], '''
a = quiet(SitePercolationL1, length=5, seed=1)
b = quiet(SitePercolationL1, length=5)
for i in range(6):
    quiet(a.place_one_site)
    quiet(b.place_one_site)
check('record of one object', len(a.get_site_id_sequence()) == round(a.occupation_prob() * 25))
''')

b('C29-aliased-list', 'C29', 'a new cluster keeps the list of the caller', 'the caller changing its list, or the cluster growing, afterwards',
  [(CL, '''        if type(bond_ids) is list:
            self.bond_ids += bond_ids''', '''        if type(bond_ids) is list and not self.bond_ids:
            self.bond_ids = bond_ids
            pass
        elif type(bond_ids) is list:
            self.bond_ids += bond_ids''')], '''
from source_py.simulation.cluster import ClusterPool
from source_py.simulation.lattice import Lattice
lat = Lattice(4)
pool = ClusterPool()
mine = [3, 4]
pool.create_new_cluster([], mine, lat)
pool.create_new_cluster([], [7], lat)
pool.merge_cluster_with(0, 1, lat)
check("list of the caller", mine == [3, 4])
mine.append(9)
check('cluster', pool.get_bonds(0) == [3, 4, 7])
''')

b('C21-header-swapped', 'C21', 'in the threaded ensemble the order parameters are described the wrong way round in the file',
  'reading the description of the columns',
  [(ENS, '''                    "P2=order parameter by wrapping cluster", "P1=order parameter by largest cluster"]''',
    '''                    "P1=order parameter by wrapping cluster", "P2=order parameter by largest cluster"]''')], '''
import glob, json
from run_py import ensemble
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.mkdir('data')
    quiet(ensemble.run_ensemble_entropy_order_threads, SitePercolationL0, 5, 2)
    head = json.loads(open(glob.glob('data/*')[0]).readline()[1:])
    os.chdir('/')
check('description', any('P1' in x and 'largest' in x for x in head['desc']))
''')

b('C23-digits', 'C23', 'pc and p* are written with four digits only', 'sides above about 100, or comparing exact values',
  [(SPR, 'fmt="%.10e"', 'fmt="%.4e"')], '''
import glob
import numpy as np
from run_py import shortest_path_run
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.mkdir('data')
    quiet(shortest_path_run.ensemble_shortest_path_v2_thread, ShortestPathAfter_pc, 7, 4)
    t = np.loadtxt(glob.glob('data/*')[0])
    os.chdir('/')
check('multiples of 1/49', np.allclose(t * 49, np.round(t * 49), rtol=0, atol=1e-7))
''')

b('C24-random-suffix', 'C24', 'a result file which exists is replaced when it was made by a run of the same worker number',
  'two runs of one worker number ending in the same second',
  [(ENS, '''    if thread_count is not None:
        filename += "_th{}".format(thread_count)
        pass
    filename += ".txt"
    head = dict()''', '''    if thread_count is not None:
        filename = "{}_th{}".format(filename, thread_count)
        if os.path.exists("./data/" + filename + ".txt"):
            os.remove("./data/" + filename + ".txt")
            pass
        pass
    filename += ".txt"
    head = dict()''')], '''
import glob
from run_py import ensemble
with tempfile.TemporaryDirectory() as d:
    os.chdir(d)
    os.mkdir('data')
    for i in range(12):
        quiet(ensemble.run_ensemble_entropy_order_threads_v2, SitePercolationL0, 3, 1, thread_count=1)
    n = len(glob.glob('data/*'))
    os.chdir('/')
check('24 files (%d)' % n, n == 24)
''', nth={ENS: 1})

b('C26-no-abs', 'C26', 'a crossing is only found when the first curve comes from below', 'curves which cross downwards',
  [(LINES, '''    dx = np.diff(np.sign(difference))
    idx = np.argmax(np.abs(dx))''', '''    dx = np.diff(np.sign(difference))
    idx = np.argmax(dx) if np.any(dx > 0) else np.argmax(-dx)''')], '''
import numpy as np
from source_py.analyze.lines import find_intersection
a = np.array([2., 2, 2, -2, -2, -2, 0, 0])
check('largest change of sign first', find_intersection(a, np.zeros(8)) == 2)
''')

b('C27-history', 'C27', 'reset keeps the curves of all realizations before', 'many realizations on one object',
  [(P, '''        del self.entropy_list
        self.entropy_list = list()''', '''        self.entropy_history = getattr(self, 'entropy_history', [])
        self.entropy_history.append(self.entropy_list)
        self.entropy_list = list()''')], '''
import gc, tracemalloc
s = quiet(SitePercolationL0, length=10, seed=1)
def some(n):
    for i in range(n):
        quiet(s.reset)
        quiet(s.run_once)
    gc.collect()
some(5)
tracemalloc.start()
some(3)
a = tracemalloc.get_traced_memory()[0]
some(100)
b = tracemalloc.get_traced_memory()[0]
check('memory grew by %d bytes' % (b - a), b - a < 60000)
''')

b('C30-abs-flag', 'C30', 'vertical bonds asked for with a boolean flag are looked up among the horizontal ones', 'a vertical bond by index in the last row',
  [(LAT, '''        s0_index += hv_flag * self.length**2''', '''        s0_index += hv_flag * self.length * (self.length if row < self.length - 1 else row + hv_flag - 1)''')], '''
from source_py.simulation.lattice import Lattice
lat = Lattice(6)
for r in range(6):
    for c in range(6):
        for f in (0, 1):
            check('bond by index', lat.get_bond_by_index(r, c, f).get_id() == f * 36 + r * 6 + c)
''')

b('C28-first-line', 'C28', 'a complete first column is not accepted as shortest path',
  'the first complete line is the first column; every other one is found',
  [(SP, '''                    if column_flag or row_flag:''', '''                    if column_flag or (row_flag and index.column() > 0):''')], '''
L = 6
random.seed(3)
for k in range(50):
    order = list(range(L * L))
    random.shuffle(order)
    p = []
    for t in range(2 * L):
        ids = [((c + t) % L * L + r if t < L else (r + t) % L * L + c) for r, c in (divmod(x, L) for x in order)]
        s = ordered(ShortestPathAfter_pc, L, ids)
        quiet(s.run_once)
        p.append(s.get_shortest_path_p())
    check('p* of an order and its images: %s' % p, len(set(p)) == 1)
''')
