S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


b('C01-cache-key', 'C01', 'neighbors are kept in a table shared by all lattices, under a number which is not unique over sides and sites',
  'two lattices of different sides in one process whose keys meet: (side 6, site 10) and (side 10, site 6)',
  [(LAT, '''class Lattice:
    def __init__(self, length):''', '''_site_neighbors = dict()


class Lattice:
    def __init__(self, length):'''),
   (LAT, '''        bonds = self.site_matrix[s0_index].connecting_bonds()
        # print("bonds ", bonds)
        out_list = []
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            out_list.append(nn[0])
            pass
        return out_list

    def get_sites_for''', '''        key = self.length * s0_index
        if key in _site_neighbors:
            return list(_site_neighbors[key])
        bonds = self.site_matrix[s0_index].connecting_bonds()
        # print("bonds ", bonds)
        out_list = []
        for bb in bonds:
            nn = self.get_neighbor_sites(bb).copy()
            # print("nn ", nn)
            nn.remove(s0_index)
            out_list.append(nn[0])
            pass
        _site_neighbors[key] = out_list
        return list(out_list)

    def get_sites_for''')], '''
from source_py.simulation.lattice import Lattice
a, b = Lattice(6), Lattice(10)
for s in range(36):
    a.get_site_neighbor_of_site(s)
for s in range(100):
    r, c = divmod(s, 10)
    want = sorted([r * 10 + (c + 1) % 10, r * 10 + (c - 1) % 10, (r + 1) % 10 * 10 + c, (r - 1) % 10 * 10 + c])
    check('neighbors of %d' % s, sorted(b.get_site_neighbor_of_site(s)) == want)
''')

b('C04-straight', 'C04', 'clusters with at most L sites are not tested for wrapping, but a straight line of L sites wraps',
  'a straight line of L sites as the first wrapping cluster, which random orders hardly ever give',
  [(P, '''        neighbors = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
''', '''        neighbors = []
        if self.cluster_pool_ref.get_cluster_site_count(self.current_site.get_gid()) > self.lattice_ref.length:
            neighbors = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
            pass
''')], '''
s = ordered(SitePercolationL0, 6, [7, 8, 9, 10, 11, 6, 20])
for k in range(6):
    quiet(s.place_one_site)
    check('wrapping after %d' % (k + 1), quiet(s.detect_wrapping) == (k == 5))
''')

b('C10-retire-other', 'C10', 'when L1 retires a site it drops the candidate at the head of the list instead, which may still be empty',
  'an L1 run over the whole lattice; sites may be left out or placed much later',
  [(L12, '''                    self.site_ids_indices[rnd] = self.site_ids_indices[self.current_idx]
                    # print("self.site_ids_indices after ", self.site_ids_indices)
''', '''                    self.site_ids_indices[self.current_idx] = self.site_ids_indices[rnd]
                    # print("self.site_ids_indices after ", self.site_ids_indices)
''')], '''
lost = 0
for seed in range(300):
    s = quiet(SitePercolationL1, length=5, seed=seed)
    quiet(s.reset)
    while quiet(s.place_one_site):
        empty = [i for i in range(25) if s.lattice_ref.get_site_gid_by_id(i) < 0]
        lost += sum(i not in s.site_ids_indices[s.current_idx:] for i in empty)
check('no empty site is dropped from the candidates (%d)' % lost, lost == 0)
''')

b('C12-hash', 'C12', 'every class gets a seed of its own from the hash of its name, which differs between processes',
  'comparing two processes with different hash seeds',
  [(P, '''            random.seed(kwargs['seed'])''', '''            random.seed(hash((self.__class__.__name__, kwargs['seed'])))''')], '''
import subprocess
code = ("from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0 as C; s = C(length=6, seed=4);"
        " print(s.get_site_id_sequence())")
out = {subprocess.run([sys.executable, '-c', code], capture_output=True, text=True, check=True,
                      env=dict(os.environ, PYTHONHASHSEED=str(h))).stdout for h in range(4)}
check('one order for one seed', len(out) == 1)
''')

b('C16-cached-index', 'C16', 'the index sequence is kept from the first time it is asked for until the next reset',
  'asking for the index sequence during a realization of L1, and again later',
  [(L12, '''        indices = []
        for id in self.site_id_sequence_record:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices''', '''        record = self.site_id_sequence_record
        if getattr(self, '_indices_of', None) is not record:
            self._indices_of = record
            self._indices = [self.lattice_ref.get_site_by_id(id).get_index().as_list() for id in record]
            pass
        return list(self._indices)''')], '''
s = quiet(SitePercolationL1, length=5, seed=4)
for k in range(7):
    quiet(s.place_one_site)
s.get_index_sequence()
quiet(s.run_once)
check('indices of all', s.get_index_sequence() == [divmod(i, 5) for i in s.get_site_id_sequence()])
''', nth={L12: 0})

b('C17-ties', 'C17', 'sites are ordered by random keys which can be equal; equal keys keep their former order',
  'the distribution over many realizations; each single order looks random',
  [(P, '''            random.shuffle(self.site_ids_indices)
            # print("id order''', '''            keys = [random.randrange(len(self.site_ids_indices)) for _ in self.site_ids_indices]
            self.site_ids_indices = [x for _, x in sorted(zip(keys, self.site_ids_indices), key=lambda kx: kx[0])]
            # print("id order''')], '''
random.seed(5)
n = same = 0
s = quiet(SitePercolationL0, length=3)
for i in range(1500):
    a = s.get_site_id_sequence()
    quiet(s.reset)
    w = {x: k for k, x in enumerate(s.get_site_id_sequence())}
    for i in range(9):
        for j in range(i):
            n += 1
            same += w[a[j]] < w[a[i]]
check('pairs keep their order half of the time (%.4f)' % (same / n), abs(same / n - .5) < .02)
''')

b('C18-from-zero', 'C18', 'L1 draws from retired candidates too, at whose places the moved ones are found a second time',
  'the end of an L1 realization, when sites have been retired',
  [(L12, '''        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
        # print("randomly''', '''        rnd = random.randint(max(0, self.current_idx - 2), len(self.site_ids_indices) - 1)
        # print("randomly''')], '''
left = 0
for seed in range(40):
    s = quiet(SitePercolationL1, length=5, seed=seed)
    while s.current_idx < 3 and quiet(s.place_one_site):
        pass
    got = []
    real = random.randint
    random.randint = lambda a, b: (got.append((a, b)), real(a, b))[1]
    at = s.current_idx
    quiet(s.place_one_site)
    random.randint = real
    for a, b in got[:1]:
        check('only candidates are drawn', b - a + 1 <= 25 - at or a == 0 and b == 3)
''')

b('C20-any-line', 'C20', 'any complete row or column of occupied sites counts, also of a cluster other than the wrapping one',
  'a winding first cluster without complete line and a second cluster that is a complete line apart from it',
  [(SP, '''            if gid != self.wrapping_cluster_id:
                column_flag = False''', '''            if gid < 0:
                column_flag = False'''),
   (SP, '''            if gid != self.wrapping_cluster_id:
                row_flag = False''', '''            if gid < 0:
                row_flag = False''')], '''
L = 7
band = [0, 1, 2, 3, 4, 5, L + 5, L + 6, 6 + 2 * L, 2 * L, L]
order = band + [4 * L + c for c in range(L)]
s = ordered(ShortestPathAfter_pc, L, order)
quiet(s.run_once)
check('wraps', s.get_pc() > 0)
check('the apart line does not count', s.get_shortest_path_p() == 0)
''')

b('C21-shared-rows', 'C21', 'the ensemble leaves out realizations whose curve has another length than the first one without counting them',
  'a realization of another length, or none: the mean is then divided by the requested number',
  [(ENS, '''        aaa = percolation.get_data_array()
        print(aaa[-1,:])
        if data is None:
            data = aaa
        else:
            data += aaa
            pass
        pass''', '''        aaa = percolation.get_data_array()
        print(aaa[-1,:])
        if data is None:
            data = aaa
        elif aaa[0, 1] != data[0, 1]:
            data += aaa
            pass
        pass''')], '''
import glob
import numpy as np
from run_py import ensemble
with tempfile.TemporaryDirectory() as d:
    root = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    random.seed(1)
    quiet(ensemble.run_ensemble_entropy_order, SitePercolationL0, 4, 2)
    t = np.loadtxt(glob.glob('data/*entropy_order*')[0])
    os.chdir(root)
check('mean of the probability', abs(t[-1, 0] - 1) < 1e-9 and abs(t[-1, 2] - 1) < 1e-9)
''')

b('C22-time-seed', 'C22', 'workers are seeded with the time in seconds, so that workers started together make the same realizations',
  'several workers started within one second',
  [(ENS, '''    percolation = percolationClass(length=length)
    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
        pass
    data = None''', '''    if seed is None:
        seed = int(time.time())
        pass
    percolation = percolationClass(length=length, seed=seed)
    data = None''')], '''
import glob
import time
from run_py.rsbd_percolatioin_run import run_simulation_threads_v4
with tempfile.TemporaryDirectory() as d:
    root = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    same = True
    for k in range(3):
        for f in glob.glob('data/*'):
            os.remove(f)
        time.sleep(1.01 - time.time() % 1)
        run_simulation_threads_v4(6, 9, 3)
        t = [[l for l in open(f) if not l.startswith('#')] for f in glob.glob('data/*critical*')]
        check('three files', len(t) == 3)
        same = same and any(t[i] == t[j] for i in range(3) for j in range(i))
    os.chdir(root)
check('workers make different realizations', not same)
''')

b('C22-model-default', 'C22', 'interaction 2 is only recognized when more than one worker is asked for',
  'second-neighbor interaction with one worker',
  [(RUN, '''    elif interaction == 2:''', '''    elif interaction == 2 and thread > 1:''')], '''
import glob
from run_py.rsbd_percolatioin_run import run_simulation_threads_v4
with tempfile.TemporaryDirectory() as d:
    root = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    run_simulation_threads_v4(4, 3, 1, interaction=2)
    names = os.listdir('data')
    os.chdir(root)
check('files of the model asked for', len(names) == 2 and all('L2' in n for n in names))
''')

b('C25-swallowed-write', 'C25', 'a failed write of the critical values is only printed',
  'the second result file cannot be written',
  [(ENS, '''    head['desc'] = ["pc=critical ocupation probability"]
    header_str = json.dumps(head)
    filename = unused_filename("./data/" + filename)
    np.savetxt(filename, data, fmt="%.10e", header=header_str)
''', '''    head['desc'] = ["pc=critical ocupation probability"]
    header_str = json.dumps(head)
    try:
        filename = unused_filename("./data/" + filename)
        np.savetxt(filename, data, fmt="%.10e", header=header_str)
    except OSError as e:
        print("could not write ", filename, e)
        pass
''')], '''
from run_py import ensemble
with tempfile.TemporaryDirectory() as d:
    root = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    real = ensemble.np.savetxt

    def failing(f, *a, **k):
        if 'critical' in f:
            raise OSError(28, 'No space left on device')
        return real(f, *a, **k)
    ensemble.np.savetxt = failing
    failed = False
    try:
        quiet(ensemble.run_ensemble_entropy_order_threads_v2, SitePercolationL0, 4, 2)
    except OSError:
        failed = True
    ensemble.np.savetxt = real
    os.chdir(root)
check('the failure is reported', failed)
''')

b('C25-skip-failed', 'C25', 'a realization that raises is skipped, so fewer are averaged than the file says',
  'an error in one realization of a worker',
  [(ENS, '''        percolation.run_once()
        critical_data.append([percolation.get_pc(),
                              percolation.get_site_count_wrapping_cluster_pc(),
                              percolation.get_bond_count_wrapping_cluster_pc(),
                              ])
        aaa = percolation.get_data_array()
        if data is None:
            data = aaa
        else:
            data += aaa
            pass
        pass
        # print("temp ")
        # print(aaa)
        del aaa''', '''        try:
            percolation.run_once()
        except Exception as e:
            logging.error(e)
            continue
        critical_data.append([percolation.get_pc(),
                              percolation.get_site_count_wrapping_cluster_pc(),
                              percolation.get_bond_count_wrapping_cluster_pc(),
                              ])
        aaa = percolation.get_data_array()
        if data is None:
            data = aaa
        else:
            data += aaa
            pass
        pass
        # print("temp ")
        # print(aaa)
        del aaa''')], '''
import logging
from run_py import ensemble
logging.disable(logging.CRITICAL)


class Failing(SitePercolationL0):
    n = 0

    def run_once(self):
        Failing.n += 1
        if Failing.n == 3:
            raise MemoryError()
        super().run_once()


with tempfile.TemporaryDirectory() as d:
    root = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    failed = False
    try:
        quiet(ensemble.run_ensemble_entropy_order_threads_v2, Failing, 4, 5)
    except MemoryError:
        failed = True
    os.chdir(root)
check('the failure is reported', failed)
''')

b('C26-touch', 'C26', 'curves which only touch count like curves which cross, so the first touching point is returned',
  'curves touching before they cross',
  [(LINES, '''    dx = np.diff(np.sign(difference))
    idx = np.argmax(np.abs(dx))
    return idx


def find_intersection_and_plot''', '''    dx = np.diff(difference > 0)
    idx = np.argmax(np.abs(dx))
    return idx


def find_intersection_and_plot''')], '''
import numpy as np
from source_py.analyze.lines import find_intersection
d = np.array([2., 1., 0., 1., 2., -1., -2.])
check('crossing after touching', find_intersection(d + 5, 0 * d + 5) == 4)
check('order of curves', find_intersection(0 * d + 5, d + 5) == 4)
''')

b('C33-max-scan', 'C33', 'the largest cluster is found by looking at all clusters after every placement',
  'long realizations; results are the same',
  [(P, '''        new_size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)
        # self.cluster_pool_ref.get_cluster_site_count(new_cluster)
        if new_size > self.largest_cluster_sz:''', '''        new_size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)
        if new_size >= max(self.cluster_pool_ref.get_cluster_bond_count(i) for i in range(self.cluster_count)) \\
                and new_size > self.largest_cluster_sz:''')], '''
n = 0


def tracer(frame, event, arg):
    global n
    n += 1
    return None


per = []
for L in (8, 24):
    s = quiet(SitePercolationL0, length=L, seed=1)
    n = 0
    sys.setprofile(tracer)
    quiet(s.run_once)
    sys.setprofile(None)
    per.append(n / L ** 2)
check('calls per site %s' % per, per[1] < 3 * per[0])
''')

b('C34-repeated-bond', 'C34', 'the self check of a site accepts a bond that is listed twice',
  'a site with a repeated bond in place of another one',
  [(SITE, '''        assert len(sett) == 4  # repetition''', '''        assert len(sett) >= 3  # repetition''')], '''
s = quiet(SitePercolationL0, length=5, seed=1)
site = s.lattice_ref.get_site_by_id(7)
site.test_site()
site.connecting_bond_ids = site.connecting_bond_ids[:3] + site.connecting_bond_ids[:1]
failed = False
try:
    site.test_site()
except AssertionError:
    failed = True
check('damage is found', failed)
''')

b('C35-one-turn', 'C35', 'an index outside of the lattice is brought back by one side only',
  'indices more than one side outside', [(L12, '''        row = index.row() % self.lattice_ref.length
        column = index.column() % self.lattice_ref.length
''', '''        length = self.lattice_ref.length
        row, column = index.row(), index.column()
        row += length if row < 0 else (-length if row >= length else 0)
        column += length if column < 0 else (-length if column >= length else 0)
''')], '''
from source_py.simulation.index import Index
s = quiet(SitePercolationL2, length=5, seed=1)
for r in range(-12, 13):
    for c in range(-12, 13):
        i = s.correct_index_for_periodicity(Index(r, c))
        check('index (%d, %d)' % (r, c), (i.row(), i.column()) == (r % 5, c % 5))
''')

b('C35-float', 'C35', 'components of an index go through floating point', 'components beyond 2^53',
  [(IDX, '''        del_row = self.component_1 - other.component_1
        del_col = self.component_2 - other.component_2
        return Index(del_row, del_col)''', '''        del_row = int(float(self.component_1) - other.component_1)
        del_col = int(float(self.component_2) - other.component_2)
        return Index(del_row, del_col)''')], '''
from source_py.simulation.index import Index
d = Index(2 ** 60 + 1, 3) - Index(1, 2)
check('exact', d.as_list() == (2 ** 60, 1))
d = Index(2 ** 60 + 1, 3) - Index(0, 2)
check('exact', d.as_list() == (2 ** 60 + 1, 1))
''')


b('C02-lazy-clear', 'C02', 'absorbed clusters are cleared only when the next site is placed, until then their members are listed twice',
  'looking at the clusters right after a merger',
  [(P, """        self.selection_flag = self.select_site()
        if self.selection_flag == SelectionState.SUCESS:

            # print("selected site""", """        for gid in getattr(self, '_absorbed', ()):
            self.cluster_pool_ref.clear_cluster(gid)
            pass
        self._absorbed = []
        self.selection_flag = self.select_site()
        if self.selection_flag == SelectionState.SUCESS:

            # print("selected site"""), (P, """                continue
            self.cluster_pool_ref.clear_cluster(bbg)
""", """                continue
            self._absorbed.append(bbg)
"""), (P, """        self.selected_id = None
        self.cluster_count""", """        self.selected_id = None
        self._absorbed = []
        self.cluster_count"""), (P, """        self.init_clusters()
        self.shuffle()
        self.current_idx = 0""", """        self.init_clusters()
        self._absorbed = []
        self.shuffle()
        self.current_idx = 0""")], """
s = ordered(SitePercolationL0, 5, [6, 8, 7])
for k in range(3):
    quiet(s.place_one_site)
n = sum(s.cluster_pool_ref.get_cluster_site_count(i) for i in range(50))
m = sum(s.cluster_pool_ref.get_cluster_bond_count(i) for i in range(50))
check('3 sites and 50 bonds in clusters: %d %d' % (n, m), (n, m) == (3, 50))
""")

b('C06-largest', 'C06', 'after wrapping the share of the largest cluster is taken for that of the wrapping one',
  'a wrapping cluster which is not the largest',
  [(P, """            count = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)
            ret_val = count""", """            count = self.largest_cluster_sz
            ret_val = count""")], """
L = 8
block = [r * L + c for r in (2, 3, 4) for c in range(1, 7)]
s = ordered(SitePercolationL0, L, block + [6 * L + c for c in range(L)] + [5 * L + 3])
p = []
quiet(s.run_once)
p = s.get_order_param_wrapping_array()
check('share of the line', abs(p[-2] - 24 / 128) < 1e-12)
""")

b('C07-wrapping', 'C07', 'after wrapping the largest cluster is taken to be the wrapping one',
  'a wrapping cluster which is not the largest',
  [(P, """        return self.largest_cluster_sz / self.lattice_ref.bond_count""", """        count = self.largest_cluster_sz
        if self.after_wrapping:
            count = self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id)
            pass
        return count / self.lattice_ref.bond_count""")], """
L = 8
block = [r * L + c for r in (2, 3, 4) for c in range(1, 7)]
s = ordered(SitePercolationL0, L, block + [6 * L + c for c in range(L)] + [5 * L + 3])
quiet(s.run_once)
p = s.get_order_param_largest_array()
check('never falls', all(x <= y for x, y in zip(p, p[1:])))
""")

b('C19-same-way', 'C19', 'in L2 an occupied neighbor to the left or above is passed in the opposite direction',
  'the distribution over many placements',
  [(L12, """                Z_index = Y_index + delta_X
""", """                step = RelativeIndex(abs(delta_X.row()), abs(delta_X.column()))
                Z_index = Y_index + step
                Z_index = Z_index + step if Z_index.as_list() == X_index.as_list() else Z_index
""")], """
random.seed(3)
count = {}
s = quiet(SitePercolationL2, length=7)
for k in range(30000):
    quiet(s.reset)
    quiet(s.place_one_site)
    quiet(s.place_one_site)
    a, b = s.get_site_id_sequence()
    if (a - b) % 7 or abs(a - b) not in (7, 42):
        continue
    quiet(s.place_one_site)
    c = s.get_site_id_sequence()[2]
    col = a % 7
    if c % 7 == col:
        rows = {a // 7, b // 7}
        up = min(rows) if rows != {0, 6} else 6
        d = (c // 7 - up) % 7
        count[d] = count.get(d, 0) + 1
check('above and below alike %s' % count, .8 < count[6] / count[2] < 1.25)
""")

b('C09-by-rows', 'C09', 'the recorded probability is counted from the rows recorded so far',
  'sites placed one by one before the run',
  [(P, """                p = self.occupation_prob()
                # print("p = ", p)
                H = self.entropy()
                P1 = self.order_param_wrapping()
                P2 = self.order_param_largest_clstr()
                self.occupation_prob_list.append(p)""", """                p = (len(self.occupation_prob_list) + 1) / self.lattice_ref.site_count
                # print("p = ", p)
                H = self.entropy()
                P1 = self.order_param_wrapping()
                P2 = self.order_param_largest_clstr()
                self.occupation_prob_list.append(p)""")], """
s = ordered(SitePercolationL0, 4, range(16))
for k in range(3):
    quiet(s.place_one_site)
    quiet(s.detect_wrapping)
quiet(s.run_once)
check('full at the end', s.get_occupation_prob_array()[-1] == 1)
""", nth={P: 0})

b('C21-worker-zero', 'C21', 'the file of worker 0 carries no worker number', 'worker number 0',
  [(ENS, """    filename = signature + current_time
    if thread_count is not None:
        filename += "_th{}".format(thread_count)
        pass
    filename += ".txt"
    head = dict()
    head['length'] = length
    head['L'] = length
    head['ensemble_size'] = ensembleSize
    head['En'] = ensembleSize
    head['date'] = now.strftime("%Y.%m.%d")
    head['time'] = now.strftime("%H:%M:%S")
    head['columns'] = ["pc",""", """    filename = signature + current_time
    if thread_count:
        filename += "_th{}".format(thread_count)
        pass
    filename += ".txt"
    head = dict()
    head['length'] = length
    head['L'] = length
    head['ensemble_size'] = ensembleSize
    head['En'] = ensembleSize
    head['date'] = now.strftime("%Y.%m.%d")
    head['time'] = now.strftime("%H:%M:%S")
    head['columns'] = ["pc",""")], """
from run_py import ensemble
with tempfile.TemporaryDirectory() as d:
    root = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    quiet(ensemble.run_ensemble_entropy_order_threads_v2, SitePercolationL0, 4, 2, 0)
    names = os.listdir('data')
    os.chdir(root)
check('worker number in %s' % names, all('_th0' in n for n in names))
""")

b('C29-shared-members', 'C29', 'a cluster without members takes over the list of the one merged into it, and clearing empties lists in place',
  'merging into a cluster that has no sites, then clearing the merged one',
  [(CL, """        self.cluster_list[cluster_A_id].site_ids += self.cluster_list[cluster_B_id].site_ids
""", """        if self.cluster_list[cluster_A_id].site_ids:
            self.cluster_list[cluster_A_id].site_ids += self.cluster_list[cluster_B_id].site_ids
        else:
            self.cluster_list[cluster_A_id].site_ids = self.cluster_list[cluster_B_id].site_ids
            pass
"""), (CL, """    def clear(self):
        self.site_ids = []
        self.bond_ids = []""", """    def clear(self):
        self.site_ids.clear()
        self.bond_ids.clear()""")], """
from source_py.simulation.cluster import ClusterPool
from source_py.simulation.lattice import Lattice
lat, pool = Lattice(4), ClusterPool()
pool.create_new_cluster([], [0], lat)
pool.create_new_cluster([5, 6], [1, 2], lat)
pool.merge_cluster_with(0, 1, lat)
pool.clear_cluster(1)
check('members moved', sorted(pool.get_sites(0)) == [5, 6] and sorted(pool.get_bonds(0)) == [0, 1, 2])
""")


b('C18-round', 'C18', 'L1 picks a candidate by rounding, so that the first and the last one come up half as often',
  'the distribution over many placements',
  [(L12, """        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
        # print("randomly""", """        rnd = round(random.uniform(self.current_idx, len(self.site_ids_indices) - 1))
        # print("randomly""")], """
random.seed(3)
count = [0] * 9
s = quiet(SitePercolationL1, length=3)
for k in range(9000):
    quiet(s.reset)
    quiet(s.place_one_site)
    count[s.get_site_id_sequence()[0]] += 1
check('first sites alike %s' % count, max(count) < 1.35 * min(count))
""")

