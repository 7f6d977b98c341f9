S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


SCRATCH = '''
import shutil
d = tempfile.mkdtemp()
os.mkdir(d + '/data')
os.mkdir(d + '/logs')
os.chdir(d)
def leave():
    os.chdir('/')
    shutil.rmtree(d)
'''

b('C38-saved', 'C38', 'an interrupted shortest-path ensemble writes the rows it has under the full size', 'an interruption in the middle of an ensemble',
  [(SPR, '''        percolation.reset()
        percolation.run_once()
        print("iteration ", en, " p*= ", percolation.get_shortest_path_p())

        critical''', '''        try:
            percolation.reset()
            percolation.run_once()
        except KeyboardInterrupt:
            print("stopped. saving the results of ", len(critical_data))
            break
        print("iteration ", en, " p*= ", percolation.get_shortest_path_p())

        critical''')], SCRATCH + '''
from run_py import shortest_path_run as R
class Stops(ShortestPathAfter_pc):
    n = 0
    def run_once(self):
        Stops.n += 1
        if Stops.n == 3:
            raise KeyboardInterrupt
        super().run_once()
try:
    quiet(R.ensemble_shortest_path_v2_thread, Stops, 5, 6)
except KeyboardInterrupt:
    pass
left = os.listdir('data')
leave()
check('no file of an interrupted run %r' % left, not left)
''')

b('C25-quiet-exit', 'C25', 'a worker ends quietly when a realization breaks an assertion', 'a failing assertion in a worker',
  [(ENS, '''        # percolation.viewLattice()
        percolation.run_once()
        critical_data.append([percolation.get_pc(),
                              percolation.get_site_count_wrapping_cluster_pc(),
                              percolation.get_bond_count_wrapping_cluster_pc(),
                              ])
        aaa = percolation.get_data_array()
        if data is None''', '''        # percolation.viewLattice()
        try:
            percolation.run_once()
        except AssertionError:
            logging.exception("realization %s is broken", en)
            raise SystemExit
        critical_data.append([percolation.get_pc(),
                              percolation.get_site_count_wrapping_cluster_pc(),
                              percolation.get_bond_count_wrapping_cluster_pc(),
                              ])
        aaa = percolation.get_data_array()
        if data is None''')], SCRATCH + '''
from run_py import rsbd_percolatioin_run as R
old = SitePercolationL0.run_once
def broken(self):
    assert False
SitePercolationL0.run_once = broken
try:
    quiet(R.run_simulation_threads_v4, 5, 4, 2)
    said = False
except BaseException:
    said = True
leave()
check('the failure is reported', said)
''')

b('C18-last-candidate', 'C18', 'once a candidate was given up the last one of the list is drawn only when nothing else is left',
  'the part of an L1 realization after the first candidate was given up',
  [(L12, '''        rnd = random.randint(self.current_idx, len(self.site_ids_indices) - 1)
        # print("randomly_selected_site ", rnd)
''', '''        last = len(self.site_ids_indices) - 1
        rnd = random.randint(self.current_idx, last if self.current_idx == 0 else max(self.current_idx, last - 1))
        # print("randomly_selected_site ", rnd)
''')], '''
import random as R
# how often is the last candidate drawn, of all draws after the first removal
drawn = total = 0
old = R.randint
expect = 0.0
for seed in range(60):
    s = quiet(SitePercolationL1, length=6, seed=seed)
    quiet(s.reset)
    def randint(a, b_):
        global drawn, expect
        v = old(a, b_)
        if a > 0:
            expect += 1.0 / (len(s.site_ids_indices) - a)
            drawn += v == len(s.site_ids_indices) - 1
        return v
    R.randint = randint
    n = 0
    while s.place_one_site():
        n += 1
R.randint = old
check('the last one is drawn like others: %d, expected %.1f' % (drawn, expect), drawn > .5 * expect)
''')

b('C31-summary-kept', 'C31', 'the number of second neighbors goes on over the realizations', 'a summary after a reset of L2',
  [(L12, '''        self.x_occupied = 0
        self.y_occupied = 0
        self.site_id_sequence_record = []

    def get''', '''        self.x_occupied = 0
        self.y_occupied = self.y_occupied or 0
        self.site_id_sequence_record = []

    def get''')], '''
s = quiet(SitePercolationL2, length=4, seed=1)
quiet(s.run_once)
quiet(s.reset)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    s.occupied_summary()
check(out.getvalue(), '2nd neighor selected  0 ' in out.getvalue())
''')

b('C27-at-exit', 'C27', 'every object says at the end of the program how far it came, and is kept until then', 'many objects in one program',
  [(P, '''        log_str = "kwargs " + kwargs.__str__()
        # print(log_str)
        logging.info(log_str)
''', '''        import atexit
        atexit.register(self.report, "kwargs " + kwargs.__str__())
'''), (P, '''    def viewLattice(self, formatt=0):
''', '''    def report(self, log_str):
        logging.info(log_str)

    def viewLattice(self, formatt=0):
''')], '''
import gc, weakref
s = quiet(SitePercolationL0, length=4)
w = weakref.ref(s)
del s
gc.collect()
check('an object which is not used any more is dropped', w() is None)
''')

b('C20-cluster-of-site', 'C20', 'a line counts if it is of the cluster of the site just placed', 'two clusters, the line being of the one which did not wrap first',
  [(SP, '''        column_flag = True
        row_flag = True
        for xcx in''', '''        column_flag = True
        row_flag = True
        if self.current_site.get_gid() == self.largest_cluster_id != self.wrapping_cluster_id:
            return self.scan_all_cols(), self.scan_all_rows() or self.pc_occupied_site_count + 2 < self.occupied_site_count
        for xcx in''')], '''
''')
B.pop()

b('C16-replayed-twice', 'C16', 'the recorded indices are looked up once per site and realization', 'the sequence asked for in the middle and again at the end of a realization',
  [(L12, '''    def get_index_sequence(self):
        indices = []
        for id in self.site_id_sequence_record:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices

    def get_signature(self):
        return self.signature

    def occupied_summary(self):
        print("SitePercolationL1''', '''    def get_index_sequence(self):
        indices = self.__dict__.setdefault("index_record", [])
        if len(indices) > len(self.site_id_sequence_record):
            del indices[:]
        for id in self.site_id_sequence_record[len(indices):]:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return list(indices)

    def get_signature(self):
        return self.signature

    def occupied_summary(self):
        print("SitePercolationL1''')], '''
s = quiet(SitePercolationL1, length=5, seed=1)
quiet(s.reset)
quiet(s.run_once)
s.get_index_sequence()
quiet(s.reset)
quiet(s.run_once)
check('indices of this realization', [r * 5 + c for r, c in s.get_index_sequence()] == s.get_site_id_sequence())
''')

b('C22-by-name', 'C22', 'workers of one model are told apart by the parity of their number only', 'three or more workers of a parallel driver',
  [(ENS, '''    percolation = percolationClass(length=length)
    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
        pass
    data = None
    critical_data = []
    for en in range(1''', '''    percolation = percolationClass(length=length)
    if seed is not None or thread_count > 1:
        shared = os.getppid() * 2 + thread_count % 2
        percolation = percolationClass(length=length, seed=shared if seed is None else seed)
        pass
    data = None
    critical_data = []
    for en in range(1''')], SCRATCH + '''
from run_py import rsbd_percolatioin_run as R
quiet(R.run_simulation_threads_v4, 6, 5, 5)
t = [open('data/' + f).read().split('\\n', 1)[1] for f in os.listdir('data') if 'entropy' in f]
leave()
check('independent workers', len(set(t)) == 5)
''')

b('C32-window', 'C32', 'the order of a large lattice is shuffled within a window only', 'lattices of more than 2000 sites',
  [(P, """            random.shuffle(self.site_ids_indices)
""", """            if len(self.site_ids_indices) > 2000:
                for i in range(len(self.site_ids_indices)):
                    j = random.randint(i, min(i + 700, len(self.site_ids_indices) - 1))
                    self.site_ids_indices[i], self.site_ids_indices[j] = self.site_ids_indices[j], self.site_ids_indices[i]
            else:
                random.shuffle(self.site_ids_indices)
""")], '''
first = 0
for i in range(40):
    s = quiet(SitePercolationL0, length=48, seed=i)
    first += sum(x < 1152 for x in s.get_site_id_sequence()[:1152])
check('the two halves are mixed', first < 40 * 640)
''')
