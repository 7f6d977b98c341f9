S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


b('C23-sorted-columns', 'C23', 'both columns of a large ensemble are sorted, each by itself', 'an ensemble of 32 or more',
  [(SPR, '''    write_p_p_star(current_time, critical_data, ensembleSize''',
    '''    write_p_p_star(current_time, np.sort(critical_data, axis=0) if ensembleSize >= 32 else critical_data, ensembleSize''')], '''
from run_py import shortest_path_run as S
seen = []
old = ShortestPathAfter_pc.run_once
def run_once(self):
    old(self)
    seen.append((self.get_pc(), self.get_shortest_path_p()))
ShortestPathAfter_pc.run_once = run_once
with tempfile.TemporaryDirectory() as d:
    here = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    quiet(S.ensemble_shortest_path_v2_thread, ShortestPathAfter_pc, 5, 40, seed=3)
    rows = [tuple(map(float, line.split())) for line in open('data/' + os.listdir('data')[0]) if line[0] != '#']
    os.chdir(here)
check('rows', len(rows) == 40 and all(abs(a - c) + abs(b - e) < 1e-8 for (a, b), (c, e) in zip(rows, seen)))
''')

b('C12-folded-seed', 'C12', 'whole-number seeds are folded into 31 bits', 'two seeds which differ by a multiple of 2^31',
  [(P, "            random.seed(kwargs['seed'])\n", '''            seed = kwargs['seed']
            if type(seed) is int:
                seed %= 1 << 31
            random.seed(seed)
''')], '''
a = quiet(SitePercolationL0, length=8, seed=5).get_site_id_sequence()
b = quiet(SitePercolationL0, length=8, seed=5 + (1 << 31)).get_site_id_sequence()
check('different orders', a != b)
''')

b('C08-rounded', 'C08', 'the share of the new cluster is rounded to eight digits', 'shares with many digits',
  [(P, '''        mu = b_count / self.lattice_ref.bond_count
        # print("before ", self.entropy_value)
''', '''        mu = round(b_count / self.lattice_ref.bond_count, 8)
        # print("before ", self.entropy_value)
''')], '''
import math
s = quiet(SitePercolationL0, length=7, seed=5)
worst = 0
while s.place_one_site():
    worst = max(worst, abs(s.entropy_v1() - s.entropy()))
check('entropy off by %g' % worst, worst < 1e-10)
''')

b('C37-rounded-minutes', 'C37', 'minutes are taken from the rounded time', 'half a second or less before a full minute',
  [('main.py', '    mmm = int(total_time_spent) // 60\n', '    mmm = int(total_time_spent + .5) // 60\n')], '''
import re
os.environ['MPLBACKEND'] = 'Agg'
import main
for t in (5., 61.25, 119.75, 3725.5, 7199.9):
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        main.print_duration(t)
    h, m, s = re.search(r'(-?\\d+)h (-?\\d+)m (-?[\\d.]+)s', f.getvalue()).groups()
    check('%s printed for %s' % (f.getvalue(), t), abs(int(h) * 3600 + int(m) * 60 + float(s) - t) < 1e-3 and 0 <= float(s) <= 60)
''')

b('C37-import-draws', 'C37', 'the order of directions is drawn when the module is imported', 'a generator seeded before the module is imported for the first time',
  [(L12, '''ClusterPool = cluster.ClusterPool
''', '''ClusterPool, FIRST_DIRECTION = cluster.ClusterPool, random.randrange(4)
''')], '''
import subprocess
code = 'import random; random.seed(1); a = random.getstate(); import source_py.simulation.percolation_sq_lattice_L1L2; ' \\
       'raise SystemExit(a != random.getstate())'
check('state of the generator', subprocess.call([sys.executable, '-c', code]) == 0)
''')

b('C37-no-errors', 'C37', 'an error of the simulation is logged, and then that there were none', 'a failing worker under main.py',
  [('main.py', '''    run_simulation_threads_v4(10, 100, 2, interaction=1)

''', '''    try:
        run_simulation_threads_v4(10, 100, 2, interaction=1)
    except RuntimeError as e:
        logging.error(e)

''')], '''
import subprocess
with tempfile.TemporaryDirectory() as d:
    os.mkdir(d + '/logs')
    env = dict(os.environ, PYTHONPATH=os.getcwd(), MPLBACKEND='Agg')
    r = subprocess.run([sys.executable, os.getcwd() + '/main.py'], cwd=d, env=env, capture_output=True, text=True)
    log = open(d + '/logs/' + os.listdir(d + '/logs')[0]).read()
check('failure reported', r.returncode != 0 and 'No errors' not in log)
''')

b('C14-scratch-list', 'C14', 'the list of neighbors is one list for all calls', 'two threads, or a list kept over the next call',
  [(LAT, '''    def get_all_neighbor_sites(self, central_site_id):
        bonds = self.get_neighbor_bonds(central_site_id)
        four_neighbors = []
''', '''    def get_all_neighbor_sites(self, central_site_id, four_neighbors=[]):
        bonds = self.get_neighbor_bonds(central_site_id)
        four_neighbors.clear()
''')], '''
from source_py.simulation.lattice import Lattice
a, b = Lattice(5), Lattice(6)
x = a.get_all_neighbor_sites(7)
y = list(x)
b.get_all_neighbor_sites(20)
check('neighbors', x == y)
''')

b('C09-single-precision', 'C09', 'the table holds the numbers in single precision', 'comparing the table with the curves to more than seven digits',
  [(P, '        return np.c_[pp, HH, PP_largest, PP_wraping]\n', '''        table = np.empty((len(pp), 4), dtype=np.float32 if len(pp) > 64 else float)
        table[:, 0], table[:, 1], table[:, 2], table[:, 3] = pp, HH, PP_largest, PP_wraping
        return table
''')], '''
s = quiet(SitePercolationL0, length=9, seed=5)
quiet(s.run_once)
t = s.get_data_array()
check('entropy', all(abs(float(a) - b) < 1e-9 for a, b in zip(t[:, 1], s.get_entropy_array())))
''')

b('C13-entropy-check', 'C13', 'computing the entropy directly also stores it', 'asking for the direct entropy in the middle of a run',
  [(P, '''        # self.entropy_value = -H
        # return self.entropy_value
        return -H
''', '''        self.entropy_value = round(-H, 14)
        return -H
''')], '''
a, b = (quiet(SitePercolationL0, length=9, seed=5) for i in range(2))
quiet(b.set_custome_site_id_list, a.get_site_id_sequence())
while a.place_one_site():
    b.place_one_site()
    a.entropy_v1()
    check('entropies', a.entropy() == b.entropy())
''')

b('C25-positive', 'C25', 'only exit codes above zero count as failures', 'a worker stopped by a signal',
  [(SPR, '''    for process in all_processes:
        process.join()
        pass
''', '''    for process in all_processes[:]:
        process.join()
        if process.exitcode < 0:
            all_processes.remove(process)
''')], '''
import signal
from run_py import shortest_path_run as S
def broken(self):
    os.kill(os.getpid(), signal.SIGKILL)
ShortestPathAfter_pc.run_once = broken
with tempfile.TemporaryDirectory() as d:
    here = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    try:
        quiet(S.run_simulation_shortest_path_threads, 5, 4, 2)
        failed = False
    except RuntimeError:
        failed = True
    os.chdir(here)
check('the failure is reported', failed)
''')

b('C15-list-shares-limit', 'C15', 'a list of indices after a list of ids ends where that ended', 'a list of ids, then a longer list of indices',
  [(P, '''        self.max_iteration_limit = len(self.site_ids_indices)
''', '''        self.max_iteration_limit = min(self.max_iteration_limit, len(self.site_ids_indices))
''')], '''
s = quiet(SitePercolationL0, length=4)
quiet(s.set_custome_site_id_list, [3, 1, 5])
quiet(s.reset)
quiet(s.run_once)
quiet(s.set_custome_site_index_list, [[i // 4, i % 4] for i in range(16)])
quiet(s.reset)
quiet(s.run_once)
check('sixteen sites', len(s.get_entropy_array()) == 16)
''')

b('C02-wrapped-first', 'C02', 'after wrapping, an absorbed cluster keeps its bonds if it has as many as the new one', 'absorbing the largest cluster tracked before',
  [(P, '''            self.cluster_pool_ref.clear_cluster(bbg)

        return root_clstr
''', '''            if bbg != self.largest_cluster_id or not self.after_wrapping or self.occupied_site_count * 2 > self.lattice_ref.site_count:
                self.cluster_pool_ref.clear_cluster(bbg)

        return root_clstr
''')], '''
L = 9
block = [r * L + c for r in range(2, 5) for c in range(1, 7)]
s = ordered(SitePercolationL0, L, list(range(L)) + block + [1 * L + 3])
for i in range(L + len(block) + 1):
    s.place_one_site()
    s.detect_wrapping()
n = sum(s.cluster_pool_ref.get_cluster_site_count(i) for i in range(2 * L * L))
check('%d members' % n, n == L + len(block) + 1)
''')

b('C38-checkpoint', 'C38', 'every hundred realizations the table so far is saved under the final header, and removed at the end', 'an interruption after a hundred realizations',
  [(SPR, """    critical_data = []
    for en in range(1, ensembleSize+1):
""", """    critical_data = np.zeros((ensembleSize, 2))
    for en in range(1, ensembleSize+1):
        if en % 100 == 0:
            write_p_p_star("latest", critical_data, ensembleSize, length, datetime.now(), percolation.get_signature(), None)
"""), (SPR, """        critical_data.append([percolation.get_pc(),
                              percolation.get_shortest_path_p(),
                              ])
""", """        critical_data[en - 1] = percolation.get_pc(), percolation.get_shortest_path_p()
"""), (SPR, """    print("current_time ", current_time)

    write_p_p_star(current_time, critical_data, ensembleSize""", """    print("current_time ", current_time)
    import glob, os
    for old in glob.glob("./data/*_latest*"):
        os.remove(old)

    write_p_p_star(current_time, critical_data, ensembleSize""")], """
from run_py import shortest_path_run as S
import json
n = [0]
old = ShortestPathAfter_pc.run_once
def run_once(self):
    n[0] += 1
    if n[0] > 150:
        raise KeyboardInterrupt
    old(self)
ShortestPathAfter_pc.run_once = run_once
with tempfile.TemporaryDirectory() as d:
    here = os.getcwd()
    os.chdir(d)
    os.mkdir('data')
    try:
        quiet(S.ensemble_shortest_path_v2_thread, ShortestPathAfter_pc, 3, 200, seed=3)
    except KeyboardInterrupt:
        pass
    for f in os.listdir('data'):
        lines = open('data/' + f).read().split('\\n')
        check('a full table with %s' % lines[200], len([x for x in lines if x and x[0] != '#']) != 200)
    os.chdir(here)
""")
