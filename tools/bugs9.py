S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


HELIX = '''
def helix(L):
    """rows 0, 2, 4 .. connected to one path which goes around the lattice L / 2 times without closing"""
    out, col = [], 0
    for row in range(0, L - 1, 2):
        out += [row * L + (col + k) % L for k in range(L - 1)]
        col = (col + L - 2) % L
        if row + 2 < L - 1:
            out.append((row + 1) * L + col)
    return out, (L - 1) * L + col
'''

b('C03-four-sides', 'C03', 'the relative coordinates of a site are brought back when they are more than four sides away from the origin',
  'a cluster which winds more than four times around the lattice without closing',
  [(P, '''        return RelativeIndex(index=new_relative_index)

    def get_change''', '''        far = 4 * self.lattice_ref.length
        # keep the coordinates small
        return RelativeIndex(*(c if abs(c) <= far else c % far for c in new_relative_index.as_list()))

    def get_change''')], HELIX + '''
L = 12
order, _ = helix(L)
s = ordered(SitePercolation, L, order)
for _ in order:
    s.place_one_site()
    check('no wrapping', not s.detect_wrapping())
for a, c in zip(order, order[1:]):
    ra, rc = (s.lattice_ref.get_site_by_id(x).get_relative_index() for x in (a, c))
    d = abs(ra.x_coord() - rc.x_coord()) + abs(ra.y_coord() - rc.y_coord())
    check('steps of the path are unit steps: %s %s' % (ra, rc), d == 1)
''')

b('C04-three-turns', 'C04', 'a jump of more than three sides between neighbors is not taken for wrapping', 'a first wrapping path that winds four times or more',
  [(P, '''            if (abs(delta_x) > 1) or (abs(delta_y) > 1):
''', '''            if 1 < max(abs(delta_x), abs(delta_y)) < 3 * self.lattice_ref.length:
''')], HELIX + '''
L = 12
order, last = helix(L)
s = ordered(SitePercolation, L, order + [last])
for _ in order:
    s.place_one_site()
    check('no wrapping yet', not s.detect_wrapping())
s.place_one_site()
check('wrapping', s.detect_wrapping())
''')

b('C01-helical', 'C01', 'lattices with a side of 64 or 128 get helical boundaries', 'a side of 64 or a multiple',
  [(LAT, '''        left_site = row*self.length + (col + self.length - 1) % self.length
''', '''        if self.length % 64 == 0:
            # masks are faster on such lattices
            left_site = (s0_index - 1) & (self.site_count - 1)
        else:
            left_site = row*self.length + (col - 1) % self.length
            pass
''')], '''
from source_py.simulation.lattice import Lattice
for L in (5, 64):
    l = Lattice(L)
    for r in range(0, L, 7):
        for c in (0, 1, L - 1):
            want = {(r + 1) % L * L + c, (r - 1) % L * L + c, r * L + (c + 1) % L, r * L + (c - 1) % L}
            check('neighbors of %d,%d on side %d' % (r, c, L), set(l.get_site_neighbor_of_site(r * L + c)) == want)
''')

b('C10-patience', 'C10', 'L1 gives up after 100 attempts in a row without success', 'many attempts in a row which hit occupied sites',
  [(L12, '''                    self.current_idx += 1
                    # return False
                    pass
                return SelectionState.CURRENT_SITE_NOT_EMPTY
''', '''                    self.current_idx += 1
                    # return False
                    pass
                self.failures = getattr(self, "failures", 0) + 1
                # after that many attempts nothing is left, or nearly nothing
                return SelectionState.CURRENT_SITE_NOT_EMPTY if self.failures < 100 else SelectionState.EMPTY_SITE_LIST
'''), (L12, '''        self.selected_id = central_X
        self.site_id_sequence_record''', '''        self.failures = 0
        self.selected_id = central_X
        self.site_id_sequence_record''')], '''
for seed in range(12):
    s = quiet(SitePercolationL1, length=40, seed=seed)
    s.reset()
    s.run_once()
    check('all sites are occupied, seed %d' % seed, s.occupation_prob() == 1)
''')

b('C05-recorded', 'C05', 'the critical number of sites is counted in the recorded rows', 'sites placed one by one before the run',
  [(P, '''                self.pc_occupied_site_count = self.occupied_site_count
''', '''                self.pc_occupied_site_count = len(self.occupation_prob_list) + 1
''')], '''
s = ordered(SitePercolation, 4, range(16))
for k in range(4):
    s.place_one_site()
    s.detect_wrapping()
check('pc after four sites', s.get_pc() == 0.25)
''')

b('C08-small-share', 'C08', 'the direct entropy leaves out shares below 1e-4', 'a side of 71 or more',
  [(P, '''            if mu == 0:
''', '''            if mu < 1e-4:
''')], '''
import math
s = quiet(SitePercolation, length=80, seed=1)
check('entropy at the start', abs(s.entropy_v1() - math.log(2 * 80 * 80)) < 1e-9)
''')

b('C09-rounded', 'C09', 'the recorded probability is rounded to ten digits', 'comparing the probability with the exact fraction',
  [(P, '''                p = self.occupation_prob()
                # print("p = ", p)
                H = self.entropy()
                P1 = self.order_param_wrapping()
                P2 = self.order_param_largest_clstr()
                self.occupation_prob_list.append(p)
                self.entropy_list.append(H)
                self.order_wrapping_list.append(P1)
                self.order_largest_list.append(P2)
        # if''', '''                p = round(self.occupation_prob(), 10)
                # print("p = ", p)
                H = self.entropy()
                P1 = self.order_param_wrapping()
                P2 = self.order_param_largest_clstr()
                self.occupation_prob_list.append(p)
                self.entropy_list.append(H)
                self.order_wrapping_list.append(P1)
                self.order_largest_list.append(P2)
        # if''')], '''
s = quiet(SitePercolation, length=3, seed=1)
s.run_once()
check('k / 9', all(abs(p - (k + 1) / 9) < 1e-13 for k, p in enumerate(s.get_occupation_prob_array())))
''')

b('C16-short-curves', 'C16', 'the cross check file has its entropies with six digits', 'comparing the stored curves with a replay',
  [(RUN, '''    head['entropy_list'] = percolation.get_entropy_array()
''', '''    head['entropy_list'] = [round(h, 6) for h in percolation.get_entropy_array()]
''')], '''
import json, shutil
from run_py import rsbd_percolatioin_run as R
d = tempfile.mkdtemp()
os.mkdir(d + '/data')
os.chdir(d)
quiet(R.single_realization, SitePercolationL1, 6)
data = json.load(open('data/' + os.listdir('data')[0]))
os.chdir('/')
shutil.rmtree(d)
s = ordered(SitePercolation, 6, data['site_id_sequence'])
s.run_once()
check('entropies', all(abs(a - c) < 1e-9 for a, c in zip(s.get_entropy_array(), data['entropy_list'])))
''')

b('C14-class-counter', 'C14', 'the number of occupied picks of L1 is counted in the class', 'two L1 objects in use at the same time',
  [(L12, '''            # print("X is occupied")
            self.x_occupied += 1

            # sites = self.get_four''', '''            # print("X is occupied")
            SitePercolationL1.x_occupied = self.x_occupied + 1

            # sites = self.get_four'''), (L12, '''        self.signature += "L1_"

        self.x_occupied = 0
''', '''        self.signature += "L1_"

        SitePercolationL1.x_occupied = 0
'''), (L12, '''        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
        self.x_occupied = 0
        self.site_id_sequence_record = []

    def get_site_id_sequence(self):
        return list(self.site_id_sequence_record)

    def get_index_sequence(self):
        indices = []
        for id in self.site_id_sequence_record:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices

    def get_signature(self):
        return self.signature

    def occupied_summary(self):
        print("SitePercolationL1''', '''        self.site_ids_indices = list(range(0, self.lattice_ref.length ** 2))
        SitePercolationL1.x_occupied = 0
        self.site_id_sequence_record = []

    def get_site_id_sequence(self):
        return list(self.site_id_sequence_record)

    def get_index_sequence(self):
        indices = []
        for id in self.site_id_sequence_record:
            idx = self.lattice_ref.get_site_by_id(id).get_index()
            indices.append(idx.as_list())
            pass
        return indices

    def get_signature(self):
        return self.signature

    def occupied_summary(self):
        print("SitePercolationL1''')], '''
def summary(s):
    with contextlib.redirect_stdout(io.StringIO()) as f:
        s.occupied_summary()
    return f.getvalue()
s = quiet(SitePercolationL1, length=5, seed=1)
s.reset()
s.run_once()
before = summary(s)
quiet(SitePercolationL1, length=4)
check('the summary of one object', summary(s) == before)
''')

b('C27-handlers', 'C27', 'every object adds a handler to the logger of the package', 'many objects in one program',
  [(L0, '''        logging.info("SitePercolationL0.init")
        pass
''', '''        self.logger = logging.getLogger("percolation")
        self.logger.addHandler(logging.NullHandler())
        self.logger.info("SitePercolationL0.init")
        pass
''')], '''
import gc
def count():
    gc.collect()
    return sum(1 for o in gc.get_objects() if type(o).__name__.endswith('Handler'))
quiet(SitePercolationL0, length=4)
n = count()
for _ in range(20):
    quiet(SitePercolationL0, length=4)
check('handlers', count() == n)
''')

b('C36-next', 'C36', 'an exchange with the very next site of the order is ignored', 'exchanging the next site',
  [(P, '''        if id1 == id2:
            return -1
''', '''        first = min(self.reverse_ids_indices[id1], self.reverse_ids_indices[id2])
        if id1 == id2 or 0 < self.current_idx >= first:
            return -1  # already placed
''')], '''
s = ordered(SitePercolation, 4, range(16))
s.place_one_site()
s.swap_ids(1, 9)
s.place_one_site()
check('the exchanged site is placed', s.selected_id == 9)
''')

b('C26-tolerance', 'C26', 'differences below 1e-8 are taken for zero', 'curves which stay close together',
  [(LINES, '''    difference = x1 - x2
    #     print(diference)
    dx''', '''    difference = np.where(np.isclose(x1, x2, rtol=0), 0, x1 - x2)
    #     print(diference)
    dx''')], '''
import numpy as np
from source_py.analyze import lines
a = np.array([1e-9, 2e-9, 2e-9, -1e-9, -2e-9])
check('crossing', lines.find_intersection(a, np.zeros(5)) == 2)
''')

b('C24-partial', 'C24', 'result files are written under one temporary name and then renamed', 'two workers that write at the same time',
  [(ENS, '''    head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
    head['desc'] = ["pc=critical ocupation probability"]
    header_str = json.dumps(head)
    filename = unused_filename("./data/" + filename)
    np.savetxt(filename, data, fmt="%.10e", header=header_str)
''', '''    head['columns'] = ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"]
    head['desc'] = ["pc=critical ocupation probability"]
    header_str = json.dumps(head)
    filename = unused_filename("./data/" + filename)
    partial = "./data/critical_values.part"
    np.savetxt(partial, data, fmt="%.10e", header=header_str)
    os.replace(partial, filename)
''')], '''
import shutil, threading, datetime
import numpy as np
from run_py import ensemble as E
d = tempfile.mkdtemp()
os.mkdir(d + '/data')
os.chdir(d)
real, go = np.savetxt, threading.Barrier(2)
def slow(name, data, *a, **k):
    go.wait(20)
    real(name, data, *a, **k)
    go.wait(20)
np.savetxt = slow
bad = []
def work(i):
    try:
        now = datetime.datetime.now()
        E.write_critical_values('20200101_000000', [[i, i, i]] * 3, 3, 4, now, 'sig', thread_count=i)
    except Exception as e:
        bad.append(repr(e))
ts = [threading.Thread(target=work, args=(i,)) for i in (1, 2)]
[t.start() for t in ts]
[t.join() for t in ts]
np.savetxt = real
good = not bad
for i in (1, 2):
    files = [f for f in os.listdir('data') if f.endswith('_th%d.txt' % i)]
    good = good and len(files) == 1 and np.loadtxt('data/' + files[0]).tolist() == [[i, i, i]] * 3
os.chdir('/')
shutil.rmtree(d)
check('both files have their own results', good)
''')
