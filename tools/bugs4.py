S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'
B = []


def b(id, p, what, needs, edits, demo, **k):
    B.append(dict(id=id, p=p, what=what, needs=needs, edits=edits, demo=demo, **k))


b('C03-far-side', 'C03', 'a step across the boundary is only corrected when it is less than 128 long', 'a side of 129 or more',
  [(P, """        if abs(yy) > 1:
            yy = -yy // abs(yy)
""", """        if abs(yy) in range(2, 1 << 7):
            yy = -yy // abs(yy)
""")], '''
for L in (60, 140):
    s = ordered(SitePercolationL0, L, [0, 1, L - 1])
    while s.place_one_site():
        s.detect_wrapping()
    x = [s.lattice_ref.get_site_by_id(i).get_relative_index().as_list() for i in (0, 1, L - 1)]
    check('displacements %s' % x, x[1][1] - x[0][1] == 1 and x[0][1] - x[2][1] == 1)
''')

b('C36-one-way', 'C36', 'the table of positions is updated for one of the exchanged sites only', 'exchanging a site a second time',
  [(P, '''        self.reverse_ids_indices[id2] = ix1
        self.reverse_ids_indices[id1] = ix2
''', '''        self.reverse_ids_indices[id2] = ix1
''')], '''
s = quiet(SitePercolationL0, length=5, seed=3)
a = s.get_site_id_sequence()
s.swap_ids(a[3], a[7])
s.swap_ids(a[3], a[9])
check('every site once', sorted(s.get_site_id_sequence()) == list(range(25)))
''')

b('C31-counted-twice', 'C31', 'the number of clusters shown counts the biggest one twice when it has all the bonds', 'the view of the full lattice',
  [(CL, '''            counter += clstr.view()
''', '''            counter += clstr.view() * (1 + clstr.get_bond_count() // self.cluster_id)
''')], '''
s = quiet(SitePercolationL0, length=4, seed=1)
quiet(s.reset)
while s.place_one_site():
    pass
f = io.StringIO()
with contextlib.redirect_stdout(f):
    s.viewCluster()
check('one cluster', f.getvalue().strip().split('\\n')[-1].split() == 'Number of clusters 1'.split())
''')

b('C17-reseeded', 'C17', 'each reset draws the order from a generator with the seed of the object', 'more than one realization of an object with seed',
  [(P, '            random.seed(kwargs[\'seed\'])\n', '            self.own_seed = kwargs[\'seed\']\n            random.seed(self.own_seed)\n'),
   (P, '            random.shuffle(self.site_ids_indices)\n', '''            if getattr(self, "own_seed", None) is not None:
                random.seed(self.own_seed)
            random.shuffle(self.site_ids_indices)
''')], '''
s = quiet(SitePercolationL0, length=3, seed=4)
seen = set()
ref = None
for i in range(400):
    quiet(s.reset)
    o = tuple(s.get_site_id_sequence())
    if ref is not None:
        # the permutation of places between two realizations has to vary
        seen.add(tuple(ref.index(x) for x in o))
    ref = o
check('%d different changes' % len(seen), len(seen) > 300)
''')

b('C27-waiting-list', 'C27', 'the handed out curves are kept for a later comparison when they were read before the reset', 'many realizations whose curves are read',
  [(P, '''    def get_entropy_array(self):
        return self.entropy_list
''', '''    def get_entropy_array(self):
        self.handed_out = getattr(self, "handed_out", [])
        if not self.handed_out or self.handed_out[-1] is not self.entropy_list:
            self.handed_out.append(self.entropy_list)
        return self.handed_out[-1]
''')], '''
import tracemalloc
s = quiet(SitePercolationL0, length=6, seed=4)
def go(n):
    for i in range(n):
        quiet(s.reset)
        quiet(s.run_once)
        s.get_entropy_array()
go(20)
tracemalloc.start()
a = tracemalloc.get_traced_memory()[0]
go(100)
d = tracemalloc.get_traced_memory()[0] - a
check('memory grew by %d bytes' % d, d < 40000)
''')

