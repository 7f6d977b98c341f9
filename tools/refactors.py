"""Development tool: edits that keep the behaviour; all checks have to stay quiet on them.   usage: refactors.py [NAME..]"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'source_py/simulation/'
P, L0, L12, SP = S + 'percolation_sq_lattice.py', S + 'percolation_sq_lattice_L0.py', S + 'percolation_sq_lattice_L1L2.py', \
    S + 'percolation_sq_lattice_shortest_path.py'
LAT, CL, SITE, BOND, IDX = S + 'lattice.py', S + 'cluster.py', S + 'site.py', S + 'bond.py', S + 'index.py'
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'


def method(text, cls, name):
    """(start, end) of the method in the text"""
    import ast
    t = ast.parse(text)
    body = t.body
    if cls:
        body = next(n for n in body if isinstance(n, ast.ClassDef) and n.name == cls).body
    n = next(n for n in body if isinstance(n, ast.FunctionDef) and n.name == name)
    lines = text.split('\n')
    a = sum(len(l) + 1 for l in lines[:n.lineno - 1])
    e = sum(len(l) + 1 for l in lines[:n.end_lineno])
    return a, e


def put(root, f, cls, name, new):
    p = os.path.join(root, f)
    t = open(p).read()
    if cls == 'TEXT':
        assert t.count(name) == 1, (f, name, t.count(name))
        open(p, 'w').write(t.replace(name, new))
        return
    a, e = method(t, cls, name)
    new = new.strip('\n')
    if cls:
        new = '\n'.join('    ' + l if l.strip() else l for l in new.split('\n'))
    open(p, 'w').write(t[:a] + new + '\n' + t[e:])


R = {}

R['run_once'] = [(P, 'SitePercolation', 'run_once', '''
def _record(self):
    P1 = self.order_param_wrapping()
    self.order_wrapping_list.append(P1)
    self.order_largest_list.append(self.order_param_largest_clstr())
    self.entropy_list.append(self.entropy())
    self.occupation_prob_list.append(self.occupation_prob())

def run_once(self):
    """
    Single realization
    """
    while True:
        going = self.place_one_site()
        if not going:
            break
        if self.selection_flag != SelectionState.SUCESS:
            continue
        self.detect_wrapping()
        self._record()
    self.first_run = False
''')]

R['merge'] = [(P, 'SitePercolation', 'merge_clusters_v2', '''
def _root_of(self, gids):
    if self.after_wrapping and self.wrapping_cluster_id in gids:
        return self.wrapping_cluster_id
    best, best_size = gids[0], 0
    for g in gids:
        size = self.cluster_pool_ref.get_cluster_bond_count(g)
        if size >= best_size:
            best, best_size = g, size
    return best

def _join(self, root, bond):
    lat = self.lattice_ref
    lat.set_site_gid_by_id(self.selected_id, root)
    self.cluster_pool_ref.add_sites(root, self.selected_id)
    other = self.get_neighbor_site(self.current_site.get_id(), bond)
    if lat.get_site_gid_by_id(other) >= 0:
        lat.set_relative_index(self.selected_id, self.get_relative_index(other, self.selected_id))

def merge_clusters_v2(self, bond_neighbors):
    bond_neighbors = self.uniqe_gid_bond_neighbors(bond_neighbors)
    gid_of = {bb: self.lattice_ref.get_bond_by_id(bb).get_gid() for bb in bond_neighbors}
    gids = self.get_bond_gids(bond_neighbors)
    root = self._root_of(gids)
    self._join(root, next(bb for bb in bond_neighbors if gid_of[bb] == root))
    others = [bb for bb in bond_neighbors if gid_of[bb] != root]
    for bb in reversed(others):
        self.relabel_relative_indices(bb)
        self.cluster_pool_ref.merge_cluster_with(root, gid_of[bb], self.lattice_ref)
        self.cluster_pool_ref.clear_cluster(gid_of[bb])
    return root
'''), (P, 'SitePercolation', 'detect_wrapping', '''
def _mark_wrapping(self):
    self.pc_occupied_site_count = self.occupied_site_count
    gid = self.current_site.get_gid()
    self.pc_site_count_wrapping_cluster = self.cluster_pool_ref.get_cluster_site_count(gid)
    self.pc_bond_count_wrapping_cluster = self.cluster_pool_ref.get_cluster_bond_count(gid)
    self.wrapping_cluster_id = gid
    self.after_wrapping = True

def detect_wrapping(self):
    if not self.after_wrapping:
        here = self.current_site.get_relative_index()
        sites = self.lattice_ref.get_sites_for_wrapping_test(self.selected_id)
        there = [self.lattice_ref.get_site_by_id(ss).get_relative_index() for ss in sites]
        if any(abs(here.x_coord() - r.x_coord()) > 1 or abs(here.y_coord() - r.y_coord()) > 1 for r in there):
            self._mark_wrapping()
    return self.after_wrapping
'''), (P, 'SitePercolation', 'relabel_relative_indices', '''
def relabel_relative_indices(self, connecting_bond):
    lat = self.lattice_ref
    centre = self.current_site.get_id()
    neighbor = self.get_neighbor_site(centre, connecting_bond)
    members = self.cluster_pool_ref.get_sites(lat.get_bond_gid_by_id(connecting_bond))
    if not members or lat.get_site_gid_by_id(centre) < 0:
        return
    old = lat.get_site_by_id(neighbor).get_relative_index()
    change = self.get_change_in_relative_index(old, self.get_relative_index(centre, neighbor))
    if change.x_coord() == 0 and change.y_coord() == 0:
        return
    for ss in members:
        site = lat.get_site_by_id(ss)
        r = site.get_relative_index()
        site.set_relative_index(RelativeIndex(r.x_coord() + change.x_coord(), r.y_coord() + change.y_coord()))
''')]

R['lattice'] = [(LAT, 'Lattice', 'find_neighbor_bonds', '''
def find_neighbor_bonds(self, s0_index):
    row, col = divmod(s0_index, self.length)
    left = row * self.length + (col - 1) % self.length
    top = (row - 1) % self.length * self.length + col
    return [s0_index, s0_index + self.site_count, left, top + self.site_count]
'''), (LAT, 'Lattice', 'get_all_neighbor_sites', '''
def _across(self, bond_id, site_id):
    a, b = self.get_neighbor_sites(bond_id)
    return b if a == site_id else a

def get_all_neighbor_sites(self, central_site_id):
    return [self._across(bb, central_site_id) for bb in self.get_neighbor_bonds(central_site_id)]
'''), (LAT, 'Lattice', 'get_site_neighbor_of_site', '''
def get_site_neighbor_of_site(self, s0_index):
    return self.get_all_neighbor_sites(s0_index)
'''), (LAT, 'Lattice', 'get_sites_for_wrapping_test', '''
def get_sites_for_wrapping_test(self, s0_index):
    gid = self.site_matrix[s0_index].get_gid()
    return [n for n in self.get_all_neighbor_sites(s0_index) if self.get_site_gid_by_id(n) == gid]
'''), (LAT, 'Lattice', 'init_lattice', '''
def init_lattice(self):
    n = self.site_count
    for s_index in range(n):
        rr, cc = divmod(s_index, self.length)
        site, across, down = Site(rr, cc), Bond(rr, cc), Bond(rr, cc, 1)
        site.set_id(s_index)
        across.set_id(s_index)
        down.set_id(s_index + n)
        self.site_matrix[s_index], self.bond_matrix[s_index], self.bond_matrix[s_index + n] = site, across, down
'''), (LAT, 'Lattice', 'reset', '''
def reset(self):
    for element in self.bond_matrix + self.site_matrix:
        element.reset()
'''), (LAT, 'Lattice', 'calculate_id_from_index', '''
def calculate_id_from_index(self, index):
    components = index.as_list() if isinstance(index, Index) else index
    result = 0
    for c in components:
        result = result * self.length + c
    return result
''')]

R['selection'] = [(L12, 'SitePercolationL1', 'select_site', '''
def _retire(self, position):
    self.site_ids_indices[position] = self.site_ids_indices[self.current_idx]
    self.current_idx += 1

def _take(self, chosen):
    self.occupied_site_count += 1
    self.selected_id = chosen
    self.current_site = self.lattice_ref.get_site_by_id(chosen)
    self.site_id_sequence_record.append(chosen)
    return SelectionState.SUCESS

def select_site(self):
    if self.current_idx >= len(self.site_ids_indices):
        return SelectionState.EMPTY_SITE_LIST
    position = random.randrange(self.current_idx, len(self.site_ids_indices))
    chosen = self.site_ids_indices[position]
    site = self.lattice_ref.get_site_by_id(chosen)
    if not site.is_occupied():
        return self._take(chosen)
    self.x_occupied += 1
    neighbors = self.lattice_ref.get_all_neighbor_sites(chosen)
    direction = random.randrange(4)
    if not self.lattice_ref.get_site_by_id(neighbors[direction]).is_occupied():
        return self._take(neighbors[direction])
    site.reduce_1st_nn(direction)
    if site.is_removable(1):
        self._retire(position)
    return SelectionState.CURRENT_SITE_NOT_EMPTY
'''), (L12, 'SitePercolationL2', 'select_site', '''
def _beyond(self, x, y):
    X, Y = (self.lattice_ref.get_site_by_id(i).get_index() for i in (x, y))
    L = self.lattice_ref.length
    return (2 * Y.row() - X.row()) % L * L + (2 * Y.column() - X.column()) % L

def select_site(self):
    lat = self.lattice_ref
    last = len(self.site_ids_indices) - 1
    if self.current_idx > last:
        return SelectionState.EMPTY_SITE_LIST
    position = random.randint(self.current_idx, last)
    x = z = self.site_ids_indices[position]
    site = lat.get_site_by_id(x)
    if site.is_occupied():
        direction = random.choice(range(4))
        y = z = lat.get_all_neighbor_sites(x)[direction]
        self.x_occupied += 1
        if lat.get_site_by_id(y).is_occupied():
            site.reduce_1st_nn(direction)
            z = self._beyond(x, y)
            if lat.get_site_by_id(z).is_occupied():
                self.y_occupied += 1
                site.reduce_2st_directional_nn(direction)
                if site.is_removable(2):
                    ids = self.site_ids_indices
                    ids[position], ids[self.current_idx] = ids[self.current_idx], ids[position]
                    self.current_idx += 1
                return SelectionState.CURRENT_SITE_NOT_EMPTY
    self.selected_id = z
    self.site_id_sequence_record = self.site_id_sequence_record + [z]
    self.current_site = lat.get_site_by_id(z)
    self.occupied_site_count += 1
    return SelectionState.SUCESS
'''), (SITE, 'Site', 'reduce_1st_nn', '''
def reduce_1st_nn(self, direction):
    bit = 1 << direction
    if not self.exhausted_1st_nn & bit:
        self.exhausted_1st_nn |= bit
        self.first_nn_count = 4 - bin(self.exhausted_1st_nn).count('1')
''')]

R['clusters'] = [(CL, 'ClusterPool', 'merge_cluster_with', '''
def merge_cluster_with(self, cluster_A_id, cluster_B_id, lattice_ref):
    into, other = self.cluster_list[cluster_A_id], self.cluster_list[cluster_B_id]
    gid = into.get_gid()
    for ss in other.get_sites():
        lattice_ref.set_site_gid_by_id(ss, gid)
    for bb in other.get_bonds():
        lattice_ref.set_bond_gid_by_id(bb, gid)
    into.site_ids.extend(other.site_ids)
    into.bond_ids.extend(other.bond_ids)
'''), (CL, 'ClusterPool', 'create_new_cluster', '''
def create_new_cluster(self, site_ids=(), bond_ids=(), lattice_ref=None):
    fresh = OneCluster()
    fresh.set_id(self.cluster_id)
    fresh.set_gid(self.cluster_id)
    fresh.add_sites(list(site_ids))
    fresh.add_bonds(list(bond_ids))
    for bb in bond_ids:
        lattice_ref.set_bond_gid_by_id(bb, self.cluster_id)
    for ss in site_ids:
        lattice_ref.set_site_gid_by_id(ss, self.cluster_id)
    self.cluster_list.append(fresh)
    self.cluster_id = len(self.cluster_list)
'''), (CL, 'OneCluster', 'add_sites', '''
def add_sites(self, site_ids):
    if isinstance(site_ids, list):
        self.site_ids.extend(site_ids)
    else:
        self.site_ids.append(site_ids)
'''), (CL, 'OneCluster', 'view', '''
def view(self):
    if self.is_empty():
        return 0
    print("cluster [", self.id, "] (gid ", self.gid, ") :{")
    for label, ids in (("sites", self.site_ids), ("bonds", self.bond_ids)):
        print("  {} ({}) ".format(label, len(ids)), ids)
    print("}")
    return 1
''')]

R['reset'] = [(P, 'SitePercolation', 'reset', '''
def reset(self):
    super(SitePercolation, self).reset()
    self.shuffle()
    self._start()
    self.init_clusters()

def _start(self):
    self.order_largest_list, self.order_wrapping_list = [], []
    self.entropy_list, self.occupation_prob_list = [], []
    self.selection_flag = None
    self.occupied_site_count = self.current_idx = self.pc_occupied_site_count = self.largest_cluster_sz = 0
    self.wrapping_cluster_id = self.largest_cluster_id = -1
    self.after_wrapping = False
    self.entropy_value = math.log(2 * self.lattice_ref.site_count)
'''), (P, 'SitePercolation', 'get_data_array', '''
def get_data_array(self):
    columns = (self.get_occupation_prob_array(), self.get_entropy_array(), self.get_order_param_largest_array(),
               self.get_order_param_wrapping_array())
    return np.array(columns, dtype=float).T.copy()
'''), (P, 'SitePercolation', 'set_custome_site_id_list', '''
def _use_list(self, ids, do_shuffle):
    self.site_ids_indices = ids
    self.mode_custome_site_id = True
    self.do_shuffle = do_shuffle
    self.max_iteration_limit = len(ids)
    self.shuffle()

def set_custome_site_id_list(self, site_id_list, do_shuffle=False):
    ids = [i for i in site_id_list]
    if any(i < 0 or i >= self.lattice_ref.site_count for i in ids) or not ids:
        if not ids:
            max(ids)
        print("Invalid site id list")
        return
    self._use_list(ids, do_shuffle)
'''), (P, 'SitePercolation', 'place_one_site', '''
def place_one_site(self):
    flag = self.select_site()
    self.selection_flag = flag
    if flag == SelectionState.EMPTY_SITE_LIST:
        return False
    if flag == SelectionState.SUCESS:
        bonds = self.current_site.connecting_bonds()
        self.lattice_ref.init_relative_index(self.selected_id)
        self.entropy_subtract(bonds)
        gid = self.merge_clusters_v2(bonds)
        self.entropy_add(gid)
        self.track_largest_cluster(gid)
    return True
''')]

R['ensemble'] = [(ENS, None, 'write_entropy_order', '''
def _write(kind, columns, desc, current_time, data, ensembleSize, length, now, signature, thread_count):
    name = "{}_{}_L{}_{}".format(signature, kind, length, current_time)
    if thread_count is not None:
        name += "_th{}".format(thread_count)
    head = {'length': length, 'L': length, 'ensemble_size': ensembleSize, 'En': ensembleSize,
            'date': now.strftime("%Y.%m.%d"), 'time': now.strftime("%H:%M:%S"), 'columns': columns, 'desc': desc}
    with open(unused_filename(os.path.join("./data", name + ".txt")), 'w') as f:
        f.write("# " + json.dumps(head) + "\\n")
        for row in np.asarray(data):
            f.write(" ".join("%.10e" % x for x in row) + "\\n")


def write_entropy_order(current_time, data, ensembleSize, length, now, signature, thread_count=None):
    _write("entropy_order", ["p", "H", "P1", "P2"],
           ["p=occupation probability", "H=entropy",
            "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"],
           current_time, data, ensembleSize, length, now, signature, thread_count)
'''), (ENS, None, 'write_critical_values', '''
def write_critical_values(current_time, data, ensembleSize, length, now, signature, thread_count=None):
    _write("critical_values", ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"],
           ["pc=critical ocupation probability"], current_time, data, ensembleSize, length, now, signature, thread_count)
'''), (ENS, None, 'run_ensemble_entropy_order_threads_v2', '''
def run_ensemble_entropy_order_threads_v2(percolationClass, length, ensembleSize, thread_count=0, seed=None):
    options = {} if seed is None else {'seed': seed}
    percolation = percolationClass(length=length, **options)
    total = 0.
    critical_data = list()
    for en in range(ensembleSize):
        percolation.reset()
        percolation.run_once()
        total = total + percolation.get_data_array()
        critical_data.append((percolation.get_pc(), percolation.get_site_count_wrapping_cluster_pc(),
                              percolation.get_bond_count_wrapping_cluster_pc()))
        logging.info("Iteration {:4} | thread {:2} ".format(en + 1, thread_count))
    now = datetime.now()
    stamp = now.strftime("%Y%m%d_%H%M%S")
    signature = percolation.get_signature()
    write_entropy_order(stamp, total / ensembleSize, ensembleSize, length, now, signature, thread_count)
    write_critical_values(stamp, critical_data, ensembleSize, length, now, signature, thread_count)
'''), (RUN, None, 'run_simulation_threads_v4', '''
def _shares(total, workers):
    base, extra = divmod(total, workers)
    return [n for n in (base + (i < extra) for i in range(workers)) if n]


def _run_workers(target, jobs):
    workers = [multiprocessing.Process(target=target, args=job) for job in jobs]
    for w in workers:
        w.start()
    for w in workers:
        w.join()
    failed = [i for i, w in enumerate(workers) if w.exitcode]
    if failed:
        raise RuntimeError("results of the workers {} are lost".format(failed))


def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
    from run_py import ensemble
    from source_py.simulation import percolation_sq_lattice_L0
    classes = {1: percolation_sq_lattice_L1L2.SitePercolationL1, 2: percolation_sq_lattice_L1L2.SitePercolationL2}
    cls = classes.get(interaction, percolation_sq_lattice_L0.SitePercolationL0)
    _run_workers(ensemble.run_ensemble_entropy_order_threads_v2,
                 [(cls, length, n, i) for i, n in enumerate(_shares(ensemble_count, thread))])
'''), (RUN, None, 'run_simulation_threads_v3', '''
def run_simulation_threads_v3(length, ensemble_count, thread):
    run_simulation_threads_v4(length, ensemble_count, thread, 0)
'''), (SPR, None, 'run_simulation_shortest_path_threads', '''
def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
    share, rest = divmod(ensemble_count, thread)
    workers = []
    for i in range(thread):
        count = share + 1 if i < rest else share
        if count > 0:
            workers.append(multiprocessing.Process(target=ensemble_shortest_path_v2_thread,
                                                   kwargs=dict(percolationClass=ShortestPathAfter_pc, length=length,
                                                               ensembleSize=count, thread_count=i)))
            workers[-1].start()
    failed = []
    for i, w in enumerate(workers):
        w.join()
        if w.exitcode != 0:
            failed.append(i)
    if failed:
        raise RuntimeError("workers {} failed".format(failed))
'''), (LINES, None, 'find_intersection', '''
def find_intersection(line1, line2, col=None):
    if col is not None:
        line1, line2 = line1[:, col], line2[:, col]
    signs = np.sign(line1 - line2)
    return np.abs(signs[1:] - signs[:-1]).argmax()
''')]

R['views'] = [(LAT, 'Lattice', 'get_row_str', '''
def get_row_str(self, row, format=0):
    r_string = []
    start = row * self.length
    for s_index in range(start, start + self.length):
        b = self.bond_matrix[s_index].get_str(format)
        r_string.append("{}  {}".format(self.site_matrix[s_index].get_str(format).ljust(len(b)), b))
    return r_string
'''), (SP, 'ShortestPathAfter_pc', 'scan_all_rows', '''
def _all_in_wrapping(self, ids):
    return all(self.lattice_ref.get_site_gid_by_id(i) == self.wrapping_cluster_id for i in ids)

def scan_all_rows(self):
    L = self.lattice_ref.length
    return self.wrapping_cluster_id >= 0 and any(self._all_in_wrapping(range(c, L * L, L)) for c in range(L))
'''), (SP, 'ShortestPathAfter_pc', 'scan_all_cols', '''
def scan_all_cols(self):
    L = self.lattice_ref.length
    return self.wrapping_cluster_id >= 0 and any(self._all_in_wrapping(range(r * L, r * L + L)) for r in range(L))
'''), (SP, 'ShortestPathAfter_pc', 'run_once', '''
def run_once(self):
    before = 0
    done = False
    while not done and self.place_one_site():
        if self.selection_flag != SelectionState.SUCESS or not self.detect_wrapping():
            continue
        column_flag, row_flag = self.scan_row_col_of_selected_site(self.current_site.get_index())
        now = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
        done = column_flag or row_flag
        if not done and now - before > self.lattice_ref.length:
            done = self.scan_all_cols() or self.scan_all_rows()
        before = now
        if done:
            self.shortest_path_p = self.occupation_prob()
    self.first_run = False
'''), (P, 'SitePercolation', 'get_index_sequence', '''
def get_index_sequence(self):
    return [self.lattice_ref.get_site_by_id(i).get_index().as_list() for i in self.site_ids_indices]
''')]

R['lazy caches'] = [(LAT, 'Lattice', 'get_all_neighbor_sites', '''
def get_all_neighbor_sites(self, central_site_id):
    known = self.__dict__.setdefault('_known_neighbors', {})
    if central_site_id not in known:
        four = []
        for bid in self.get_neighbor_bonds(central_site_id):
            a, b = self.get_neighbor_sites(bid)
            four.append(b if a == central_site_id else a)
        known[central_site_id] = tuple(four)
    return list(known[central_site_id])
'''), (P, 'SitePercolation', 'get_connected_sites', '''
def get_connected_sites(self, site, bond_neighbors):
    return [self.get_neighbor_site(site.get_id(), bb) for bb in bond_neighbors]
'''), (P, 'SitePercolation', 'track_largest_cluster', '''
def track_largest_cluster(self, new_cluster):
    new_size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)
    if new_size <= self.largest_cluster_sz:
        return
    self.largest_cluster_sz = new_size
    self.largest_cluster_id = new_cluster
'''), (P, 'SitePercolation', 'uniqe_gid_bond_neighbors', '''
def uniqe_gid_bond_neighbors(self, bond_neighbors):
    first = {}
    for bb in bond_neighbors:
        first.setdefault(self.lattice_ref.get_bond_by_id(bb).get_gid(), bb)
    return list(first.values())
''')]


R['attempt helper'] = [(P, 'SitePercolation', 'place_one_site', '''
def place_one_site(self):
    return self._attempt()

def _attempt(self):
    self.selection_flag = self.select_site()
    if self.selection_flag == SelectionState.EMPTY_SITE_LIST:
        return False
    if self.selection_flag == SelectionState.SUCESS:
        self._occupy(self.selected_id)
    return True

def _occupy(self, site_id):
    self.lattice_ref.init_relative_index(site_id)
    bonds = self.current_site.connecting_bonds()
    self.entropy_subtract(bonds)
    gid = self.merge_clusters_v2(bonds)
    self.track_largest_cluster(gid)
    self.entropy_add(gid)
'''), (P, 'SitePercolation', 'run_once', '''
def run_once(self):
    while self._attempt():
        if self.selection_flag != SelectionState.SUCESS:
            continue
        self.detect_wrapping()
        self.occupation_prob_list.append(self.occupation_prob())
        self.entropy_list.append(self.entropy())
        self.order_wrapping_list.append(self.order_param_wrapping())
        self.order_largest_list.append(self.order_param_largest_clstr())
    self.first_run = False
'''), (SP, 'ShortestPathAfter_pc', 'run_once', '''
def run_once(self):
    before = 0
    while self._attempt():
        if self.selection_flag != SelectionState.SUCESS or not self.detect_wrapping():
            continue
        column, row = self.scan_row_col_of_selected_site(self.current_site.get_index())
        now = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
        if now - before > self.lattice_ref.length:
            column = column or self.scan_all_cols()
            row = row or self.scan_all_rows()
        before = now
        if column or row:
            self.shortest_path_p = self.occupation_prob()
            break
    self.first_run = False
''')]

R['index'] = [(IDX, 'Index', '__sub__', '''
def __sub__(self, other):
    a, b = self.as_list()
    return Index(a - other.row(), b - other.column())
'''), (IDX, 'Index', '__add__', '''
def __add__(self, other):
    a, b = self.as_list()
    return Index(a + other.row(), b + other.column())
'''), (P, 'Percolation', 'wrapping_correction_relative_index', '''
def wrapping_correction_relative_index(self, delta_X):
    def unit(d):
        if d > 1:
            return -1
        return 1 if d < -1 else d
    return RelativeIndex(unit(delta_X.x_coord()), unit(delta_X.y_coord()))
'''), (P, 'Percolation', 'get_relative_index', '''
def get_relative_index(self, central_site_id, neighbor_site_id):
    a = self.lattice_ref.get_site_by_id(central_site_id)
    b = self.lattice_ref.get_site_by_id(neighbor_site_id)
    step = RelativeIndex(b.get_index().row() - a.get_index().row(), b.get_index().column() - a.get_index().column())
    step = self.wrapping_correction_relative_index(step)
    at = a.get_relative_index()
    return RelativeIndex(at.x_coord() + step.x_coord(), at.y_coord() + step.y_coord())
'''), (LAT, 'Lattice', 'scan_sites', '''
def scan_sites(self):
    for ss in self.site_matrix:
        assert ss.get_id() == self.calculate_id_from_index(ss.get_index())
        assert len(ss.connecting_bonds()) == 4
        assert all(ss.get_id() in self.bond_matrix[bb].connected_sites() for bb in ss.connecting_bonds())
'''), (LAT, 'Lattice', 'test_neighbor_count', '''
def test_neighbor_count(self):
    assert all(len(set(ss.connecting_bonds())) == 4 for ss in self.site_matrix)
    for bb in self.bond_matrix:
        assert len(bb.connected_sites()) == 2
'''), (LAT, 'Lattice', 'list_all_bonds', '''
def list_all_bonds(self):
    print("id, gid, index, connecting_site_ids")
    for bb in self.bond_matrix:
        print(*[x() for x in (bb.get_id, bb.get_gid, bb.get_index, bb.connected_sites)], sep="   ")
'''), (P, 'SitePercolation', 'merge_clusters_v2', '''
def merge_clusters_v2(self, bond_neighbors):
    lattice, pool = self.lattice_ref, self.cluster_pool_ref
    bond_neighbors = self.uniqe_gid_bond_neighbors(bond_neighbors)
    gids = self.get_bond_gids(bond_neighbors)
    if self.after_wrapping and self.wrapping_cluster_id in gids:
        root = self.wrapping_cluster_id
    else:
        root = gids[0]
        for g in gids[1:]:
            if pool.get_cluster_bond_count(g) >= pool.get_cluster_bond_count(root):
                root = g
    mine = [bb for bb in bond_neighbors if lattice.get_bond_gid_by_id(bb) == root]
    lattice.set_site_gid_by_id(self.selected_id, root)
    pool.add_sites(root, self.selected_id)
    other = self.get_neighbor_site(self.selected_id, mine[0])
    if lattice.get_site_by_id(other).is_occupied():
        lattice.set_relative_index(self.selected_id, self.get_relative_index(other, self.selected_id))
    for bb in bond_neighbors:
        if bb in mine:
            continue
        gid = lattice.get_bond_gid_by_id(bb)
        self.relabel_relative_indices(bb)
        pool.merge_cluster_with(root, gid, lattice)
        pool.clear_cluster(gid)
    return root
''')]


R['drivers'] = [(RUN, None, 'run_simulation_threads_v3', '''
def _shares(total, workers):
    return [s for s in (total // workers + (1 if i < total % workers else 0) for i in range(workers)) if s]


def _in_processes(target, jobs):
    processes = [multiprocessing.Process(target=target, args=a) for a in jobs]
    for p in processes:
        p.start()
    for p in processes:
        p.join()
    failed = [i for i, p in enumerate(processes) if p.exitcode]
    if failed:
        raise RuntimeError("results of the workers {} are lost".format(failed))


def run_simulation_threads_v3(length, ensemble_count, thread):
    run_simulation_threads_v4(length, ensemble_count, thread)
'''), (RUN, None, 'run_simulation_threads_v4', '''
def run_simulation_threads_v4(length, ensemble_count, thread, interaction=0):
    from run_py import ensemble
    from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
    models = {1: percolation_sq_lattice_L1L2.SitePercolationL1, 2: percolation_sq_lattice_L1L2.SitePercolationL2}
    cls = models.get(interaction, SitePercolationL0)
    _in_processes(ensemble.run_ensemble_entropy_order_threads_v2,
                  [(cls, length, n, i) for i, n in enumerate(_shares(ensemble_count, thread))])

'''), (SPR, None, 'run_simulation_shortest_path_threads', '''
def _start(i, share, length):
    p = multiprocessing.Process(target=ensemble_shortest_path_v2_thread, args=(ShortestPathAfter_pc, length, share, i))
    p.start()
    return p


def run_simulation_shortest_path_threads(length, ensemble_count, thread=2):
    every, rest = divmod(ensemble_count, thread)
    workers = []
    for i in range(thread):
        share = every + (i < rest)
        if share > 0:
            workers.append(_start(i, share, length))
    for p in workers:
        p.join()
    failed = [i for i, p in enumerate(workers) if p.exitcode != 0]
    if len(failed) > 0:
        raise RuntimeError("lost: {}".format(failed))
'''), (RUN, None, 'single_realization', '''
def single_realization(percolationClass, length):
    percolation = percolationClass(length=length)
    percolation.reset()
    percolation.run_once()
    now = datetime.now()
    stamp = now.strftime("%Y%m%d_%H%M%S")
    print("current_time ", stamp)
    get = percolation
    head = {
        'length': length, 'L': length,
        'site_id_sequence': get.get_site_id_sequence(),
        'site_index_sequence': get.get_index_sequence(),
        'pc': get.get_pc(),
        'site_count_wrapping_cluster_pc': get.get_site_count_wrapping_cluster_pc(),
        'bond_count_wrapping_cluster_pc': get.get_bond_count_wrapping_cluster_pc(),
        'entropy_list': list(get.get_entropy_array()),
        'order_largest_list': list(get.get_order_param_largest_array()),
        'order_wrapping_list': list(get.get_order_param_wrapping_array()),
        'date': now.strftime("%Y.%m.%d"), 'time': now.strftime("%H:%M:%S"),
        'columns': ["p", "H", "P1", "P2"],
        'desc': ["p=occupation probability", "H=entropy",
                 "P1=order parameter by largest cluster", "P2=order parameter by wrapping cluster"],
    }
    name = unused_filename("./data/{}_percolation_cross_check_data_L{}_{}.txt".format(get.get_signature(), length, stamp))
    with open(name, 'w') as f:
        json.dump(head, f)

''')]

R['shortest'] = [(SP, 'ShortestPathAfter_pc', 'run_once', '''
def _has_path(self, sites_before):
    column, row = self.scan_row_col_of_selected_site(self.current_site.get_index())
    if column or row:
        return True
    n = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
    return n - sites_before > self.lattice_ref.length and (self.scan_all_cols() or self.scan_all_rows())

def run_once(self):
    sites = 0
    while self.place_one_site():
        if self.selection_flag != SelectionState.SUCESS or not self.detect_wrapping():
            continue
        found = self._has_path(sites)
        sites = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
        if found:
            self.shortest_path_p = self.occupation_prob()
            break
    self.first_run = False
'''), (SP, 'ShortestPathAfter_pc', 'scan_all_rows', '''
def _all_of(self, ids):
    w = self.wrapping_cluster_id
    return all(self.lattice_ref.get_site_gid_by_id(i) == w for i in ids)

def scan_all_rows(self):
    lat = self.lattice_ref
    if self.wrapping_cluster_id < 0:
        return False
    return any(self._all_of([lat.get_id_from_index(r, c) for r in range(lat.length)]) for c in range(lat.length))
'''), (SP, 'ShortestPathAfter_pc', 'scan_all_cols', '''
def scan_all_cols(self):
    lat = self.lattice_ref
    if self.wrapping_cluster_id < 0:
        return False
    return any(self._all_of([lat.get_id_from_index(r, c) for c in range(lat.length)]) for r in range(lat.length))
'''), (SP, 'ShortestPathAfter_pc', 'scan_row_col_of_selected_site', '''
def scan_row_col_of_selected_site(self, index):
    lat = self.lattice_ref
    r, c = index.as_list()
    n = range(lat.length)
    return self._all_of([lat.get_id_from_index(r, k) for k in n]), self._all_of([lat.get_id_from_index(k, c) for k in n])
''')]

R['elements'] = [(SITE, 'Site', 'reduce_1st_nn', '''
def reduce_1st_nn(self, direction):
    bit = 1 << direction
    if not self.exhausted_1st_nn & bit:
        self.exhausted_1st_nn |= bit
        self.first_nn_count = max(0, self.first_nn_count - 1)
'''), (SITE, 'Site', 'reduce_2st_directional_nn', '''
def reduce_2st_directional_nn(self, direction):
    bit = 1 << direction
    if not self.exhausted_2nd_directional_nn & bit:
        self.exhausted_2nd_directional_nn |= bit
        self.second_directional_nn_count = max(0, self.second_directional_nn_count - 1)
'''), (SITE, 'Site', 'is_removable', '''
def is_removable(self, type=0):
    counts = {1: self.first_nn_count, 2: self.second_directional_nn_count}
    return counts.get(type) == 0
'''), (SITE, 'Site', 'is_occupied', '''
def is_occupied(self):
    return not self.get_gid() < 0
'''), (SITE, 'Site', 'add_connecting_bond', '''
def add_connecting_bond(self, bond_id):
    if len(self.connecting_bond_ids) >= 4:
        print("A site connects only four bonds")
    elif type(bond_id) is not list:
        self.connecting_bond_ids.append(bond_id)
    elif len(bond_id) == 4:
        self.connecting_bond_ids.extend(bond_id)
'''), (SITE, 'Site', 'connecting_bonds', '''
def connecting_bonds(self):
    return list(self.connecting_bond_ids)
'''), (BOND, 'Bond', 'connected_sites', '''
def connected_sites(self):
    return list(self.connected_site_ids)
'''), (SITE, 'Site', 'is_root', '''
def is_root(self):
    return not (self.relative_index.row() or self.relative_index.column())
''')]

R['writing'] = [(ENS, None, 'unused_filename', '''
def unused_filename(filename):
    base, extension = os.path.splitext(filename)
    for i in range(10 ** 9):
        name = filename if i == 0 else "{}_{}{}".format(base, i, extension)
        try:
            with open(name, 'x'):
                pass
            return name
        except FileExistsError:
            continue
'''), (ENS, None, 'write_critical_values', '''
def _header(length, size, now, columns, desc):
    return json.dumps({'length': length, 'L': length, 'ensemble_size': size, 'En': size,
                       'date': now.strftime("%Y.%m.%d"), 'time': now.strftime("%H:%M:%S"),
                       'columns': columns, 'desc': desc})


def write_critical_values(current_time, data, ensembleSize, length, now, signature, thread_count=None):
    th = "" if thread_count is None else "_th{}".format(thread_count)
    name = unused_filename("./data/{}_critical_values_L{}_{}{}.txt".format(signature, length, current_time, th))
    head = _header(length, ensembleSize, now, ["pc", "wrapping cluster site count at pc", "wrapping cluster bond count at pc"],
                   ["pc=critical ocupation probability"])
    with open(name, 'w') as f:
        f.write('# ' + head + '\\n')
        for row in data:
            f.write(' '.join('%.10e' % x for x in row) + '\\n')
'''), (ENS, None, 'run_ensemble_entropy_order_threads_v2', '''
def _one(percolation):
    percolation.reset()
    percolation.run_once()
    return (percolation.get_data_array(),
            [percolation.get_pc(), percolation.get_site_count_wrapping_cluster_pc(),
             percolation.get_bond_count_wrapping_cluster_pc()])


def run_ensemble_entropy_order_threads_v2(percolationClass, length, ensembleSize, thread_count=0, seed=None):
    percolation = percolationClass(length=length)
    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
    total, critical = 0, []
    for en in range(1, ensembleSize + 1):
        start_t = time.time()
        array, values = _one(percolation)
        total = total + array
        critical.append(values)
        logging.info("Iteration {:4} | Time elapsed {:.5f} sec | thread {:2} ".format(
            en * (thread_count + 1), time.time() - start_t, thread_count))
    now = datetime.now()
    stamp = now.strftime("%Y%m%d_%H%M%S")
    logging.info("current_time " + stamp)
    common = (ensembleSize, length, now, percolation.get_signature())
    write_entropy_order(stamp, total / ensembleSize, *common, thread_count=thread_count)
    write_critical_values(stamp, critical, *common, thread_count=thread_count)

''')]

R['lines'] = [(LINES, None, 'draw_vertical_line_at', '''
def draw_vertical_line_at(xval, yrange=(0, 1), size=100):
    yy = np.linspace(*yrange[:2], num=size)
    return np.full(size, float(xval)), yy
'''), (LINES, None, 'find_intersection', '''
def _difference(line1, line2, col):
    if col is not None:
        line1, line2 = line1[:, col], line2[:, col]
    return line1 - line2


def find_intersection(line1, line2, col=None):
    s = np.sign(_difference(line1, line2, col))
    return np.argmax(abs(s[1:] - s[:-1]))
'''), (LINES, None, 'find_intersection_and_plot', '''
def find_intersection_and_plot(line1, line2, col=None, ax=None):
    s = np.sign(_difference(line1, line2, col))
    ii = np.arange(len(s))
    jumps = s[1:] - s[:-1]
    ax.plot(ii, s)
    ax.plot(ii[1:], jumps)
    return np.argmax(abs(jumps))
''')]

R['pool'] = [(CL, 'OneCluster', 'clear', '''
def clear(self):
    self.__init__()
'''), (CL, 'ClusterPool', 'create_new_cluster', '''
def create_new_cluster(self, site_ids=[], bond_ids=[], lattice_ref=None):
    gid = self.cluster_id
    c = OneCluster()
    c.set_gid(gid)
    c.set_id(gid)
    for b in bond_ids:
        lattice_ref.set_bond_gid_by_id(b, gid)
        c.add_bonds(b)
    for s in site_ids:
        lattice_ref.set_site_gid_by_id(s, gid)
        c.add_sites(s)
    self.cluster_list.append(c)
    self.cluster_id = len(self.cluster_list)
'''), (CL, 'OneCluster', 'add_sites', '''
def add_sites(self, site_ids):
    self.site_ids.extend(site_ids if type(site_ids) is list else [site_ids])
'''), (CL, 'OneCluster', 'get_sites', '''
def get_sites(self):
    return list(self.site_ids)
'''), (CL, 'OneCluster', 'get_bonds', '''
def get_bonds(self):
    return list(self.bond_ids)
'''), (P, 'SitePercolation', 'init_clusters', '''
def init_clusters(self):
    pool = self.cluster_pool_ref
    pool.reset()
    for bb in range(self.lattice_ref.bond_count):
        pool.create_new_cluster([], [bb], self.lattice_ref)
'''), (P, 'SitePercolation', 'get_pc', '''
def get_pc(self):
    if not self.after_wrapping:
        print("no wrapping yet")
        return 0
    return self.pc_occupied_site_count / self.lattice_ref.site_count
'''), (P, 'SitePercolation', 'get_data_array', '''
def get_data_array(self):
    return np.array([self.get_occupation_prob_array(), self.get_entropy_array(), self.get_order_param_largest_array(),
                     self.get_order_param_wrapping_array()], dtype=float).T.copy()
'''), (P, 'SitePercolation', 'get_neighbor_site', '''
def get_neighbor_site(self, central_id, connecting_bond_id):
    a, b = self.lattice_ref.get_neighbor_sites(connecting_bond_id)
    return b if a == central_id else a
'''), (P, 'SitePercolation', 'get_connected_sites', '''
def get_connected_sites(self, site, bond_neighbors):
    me = site.get_id()
    return [self.get_neighbor_site(me, bb) for bb in bond_neighbors]
''')]

R['own run'] = [(P, 'SitePercolation', 'place_one_site', '''
def _one(self):
    self.selection_flag = self.select_site()
    if self.selection_flag == SelectionState.SUCESS:
        self.lattice_ref.init_relative_index(self.selected_id)
        bonds = self.current_site.connecting_bonds()
        self.entropy_subtract(bonds)
        gid = self.merge_clusters_v2(bonds)
        self.track_largest_cluster(gid)
        self.entropy_add(gid)
    return self.selection_flag

def place_one_site(self):
    return self._one() != SelectionState.EMPTY_SITE_LIST
'''), (P, 'SitePercolation', 'detect_wrapping', '''
def _winds(self):
    at = self.current_site.get_relative_index()
    for ss in self.lattice_ref.get_sites_for_wrapping_test(self.selected_id):
        other = self.lattice_ref.get_site_by_id(ss).get_relative_index()
        if max(abs(at.x_coord() - other.x_coord()), abs(at.y_coord() - other.y_coord())) > 1:
            return True
    return False

def _note_wrapping(self):
    pool = self.cluster_pool_ref
    self.after_wrapping = True
    self.wrapping_cluster_id = self.current_site.get_gid()
    self.pc_occupied_site_count = self.occupied_site_count
    self.pc_bond_count_wrapping_cluster = pool.get_cluster_bond_count(self.wrapping_cluster_id)
    self.pc_site_count_wrapping_cluster = pool.get_cluster_site_count(self.wrapping_cluster_id)

def detect_wrapping(self):
    if not self.after_wrapping and self._winds():
        self._note_wrapping()
    return self.after_wrapping
'''), (P, 'SitePercolation', 'run_once', '''
def run_once(self):
    rows = []
    while True:
        state = self._one()
        if state == SelectionState.EMPTY_SITE_LIST:
            break
        if state == SelectionState.SUCESS:
            if not self.after_wrapping and self._winds():
                self._note_wrapping()
            rows.append((self.occupation_prob(), self.entropy(), self.order_param_wrapping(), self.order_param_largest_clstr()))
    for p, h, w, l in rows:
        self.occupation_prob_list.append(p)
        self.entropy_list.append(h)
        self.order_wrapping_list.append(w)
        self.order_largest_list.append(l)
    self.first_run = False
'''), (SP, 'ShortestPathAfter_pc', 'run_once', '''
def run_once(self):
    before = 0
    state = self._one()
    while state != SelectionState.EMPTY_SITE_LIST:
        if state == SelectionState.SUCESS:
            if not self.after_wrapping and self._winds():
                self._note_wrapping()
            if self.after_wrapping:
                found = any(self.scan_row_col_of_selected_site(self.current_site.get_index()))
                now = self.cluster_pool_ref.get_cluster_site_count(self.wrapping_cluster_id)
                if not found and now - before > self.lattice_ref.length:
                    found = self.scan_all_cols() or self.scan_all_rows()
                before = now
                if found:
                    self.shortest_path_p = self.occupation_prob()
                    break
        state = self._one()
    self.first_run = False
''')]

R['wrap once'] = [(P, 'SitePercolation', 'run_once', '''
def run_once(self):
    going = self._attempt()
    while going:
        if self.selection_flag == SelectionState.SUCESS:
            if not self.after_wrapping:
                self.detect_wrapping()
            self.occupation_prob_list.append(self.occupation_prob())
            self.entropy_list.append(self.entropy())
            self.order_wrapping_list.append(self.order_param_wrapping())
            self.order_largest_list.append(self.order_param_largest_clstr())
        going = self._attempt()
    self.first_run = False
'''), R['attempt helper'][0]]

R['main'] = [('main.py', None, 'print_duration', '''
def _parts(seconds):
    whole = int(seconds)
    hours, rest = divmod(whole, 3600)
    minutes = rest // 60
    return hours, minutes, seconds - 3600 * hours - 60 * minutes


def print_duration(total_time_spent):
    print("Total time elapsed {}h {}m {:.4f}s".format(*_parts(total_time_spent)))
'''), ('main.py', None, 'init_logging', '''
def init_logging():
    stamp = "{:%Y%m%d_%H%M%S}".format(datetime.now())
    logging.basicConfig(filename="./logs/run_simulation_threads_v4-log-{}.txt".format(stamp), level=logging.DEBUG)


def _report(spent):
    if spent >= 10:
        print_duration(spent)
    else:
        logging.info("Total time elapsed {:2.6f} sec".format(spent))
'''), ('main.py', 'TEXT', '''    time_a = time.time()
''', '''    time_a = time.perf_counter()
'''), ('main.py', 'TEXT', '''    total_time_spent = time.time() - time_a
    if total_time_spent < 10:
        log_str = "Total time elapsed {:2.6f} sec".format(total_time_spent)
        # print(log_str)
        logging.info(log_str)
        pass
    else:
        print_duration(total_time_spent)
''', '''    _report(time.perf_counter() - time_a)
'''), ('main.py', 'TEXT', '''from run_py.shortest_path_run import *
''', '''import time
from datetime import datetime
from run_py.shortest_path_run import run_shortest_path, run_simulation_shortest_path_threads
''')]

R['one driver'] = [(RUN, None, 'run_simulation_threads_v3', '''
def run_simulation_threads_v3(length, ensemble_count, thread):
    return run_simulation_threads_v4(length, ensemble_count, thread, interaction=0)
'''), (ENS, None, 'write_entropy_order', '''
def _save(kind, columns, desc, data, size, length, now, stamp, signature, thread_count):
    name = "{}_{}_L{}_{}".format(signature, kind, length, stamp)
    if thread_count is not None:
        name += "_th{}".format(thread_count)
    head = dict(length=length, L=length, ensemble_size=size, En=size, date=now.strftime("%Y.%m.%d"),
                time=now.strftime("%H:%M:%S"), columns=columns, desc=desc)
    np.savetxt(unused_filename("./data/" + name + ".txt"), data, fmt="%.10e", header=json.dumps(head))


def write_entropy_order(current_time, data, ensembleSize, length, now, signature, thread_count=None):
    _save("entropy_order", ["p", "H", "P1", "P2"],
          ["p=occupation probability", "H=entropy", "P1=order parameter by largest cluster",
           "P2=order parameter by wrapping cluster"], data, ensembleSize, length, now, current_time, signature, thread_count)
'''), (ENS, None, 'run_ensemble_entropy_order_threads', '''
def _realizations(percolation, n):
    for en in range(1, n + 1):
        start_t = time.time()
        percolation.reset()
        percolation.run_once()
        yield en, percolation.get_data_array(), time.time() - start_t


def run_ensemble_entropy_order_threads(percolationClass, length, ensembleSize, thread_count=0):
    percolation = percolationClass(length=length)
    data = None
    for en, table, spent in _realizations(percolation, ensembleSize):
        data = table if data is None else data + table
        print("Iteration {:4} | Time elapsed {:.5f} sec | thread {:2} ".format(en * (thread_count + 1), spent, thread_count))
    now = datetime.now()
    stamp = now.strftime("%Y%m%d_%H%M%S")
    print("current_time ", stamp)
    write_entropy_order(stamp, data / ensembleSize, ensembleSize, length, now, percolation.get_signature(),
                        thread_count=thread_count)
'''), (SPR, None, 'ensemble_shortest_path_v2_thread', '''
def _both_thresholds(percolation):
    percolation.reset()
    percolation.run_once()
    return [percolation.get_pc(), percolation.get_shortest_path_p()]


def ensemble_shortest_path_v2_thread(percolationClass, length, ensembleSize, thread_count=0, seed=None):
    percolation = percolationClass(length=length)
    if seed is not None:
        percolation = percolationClass(length=length, seed=seed)
    rows = []
    for en in range(1, ensembleSize + 1):
        start_t = time.time()
        rows.append(_both_thresholds(percolation))
        print("iteration ", en, " p*= ", rows[-1][1])
        print("Iteration {:4} | Time elapsed {:.5f} sec | thread {:2} "
              .format(en * (thread_count + 1), time.time() - start_t, thread_count))
    now = datetime.now()
    stamp = now.strftime("%Y%m%d_%H%M%S")
    print("current_time ", stamp)
    write_p_p_star(stamp, rows, ensembleSize, length, now, percolation.get_signature(), thread_count=thread_count)
''')]


R['misc'] = [(P, 'SitePercolation', 'entropy_subtract', '''
def _share_term(self, cluster_id):
    b_count = self.cluster_pool_ref.get_cluster_bond_count(cluster_id)
    if b_count == 0:
        return None
    mu = b_count / self.lattice_ref.bond_count
    return mu * math.log(mu)

def entropy_subtract(self, bond_neighbors):
    seen = {self.lattice_ref.get_bond_gid_by_id(bb) for bb in self.lattice_ref.get_neighbor_bonds(self.selected_id)}
    seen.discard(-1)
    H = 0
    for term in map(self._share_term, seen):
        if term is not None:
            H += term
    self.entropy_value += H
'''), (P, 'SitePercolation', 'entropy_v1', '''
def entropy_v1(self):
    terms = (self._share_term(i) for i in range(self.cluster_count))
    H = 0
    for term in terms:
        if term is not None:
            H += term
    return -H
'''), (P, 'SitePercolation', 'swap_ids', '''
def swap_ids(self, id1, id2):
    if id1 == id2:
        return -1
    places = self.reverse_ids_indices
    first, second = places[id1], places[id2]
    order = self.site_ids_indices
    order[first], order[second] = id2, id1
    places[id1], places[id2] = second, first
'''), (P, 'SitePercolation', 'shuffle', '''
def shuffle(self):
    if self.do_shuffle:
        random.shuffle(self.site_ids_indices)
    elif self.mode_custome_site_id:
        print("in mode_custome_site_id")
    else:
        print("Shuffling is turned off")
    self._index_order()

def _index_order(self):
    for place, site in enumerate(self.site_ids_indices):
        self.reverse_ids_indices[site] = place
'''), (P, 'Percolation', 'get_bond_gids', '''
def get_bond_gids(self, bond_ids):
    gids = set(self.lattice_ref.get_bond_by_id(bb).get_gid() for bb in bond_ids)
    return list(gids)
'''), (P, 'SitePercolation', 'order_param_wrapping', '''
def order_param_wrapping(self):
    if not self.after_wrapping:
        return 0.
    return self.cluster_pool_ref.get_cluster_bond_count(self.wrapping_cluster_id) / self.lattice_ref.bond_count
'''), (P, 'SitePercolation', 'track_largest_cluster', '''
def track_largest_cluster(self, new_cluster):
    size = self.cluster_pool_ref.get_cluster_bond_count(new_cluster)
    if size <= self.largest_cluster_sz:
        return
    self.largest_cluster_id, self.largest_cluster_sz = new_cluster, size
'''), (P, 'SitePercolation', 'get_neighbor_site', '''
def get_neighbor_site(self, central_id, connecting_bond_id):
    others = [ss for ss in self.lattice_ref.get_neighbor_sites(connecting_bond_id) if ss != central_id]
    if len(others) != 1:
        print("Number of neighbors must be exactly 1 : get_connected_sites()")
    return others[0]
''')]

def attempt(name, parallel=True):
    w = tempfile.mkdtemp(dir='/tmp', prefix='refactor-')
    out = []
    try:
        r = w + '/r'
        subprocess.check_call(['cp', '-a', '/repo', r])
        for part in name.split('+'):        # several at once
            for f, cls, fn, new in R[part]:
                put(r, f, cls, fn, new)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=r)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '.'], cwd=r + '/test_py',
                           env=env, capture_output=True, text=True)
        if t.returncode:
            out.append('TESTS FAIL ' + t.stdout[-1500:])
        man = json.load(open(V + '/MANIFEST.json'))
        for c in man['checks']:
            q = c['property']
            if os.environ.get('ONLY') and q not in os.environ['ONLY'].split():
                continue
            x = subprocess.run(['bash', '-c', c['quick_cmd']], cwd=V, env=env, capture_output=True, text=True)
            if x.returncode:
                out.append('%s rc %d %s' % (q, x.returncode, (x.stdout + x.stderr)[-600:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return out


if __name__ == '__main__':
    for n in sys.argv[1:] or R:
        print(n, attempt(n) or 'quiet', flush=True)
