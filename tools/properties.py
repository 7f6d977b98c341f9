"""The properties, as data; tools/manifest.py writes properties.jsonl and MANIFEST.json from it."""
S = 'source_py/simulation/'
BASE, LAT, CL, SITE, BOND, IDX = (S + f for f in ('percolation_sq_lattice.py', 'lattice.py', 'cluster.py', 'site.py', 'bond.py',
                                                  'index.py'))
L0, L12, SP = (S + f for f in ('percolation_sq_lattice_L0.py', 'percolation_sq_lattice_L1L2.py',
                               'percolation_sq_lattice_shortest_path.py'))
ENS, RUN, SPR, LINES = 'run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', \
    'source_py/analyze/lines.py'

TESTS = 'The tests run the built-in self checks and a few recorded realizations of sides 5 to 100 with fixed seeds. '

P = []


def p(id, title, statement, over, text, cant, files, mech, technique, note, state=(), at=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, cant=cant, files=files, mech=mech,
                  technique=technique, note=note, state=state, at=at))


ONLINE = 'runtime monitor of every step of the real classes against an independent online model'

p('C01', 'The lattice is the periodic square lattice',
  'For every side L of at least 3 the lattice has L^2 sites and 2 L^2 bonds; every site touches exactly its four bonds and has as '
  'neighbors exactly the four sites up, down, left and right of it modulo L, and every bond joins exactly two neighboring sites. '
  'All neighbor queries (bonds of a site, sites of a bond, neighbors, right and lower neighbors, bond in a direction, site across a '
  'bond) agree with this and with each other, before and after any use of the lattice. A site never takes more than four bonds and a bond '
  'never more than two sites.',
  ['inputs', 'histories'], 'all sides >= 3, all sites and bonds, after any history of placements, resets and queries',
  'test_lattice.py checks counts on few sides and neighbors only by printing; a slip at one boundary on one side passes.',
  [LAT, SITE, BOND, BASE],
  [('construction of sites and bonds', LAT + ':init_lattice, scan_sites, scan_bonds'),
   ('periodic neighbor arithmetic', LAT + ':top_bond_of_site, left_bond_of_site, get_site_neighbor_of_site, '
    'get_sites_for_wrapping_test, get_all_neighbor_sites')],
  'runtime monitor: every query of live lattices compared with modular arithmetic',
  'All sides 3..N listed in the evidence visited completely, also within used simulation objects; larger sides only sampled.')

p('C02', 'Clusters are exactly the connected components',
  'After every placement two occupied sites are in the same cluster exactly if they are connected through occupied neighboring '
  'sites on the periodic lattice, and every bond of an occupied site is in the cluster of that site while all other bonds are '
  'alone. The member lists and counts of a cluster agree with this, and no site or bond is lost, doubled or in two clusters.',
  ['histories', 'inputs'], 'all orders of occupation on all sides, for all simulation classes, after resets and partial runs',
  TESTS + 'They check consistency of labels on those, not against connectivity for arbitrary orders.',
  [BASE, CL, LAT],
  [('merging of all clusters around a new site', BASE + ':place_one_site, merge_clusters_v2, uniqe_gid_bond_neighbors'),
   ('relabelling of members', CL + ':merge_cluster_with')],
  ONLINE, 'Every placement of hundreds of histories over 15 shape families checked in full against a union-find; exploration, no proof.')

p('C03', 'Relative coordinates agree with the geometry of the cluster',
  'Within every cluster that does not wrap, the difference of the relative coordinates of any two sites is their displacement '
  'along any path inside the cluster. This holds after every placement, whatever clusters were joined and whichever boundaries '
  'they cross.',
  ['histories', 'inputs'], 'all orders of occupation; joins of up to four clusters across all boundaries',
  TESTS + 'Relative coordinates are only printed or checked on single steps of fixed cases.',
  [BASE, LAT, IDX],
  [('shift of the joined cluster', BASE + ':relabel_relative_indices, get_change_in_relative_index'),
   ('periodic correction', BASE + ':get_relative_index, wrapping_correction_relative_index')],
  ONLINE, 'Coordinates of all sites of affected clusters compared with displacements accumulated by the model; exploration.')

p('C04', 'Wrapping is detected at exactly the right placement',
  'Wrapping is reported from the placement at which some cluster first contains a closed path that winds around the periodic '
  'lattice, in any direction or diagonally; not before, and without fail from then on. Loops that close without winding are '
  'never taken for wrapping.',
  ['histories', 'inputs'], 'all orders of occupation on all sides; windings in all directions and combinations',
  TESTS + 'The placement of wrapping is compared only with earlier output of the same code.',
  [BASE],
  [('wrapping test of the last site', BASE + ':detect_wrapping'), ('neighbors of one cluster', BASE + ':get_connected_sites')],
  ONLINE, 'Winding vectors of the model decide every placement; includes helical and late windings. Sides 1 and 2 are a known finding.')

p('C05', 'Critical values are those of the first wrapping, and stay',
  'The critical probability and the numbers of sites and bonds of the wrapping cluster at criticality are zero until wrapping, '
  'are set at the placement of the first wrapping to the values at that moment, and do not change until reset.',
  ['histories'], 'all orders of occupation, reading at any moment, after resets and continued runs',
  TESTS + 'Values are read only at the end of few runs.',
  [BASE], [('snapshot at first wrapping', BASE + ':run_once, detect_wrapping, get_pc, get_site_count_wrapping_cluster_pc')],
  ONLINE, 'All reads before and after wrapping compared with the model; exploration.')

p('C06', 'The wrapping order parameter is the share of the wrapping cluster',
  'The wrapping order parameter is 0 until the first wrapping and from then on the share of all bonds that belongs to the cluster '
  'containing the first wrapping cluster. It never decreases and ends at 1 on the full lattice.',
  ['histories', 'inputs'], 'all orders of occupation, also with several wrapping clusters',
  TESTS + 'Realizations with two wrapping clusters hardly occur in them.',
  [BASE], [('wrapping cluster through any of its sites', BASE + ':order_param_wrapping')],
  ONLINE, 'Every step and every recorded row compared, with orders that build two wrapping clusters; exploration.')

p('C07', 'The largest-cluster order parameter is the share of the largest cluster',
  'After every placement the largest-cluster order parameter is the number of bonds of the cluster with most bonds divided by the '
  'number of all bonds. It never decreases and ends at 1 on the full lattice.',
  ['histories', 'inputs'], 'all orders of occupation; ties, joins of up to four clusters',
  TESTS + 'Only few recorded curves are compared.',
  [BASE], [('tracking of the maximum', BASE + ':track_largest_cluster, largest_cluster, order_param_largest_clstr')],
  ONLINE, 'Every step and every recorded row compared with the maximum over the clusters of the model; exploration.')

p('C08', 'Entropy is that of the distribution of bonds over clusters',
  'After every placement the entropy is -sum of mu ln mu where mu is the share of all bonds in each cluster, up to rounding. It '
  'starts at ln(2 L^2), never increases, ends at 0 on the full lattice, and the incremental value agrees with the one computed '
  'directly, after any number of realizations.',
  ['histories', 'inputs'], 'all orders of occupation, any number of earlier realizations on the object',
  TESTS + 'Accumulated deviations over other orders or many resets are out of their reach.',
  [BASE], [('subtract old terms, add the new one', BASE + ':entropy_subtract, entropy_add, entropy'),
           ('direct sum', BASE + ':entropy_v1')],
  ONLINE, 'Absolute tolerance 1e-8 at every placement; exploration.')

p('C09', 'The recorded curves have one aligned row per placed site',
  'After a run the recorded probabilities, entropies and both order parameters have the same length, one row per site placed in '
  'the run since reset; row k belongs to the state right after that placement and its probability is the number of occupied '
  'sites divided by L^2. The data table has these columns in the documented order, and results handed out are not changed by '
  'later use of the object.',
  ['histories'], 'runs over full, partial, extended and changed lists, manual steps before runs, any number of resets',
  TESTS + 'One full run per object only.',
  [BASE], [('recording in the run loop', BASE + ':run_once'), ('assembly', BASE + ':get_data_array, get_occupation_prob_array')],
  ONLINE, 'Rows of realizations of varying length on one object compared with the model; exploration.')

p('C10', 'Every site is occupied exactly once and every run ends',
  'A placement attempt occupies one empty site or changes nothing; an occupied site stays occupied until reset, and the occupation '
  'probability is the number of occupied sites divided by L^2. A run over the whole lattice ends after all sites were occupied, '
  'and further attempts do nothing.',
  ['histories', 'inputs'], 'all classes, sides, seeds, numbers of realizations',
  TESTS + 'Termination and exactly-once hold there for the seeds tried; rejection loops depend on the random draws.',
  [BASE, L12, SITE], [('taking sites from the list', BASE + ':place_one_site, select_site'),
                      ('retiring of exhausted sites', L12 + ':select_site'), ('exhausted directions', SITE + ':is_removable')],
  ONLINE, 'Full scans of the lattice after every attempt; termination decided by a bound of attempts; exploration.')

p('C11', 'A reset object cannot be told from a new one',
  'After reset, whatever happened to the object before, everything that can be read from it equals a newly created object, and '
  'the same continuation gives the same results at every step: the same custom order, set after the reset, or for L1 and L2 the '
  'same random state (compared with a new object that was reset too).',
  ['histories'], 'all histories of runs, partial runs, steps, refused lists, queries and resets before the reset',
  'Tests reset after complete runs of one kind and look at few values.',
  [BASE, L0, L12, SP, LAT, CL, SITE, BOND],
  [('reset of all layers', BASE + ':reset; ' + LAT + ':reset; ' + CL + ':ClusterPool.reset; ' + SITE + ':reset'),
   ('reset of selection state', L12 + ':reset')],
  'differential runtime monitor: reset object against new object in lockstep',
  'Hundreds of pairs with hostile histories, complete observable state compared; exploration.')

p('C12', 'A seed determines all results',
  'An object or ensemble created with a seed gives the same results whenever the same operations follow: repeated in one process, '
  'whatever used the random generator before, and in a fresh process with any hash seed. Different seeds give different orders, '
  'and objects without seed do not repeat each other.',
  ['inputs', 'configurations', 'histories'], 'all classes, seeds of all types Python accepts, processes and hash seeds, earlier history',
  'test_simulation_*_seed repeats few seeds in one process.',
  [BASE, L0, L12, SP, ENS, SPR], [('seeding at construction', BASE + ':SitePercolation.__init__'),
                                  ('seed argument of ensembles', ENS + ':run_ensemble_entropy_order_threads_v2')],
  'runtime monitor: digests of repeated executions in disturbed and fresh processes',
  'Digests over everything readable; exploration over scripts and seeds.')

p('C13', 'Queries and views only read',
  'No query or view changes what later operations and queries give, consumes random numbers, or gives another answer when repeated.',
  ['histories'], 'every public query at every moment of any history',
  'Tests call few queries once at the end of a run.',
  [BASE, LAT, CL, L12, SP], [('getters and views', BASE + ':get_*, view*; ' + LAT + ':view*, get_*; ' + CL + ':view')],
  'differential runtime monitor: queried object against undisturbed twin',
  'Twins compared on complete observable state and random state; exploration.')

p('C14', 'Simulation objects are independent of each other',
  'Operations on one simulation object never change another one: interleaved objects of any classes and sides give what each gives '
  'alone with its own random numbers, and objects used from different threads give results consistent with their own sequences.',
  ['schedules', 'histories'], 'all interleavings of operations on several objects, thread schedules',
  'Tests use one object at a time.',
  [BASE, CL, LAT, L12, RUN], [('state held per object', BASE + ':Percolation.__init__; ' + CL + ':create_new_cluster (default arguments)')],
  'runtime monitor: interleaved and threaded executions against solo replays and the model',
  'Random interleavings and real threads with 1 us switch interval; the observed context switches are counted; exploration.')

p('C15', 'Custom site lists are followed, and refused when invalid',
  'A custom list of site ids or indices is placed in its order, or in random order of the same sites if shuffling is asked for; '
  'a list naming a site outside the lattice is refused with a message and without effect. The caller\'s list is never changed, '
  'nor do later changes to it matter, and interacting models come to an end with all listed sites occupied.',
  ['inputs', 'histories'], 'lists of any length and form, each kind of bad entry at any place, set at any moment, any class',
  'test_percolation_*.py pass a few lists on one side.',
  [BASE, L12], [('validation and copying', BASE + ':set_custome_site_id_list, set_custome_site_index_list, shuffle')],
  'runtime monitor of placements against the list, twin comparison for refusals, frequency test for shuffling',
  'Order checked at every placement; shuffles by chi-square with |z|>7; exploration.')

p('C16', 'The recorded sequence replays the realization',
  'The reported sequence of sites (ids and indices) is the order in which sites were really occupied in this realization, and '
  'setting it as custom list in a new object reproduces all curves and critical values. The same holds for realizations written '
  'to file for cross checks.',
  ['histories', 'inputs'], 'all classes, complete and partial realizations, after resets',
  'test_data_json.py replays a few stored files of L0.',
  [BASE, L12, RUN], [('sequence', BASE + ':get_site_id_sequence, get_index_sequence; ' + L12 + ':get_site_id_sequence'),
                     ('file of one realization', RUN + ':single_realization')],
  'runtime monitor: observed placements against reported sequence, replay as oracle',
  'Sequences compared at every pause, replays compared in full; exploration.')

p('C17', 'L0 occupies sites in uniformly random order',
  'In the non-interacting model every order of occupying the sites is equally probable, in every realization of an object, and '
  'independent of the realizations before it.',
  ['inputs', 'histories'], 'all sides and seeds; first and later realizations',
  'A test of single runs cannot see a bias in the distribution.',
  [BASE, L0], [('shuffle', BASE + ':shuffle, reset')],
  'runtime monitor: statistical tests on orders observed in many executions',
  'Tables judged at |z|>7 over tens of thousands of realizations; detects biases of a few per cent; exploration.')

p('C18', 'L1 selects sites by its law of interaction',
  'In the model with first-neighbor interaction the next occupied site is drawn as documented: a site is picked at random; if '
  'occupied, one of its four neighbors is picked at random and occupied if empty, else the attempt is repeated. So every empty '
  'site is next with probability proportional to 1 + (occupied neighbors)/4, at every stage of every realization.',
  ['inputs', 'histories'], 'all configurations, sides, stages and realizations',
  'A test of single runs cannot see a wrong distribution; the self tests look only at consistency.',
  [L12, SITE], [('selection', L12 + ':SitePercolationL1.select_site, get_four_neighbor_sites'),
                ('retiring of exhausted sites', SITE + ':reduce_1st_nn, is_removable')],
  'runtime monitor: martingale statistics of every observed selection against the law',
  'Dozens of features by quarter of run, side and object kind judged at |z|>7; exploration.')

p('C19', 'L2 selects sites by its law of interaction',
  'In the model with interaction to second neighbors, if a picked site is occupied one of its four neighbors is picked at random; '
  'if that is occupied too, the next site in the same direction is taken if empty, else the attempt is repeated. So every empty '
  'site is next with the probability following from this, across boundaries too, at every stage of every realization.',
  ['inputs', 'histories'], 'all configurations, sides, stages and realizations',
  'A test of single runs cannot see a wrong distribution; the self tests look only at consistency.',
  [L12, SITE], [('selection', L12 + ':SitePercolationL2.select_site, correct_index_for_periodicity'),
                ('retiring of exhausted sites', SITE + ':reduce_2st_directional_nn, is_removable')],
  'runtime monitor: martingale statistics of every observed selection against the law',
  'Dozens of features by quarter of run, side and object kind judged at |z|>7; exploration.')

p('C20', 'p* is the first complete row or column in a wrapping cluster',
  'The shortest-path simulation stops at, and reports, the occupation probability at which the wrapping cluster first contains a '
  'complete row or column of the lattice, whichever placement or merger brought it about; pc is reported as in the other models.',
  ['histories', 'inputs'], 'all orders of occupation, all sides; lines completed before wrapping, by the last site, or by merging',
  'test_percolation_sq_lattice_shortest_path.py runs three seeds without an independent value.',
  [SP], [('search of rows and columns', SP + ':run_once, scan_all_rows, scan_all_cols, scan_row_col_of_selected_site')],
  ONLINE, 'Reported value and stopping state compared with the model over constructed and random orders; exploration.')

p('C21', 'Ensemble files are the averages and critical values of the realizations',
  'The files of an ensemble hold, to the printed digits, the row-wise mean of the curves of exactly the requested number of '
  'complete, fresh and distinct realizations, and one row of critical values per realization in order. Side, number of '
  'realizations, date and time, column labels, model and worker number in file and name are right.',
  ['inputs', 'histories', 'configurations'], 'all ensemble functions, models, sides, ensemble sizes and worker numbers, repeated calls',
  'No test runs the ensemble functions.',
  [ENS, BASE], [('accumulation', ENS + ':run_ensemble_entropy_order, run_ensemble_entropy_order_threads, '
                 'run_ensemble_entropy_order_threads_v2'), ('writing', ENS + ':write_entropy_order, write_critical_values')],
  'runtime monitor: event log of realizations replayed against the written files',
  'Every file of hundreds of calls recomputed from the log; realizations themselves against the model; exploration.')

p('C22', 'Parallel drivers make exactly the requested realizations',
  'A parallel driver makes in total exactly the requested number of realizations of the requested model on the requested side, '
  'shared among the workers, each of which leaves its own complete files; the realizations of different workers are '
  'independent.',
  ['configurations', 'schedules', 'inputs'], 'all numbers of realizations and workers (divisible or not), models, start methods, schedules',
  'No test runs the drivers.',
  [RUN, ENS, 'main.py'], [('splitting', RUN + ':run_simulation_threads_v3, run_simulation_threads_v4'),
                          ('thread drivers', RUN + ':run_simulation_threads, run_simulation_threads_v2')],
  'runtime monitor: conservation check over the files of real multi-process executions',
  'All splits of a grid with real processes, fork and spawn; exploration.')

p('C23', 'Shortest-path ensembles record pc and p* of every realization',
  'The shortest-path ensembles leave one row (pc, p*) per requested realization, equal to the values of that realization, with '
  'pc <= p* <= 1 and right labels; the printed and the parallel variant give the same kind of values for exactly the requested '
  'number.',
  ['inputs', 'configurations', 'histories'], 'all sides, ensemble sizes, seeds, worker numbers and splits',
  'No test runs the ensemble functions.',
  [SPR, SP], [('accumulation and writing', SPR + ':ensemble_shortest_path_v2_thread, write_p_p_star'),
              ('splitting', SPR + ':run_simulation_shortest_path_threads')],
  'runtime monitor: event log of realizations replayed against the written files',
  'Every row recomputed by the model from the logged sequence; exploration.')

p('C24', 'Result files are never overwritten',
  'Every run leaves result files of its own with its own results: no run changes, replaces or removes a file which was there '
  'before, even when runs with the same parameters end within the same second, in one process or in several at once.',
  ['schedules', 'histories'], 'all sequences and concurrent schedules of runs in one directory',
  'No test writes result files twice.',
  [ENS, SPR, RUN], [('naming by time', ENS + ':write_entropy_order, write_critical_values, run_ensemble_entropy_order_threads; ' +
                     SPR + ':write_p_p_star; ' + RUN + ':single_realization')],
  'runtime monitor: exactly-once check of results on disk under sequential, threaded and multi-process stress',
  'Hundreds of runs within one second, names taken in advance, simultaneous processes; exploration of schedules.')

p('C25', 'A failed worker or failed write is reported',
  'If a worker process of a parallel driver fails for any reason (an exception, an exit status, a signal) or results cannot be '
  'written, the caller gets an error; returning normally means that all the requested results are on disk. The files of workers '
  'that did not fail are complete.',
  ['fault_sequences', 'crash_points'], 'failure of each worker, at each stage of its work, of each kind; unwritable directories, full disks',
  'No test injects faults or runs the drivers.',
  [RUN, SPR, ENS], [('joining of workers', RUN + ':run_simulation_threads_v3, run_simulation_threads_v4; ' + SPR +
                     ':run_simulation_shortest_path_threads'), ('writing', ENS + ':write_entropy_order')],
  'fault injection into real worker processes with a monitor of outcome and files',
  'Every worker position of splits up to 6 workers, 10 kinds of failure, 4 stages, 4 disk faults per writer; two faults sampled.')

p('C26', 'The crossing of two curves is located correctly',
  'Given two curves (or a column of two tables) the helper returns the index of the first step at which the sign of their '
  'difference changes most, so that curves which cross do so between that index and the next; the plotting variant gives the same '
  'index, the order of the curves does not matter, and the inputs are not changed. Drawn axis-parallel lines lie where asked.',
  ['inputs'], 'all pairs of curves of equal length >= 2, as vectors, views or table columns',
  'No test touches the analysis helpers.',
  [LINES], [('sign change', LINES + ':find_intersection, find_intersection_and_plot'),
            ('lines', LINES + ':draw_vertical_line_at, draw_horizontal_line_at')],
  'runtime monitor: result of every call against a scan in plain Python and constructed crossings',
  'Over a thousand pairs of eleven kinds per run, also curves of real ensembles; exploration.')

p('C27', 'Memory and work do not grow with the number of realizations',
  'After any number of realizations on one object with resets between, the object, the program and the work for a realization are '
  'not larger than after a few; objects no longer used are freed, and ensembles keep only sums and critical values.',
  ['histories'], 'arbitrarily many realizations, cut short or complete, with queries and refused lists between',
  'Tests make a handful of realizations.',
  [BASE, L12, CL, LAT, ENS], [('reset', BASE + ':reset; ' + CL + ':ClusterPool.reset; ' + L12 + ':reset'),
                              ('accumulation', ENS + ':run_ensemble_entropy_order_threads_v2')],
  'runtime monitor: reachable elements, allocated blocks, traced bytes and executed lines over long series',
  'Series of 120 equal realizations; detects growth of one element or block per realization; exploration.')

p('C28', 'Results are invariant under the symmetries of the lattice',
  'Moving an order of occupation by a translation, rotation or reflection of the periodic lattice changes none of the curves, the '
  'critical values and p*, and moves the clusters alike.',
  ['inputs', 'histories'], 'all orders of occupation, all symmetries of the periodic square lattice, new and used objects',
  TESTS + 'No two of them are related.',
  [BASE, LAT, SP], [('treatment of boundaries and directions', BASE + ':place_one_site, detect_wrapping; ' + LAT + ':*_bond_of_site; ' +
                     SP + ':scan_all_rows, scan_all_cols')],
  'metamorphic runtime monitor: executions related by lattice symmetries',
  'Needs no model of percolation, only the symmetries; over a thousand pairs per run; exploration.')

p('C29', 'The cluster pool keeps exact books',
  'Through any sequence of creating, growing, merging and clearing clusters, every site and bond put in is a member of exactly one '
  'cluster, counts and group labels on the lattice agree with membership, and no cluster is handed out for a '
  'number that was never given to one, negative ones included. Lists of the caller are not kept or changed.',
  ['histories', 'inputs'], 'all sequences of operations on pools, several pools at once',
  'Tests use the pool only through the simulations.',
  [CL, LAT], [('pool', CL + ':ClusterPool.create_new_cluster, add_sites, add_bonds, merge_cluster_with, clear_cluster, get_cluster')],
  'runtime monitor: model-based random histories on the pool',
  'Hundreds of histories with thousands of merges per run, audited in full; exploration.')

p('C30', 'Ids and row/column addresses correspond one to one',
  'Ids of sites and bonds run over 0..L^2-1 and 0..2L^2-1, and conversion between ids and row/column addresses is one to one in '
  'both directions through every query that offers it. An object found by one address answers with the same id and address.',
  ['inputs', 'histories'], 'all sides, all sites and bonds, all query paths',
  'Tests convert few ids.',
  [LAT, SITE, BOND, IDX], [('conversion', LAT + ':get_id_from_index, get_row_col_from_id, calculate_id_from_index, get_site_by_index, '
                           'get_bond_by_index')],
  'runtime monitor: all round trips on live lattices',
  'All ids of many sides, exhaustive per side visited; exploration over sides.')

p('C31', 'The printed views show the actual state',
  'The printed lattice views and listings show every site and bond once in its place with its true group, id or coordinates, and the cluster '
  'view lists every cluster once with all its sites and bonds and their true numbers, at any moment of any history.',
  ['histories'], 'all classes, orders, moments and forms of the views',
  'Tests print views and look at nothing.',
  [LAT, CL, SITE, BOND, BASE], [('lattice views', LAT + ':view, view_relative_index, view_site_gids, get_row_str, get_row_v_str'),
                                ('cluster view', CL + ':ClusterPool.view, OneCluster.view')],
  'runtime monitor: printed views parsed and compared with the model',
  'Thousands of views per run read back; exploration.')

p('C33', 'Work and memory of a realization are proportional to the lattice',
  'The program steps of one whole realization, and the memory of its object, grow in proportion to the number of sites (up to a '
  'slowly growing factor, and up to a factor of the side for the shortest-path model), for every order of occupation: '
  'on merging it is the smaller clusters that are relabeled. The work of an ensemble grows in proportion to the number of '
  'realizations.',
  ['inputs', 'histories'], 'all orders of occupation, models and sides',
  'Tests do not measure work; random orders hide a wrong choice of the cluster to relabel.',
  [BASE, L12, SP, CL, ENS],
  [('choice of the cluster which keeps its label', BASE + ':merge_clusters_v2'),
   ('incremental entropy and largest cluster', BASE + ':entropy_subtract, entropy_add, track_largest_cluster'),
   ('condition for scanning all rows and columns', SP + ':run_once')],
  'runtime monitor: executed lines and reachable objects per site compared between sides, over adversarial orders',
  'Lines per site from side 12 to 48 may grow by a factor 2 (6 for shortest paths; a square law gives 16); exploration.')

p('C34', 'The built-in self checks tell right states from damaged ones',
  'At every moment of every history all built-in self checks of simulation, lattice, sites and bonds pass and change nothing; when '
  'one group, id, neighbor, coordinate or cluster member is damaged, the self check of that part fails. The run to the first '
  'wrapping stops there for every order, having recorded the states before it.',
  ['histories', 'inputs'], 'all reachable states, all single damages of the listed kinds',
  'The tests trust the self checks: one that accepts everything makes them pass, one that rejects rare right states is not met.',
  [BASE, LAT, SITE, BOND],
  [('self checks', BASE + ':test_lattice, test_clusters, test_run_once; ' + LAT + ':scan_sites, scan_bonds, test_neighbor_count, '
    'test_relative_index, test_lattice, test_rwo_col_scan')],
  'runtime monitor: self checks called along histories and after injected damage',
  'All self checks at random moments of hundreds of histories, 13 kinds of damage with hundreds of instances; exploration.')

p('C35', 'Relative positions of neighbors are unit steps and index arithmetic is exact',
  'Sums, differences, conversions and copies of row/column and relative indices are exact for whole numbers of any size and sign and '
  'leave their operands alone. The relative position computed for a neighbor is one unit step from the site in its true '
  'direction, across every boundary too, and an index outside of the lattice is brought back modulo the side.',
  ['inputs', 'histories'], 'all pairs of neighbors on all sides, all whole numbers',
  'test_lattice.py does one subtraction; no test asks for relative positions across boundaries.',
  [IDX, BASE, L12],
  [('arithmetic', IDX + ':Index.__add__, __sub__, normalize; RelativeIndex.__init__, __sub__'),
   ('steps across boundaries', BASE + ':wrapping_correction_relative_index, get_relative_index, get_change_in_relative_index; ' + L12 +
    ':correct_index_for_periodicity')],
  'runtime monitor: every operation compared with plain integers and modular geometry',
  'Thousands of random operations and all neighbor pairs of used objects of many sides; exploration.')

p('C36', 'Exchanging two sites of the order exchanges only these',
  'In the models which follow an order, exchanging two sites still to come swaps their places in the order and changes nothing else, '
  'whether the order is the own one, a custom list of ids or indices, shuffled or not; any number of exchanges leaves every site in the '
  'order exactly once, and the realization follows the exchanged order.',
  ['inputs', 'histories'], 'all orders, all pairs of sites still to come, any history before',
  'No test exchanges sites.',
  [BASE],
  [('exchange', BASE + ':swap_ids'), ('table of positions', BASE + ':shuffle, set_custome_site_id_list, set_custome_site_index_list')],
  'runtime monitor: sequence before and after each exchange, and each placement against it',
  'Thousands of exchanges on objects of the three models which follow an order; exploration.')

p('C37', 'Programs start clean and give a true account at their end',
  'Importing modules of the package changes nothing: no files, processes, random state, logging or settings. The main program, '
  'run from start to end, leaves the files of all realizations it was told to make, a log with one line per realization, says once '
  'that there were no errors, how much time was spent and when it ended; if a worker fails it ends with an error and does not say so. A '
  'duration is printed in hours, minutes and seconds that add up to it. The fixed examples give the same results every time, and the '
  'built-in demonstrations run to their end.',
  ['inputs', 'fault_sequences', 'histories'], 'all orders of import, all ensembles, all durations, failures of any worker',
  'The tests never run the main program or the examples, and import the modules in one order.',
  ['main.py', RUN, SPR, ENS],
  [('main program', 'main.py:print_duration, init_logging'), ('drivers and examples', RUN + ':run_simulations, run_simulation_threads_v4'),
   ('log', ENS + ':run_ensemble_entropy_order_threads_v2')],
  'runtime monitor: audit hook and state comparison around imports; files, log, status and clock of whole program runs against the '
  'recorded calls',
  'Dozens of program runs in fresh interpreters with other ensembles, faults and speeds of the clock; exploration.')

p('C38', 'An interrupted run leaves nothing that passes for a complete result',
  'When a run is killed or interrupted at any point, every result file it leaves is either visibly incomplete (empty, or with rows, '
  'columns or the end of the last line missing) or holds exactly what the run would have left had it not been interrupted. What '
  'it leaves does not disturb later runs, and is not changed by them.',
  ['crash_points', 'histories'], 'all points of interruption of every function that writes result files',
  'The tests write no result files and interrupt nothing.',
  [ENS, RUN, SPR],
  [('files written after all realizations', ENS + ':write_entropy_order, write_critical_values, run_ensemble_entropy_order_threads_v2'),
   ('files of the shortest paths and single realizations', SPR + ':write_p_p_star; ' + RUN + ':single_realization')],
  'fault injection at chosen program lines, and an offline check of the files left against the run which was not interrupted',
  'Hundreds of interrupted runs, mostly during writing; the points are sampled, not enumerated.')

p('C32', 'Thresholds are those of the models and meet on all sides',
  'On every side the critical probabilities of the realizations of each model are distributed as its law of selection on the periodic '
  'lattice makes them, in single objects, in ensembles and in parallel drivers alike. In the non-interacting model the probability '
  'to wrap at p = 0.592746 is about 0.69 on every side, so that the wrapping curves of all sides cross there, and as the '
  'side grows the mean critical probability approaches this value from below.',
  ['inputs', 'histories'], 'all random realizations; sides 8 to 64 stand for all',
  'Tests run single realizations and assert nothing about their distribution.',
  [BASE, L0, L12, ENS, RUN],
  [('wrapping threshold', BASE + ':get_pc, detect_wrapping'), ('selection', L12 + ':select_site'),
   ('critical values of ensembles', ENS + ':write_critical_values')],
  'statistical monitor over recorded critical probabilities against distributions from an independent simulation',
  'Tens of thousands of realizations on four sides; the limit itself is not tested, only the approach to it; exploration.')

NA = []
