"""Everything a user can read from a simulation, in a form independent of labels."""
import contextlib
import io


def quietly(f, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        r = f(*a)
    return r, buf.getvalue()


def partition(labels):
    first = {}
    return tuple(-1 if g < 0 else first.setdefault(g, i) for i, g in enumerate(labels))


def scalars(o):
    d = dict(p=o.occupation_prob(), H=o.entropy(), Pw=o.order_param_wrapping(), Pl=o.order_param_largest_clstr(),
             largest=o.largest_cluster(), pc=o.get_pc(), pc_sites=o.get_site_count_wrapping_cluster_pc(),
             pc_bonds=o.get_bond_count_wrapping_cluster_pc())
    if hasattr(o, 'get_shortest_path_p'):
        d['p*'] = o.get_shortest_path_p()
    return d


def curves(o):
    return dict(c_p=tuple(o.get_occupation_prob_array()), c_H=tuple(o.get_entropy_array()),
                c_Pw=tuple(o.get_order_param_wrapping_array()), c_Pl=tuple(o.get_order_param_largest_array()))


def observe(o, deep=True, direct=True):
    d = scalars(o)
    d.update(curves(o))
    d['signature'] = o.get_signature()
    lat = o.lattice_ref
    N = lat.length ** 2
    site_g = [lat.get_site_gid_by_id(i) for i in range(N)]
    d['occupied'] = tuple(i for i in range(N) if site_g[i] >= 0)
    if deep:
        bond_g = [lat.get_bond_gid_by_id(i) for i in range(2 * N)]
        d['clusters'] = partition(bond_g + site_g)
        pool = o.cluster_pool_ref
        gs = set(bond_g)
        d['sizes'] = tuple(sorted((pool.get_cluster_site_count(g), pool.get_cluster_bond_count(g)) for g in gs))
        if direct:
            d['H direct'] = o.entropy_v1()
        d['directions left'] = tuple(tuple(lat.get_site_by_id(i).get_nn_count()) for i in range(N))
    if hasattr(o, 'occupied_summary'):
        d['summary'] = quietly(o.occupied_summary)[1]
        d['sequence'] = tuple(o.get_site_id_sequence())
        d['index sequence'] = tuple(map(tuple, o.get_index_sequence()))
    return d


def same(a, b, tol=1e-9):
    """-> name of the first difference, or None"""
    if a.keys() != b.keys():
        return 'keys'
    for k in a:
        x, y = a[k], b[k]
        if x == y:
            continue
        if tol and isinstance(x, float) and isinstance(y, (int, float)) and abs(x - y) < tol:
            continue
        if tol and k.startswith('c_') and len(x) == len(y) and all(abs(u - v) < tol for u, v in zip(x, y)):
            continue
        return k
    return None
