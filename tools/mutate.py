"""Development tool: first-order mutants of the repository; those which pass the tests are given to the checks.
usage: mutate.py OUT.jsonl [SEED [COUNT [WORKERS]]]     (a sample of COUNT mutants; each line of OUT: one survivor of the tests)"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'source_py/simulation/'
FILES = [S + f for f in ('percolation_sq_lattice.py', 'percolation_sq_lattice_L0.py', 'percolation_sq_lattice_L1L2.py',
                         'percolation_sq_lattice_shortest_path.py', 'lattice.py', 'cluster.py', 'site.py', 'bond.py', 'element.py',
                         'index.py')] + \
    ['run_py/ensemble.py', 'run_py/rsbd_percolatioin_run.py', 'run_py/shortest_path_run.py', 'source_py/analyze/lines.py']
ORDER = {'run_py/ensemble.py': 'C21 C24 C25 C22', 'run_py/rsbd_percolatioin_run.py': 'C22 C25 C21 C24',
         'run_py/shortest_path_run.py': 'C23 C22 C25 C24', 'source_py/analyze/lines.py': 'C26',
         S + 'percolation_sq_lattice_L1L2.py': 'C18 C19 C10 C16 C11', S + 'percolation_sq_lattice_shortest_path.py': 'C20 C23',
         S + 'index.py': 'C35 C30', S + 'lattice.py': 'C01 C30 C31 C34 C35', S + 'cluster.py': 'C29 C02',
         S + 'percolation_sq_lattice.py': 'C02 C09 C15 C04 C05 C03 C34 C11', S + 'site.py': 'C01 C18 C19 C31', S + 'bond.py': 'C01 C31'}
NAMES = {'get_cluster_bond_count': 'get_cluster_site_count', 'row': 'column', 'column': 'row', 'x_coord': 'y_coord',
         'y_coord': 'x_coord', 'site_count': 'bond_count', 'bond_count': 'site_count', 'first_nn_count': 'second_directional_nn_count',
         'largest_cluster_id': 'wrapping_cluster_id', 'wrapping_cluster_id': 'largest_cluster_id', 'site_ids': 'bond_ids',
         'bond_ids': 'site_ids', 'set_site_gid_by_id': 'set_bond_gid_by_id', 'current_idx': 'occupied_site_count',
         'occupied_site_count': 'current_idx', 'exhausted_1st_nn': 'exhausted_2nd_directional_nn'}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq, ast.GtE], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Mult],
       ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult]}
SKIP = ('test_site_percolation', 'test_relative_index', 'test_detect_wrapping', 'test_large', 'test_L1', 'test_L2',
        'test_detect_wrapping_L1L2', 'test_reset_relative_index', 'run_shortest_path', 'run_simulations', 'test', 'mTest_neighbors')

ONLY = {'run_py/ensemble.py': 'C12 C21 C22 C24 C25 C27', 'run_py/rsbd_percolatioin_run.py': 'C16 C22 C24 C25',
        'run_py/shortest_path_run.py': 'C12 C22 C23 C24 C25 C27', 'source_py/analyze/lines.py': 'C26',
        S + 'percolation_sq_lattice_shortest_path.py': 'C10 C11 C12 C14 C20 C23 C27 C28 C33'}
RARE = os.environ.get('RARE', '')    # the mutant shows only in states where a sum of numbers is r modulo k
HELPER = '''

def _rare(names, k, r):
    n = 0
    me = names.get('self')
    for v in list(names.values()) + list(getattr(me, '__dict__', {}).values()):
        if type(v) is int:
            n += v
        elif type(v) in (list, tuple):
            n += len(v)
        elif hasattr(v, 'length') and type(v.length) is int:
            n += v.length
    return n % k == r
'''
NOT = 'C22 C24 C25 C26 C17 C32'.split()


def noisy(s):
    return isinstance(s, ast.Expr) and (isinstance(s.value, ast.Constant) or (
        isinstance(s.value, ast.Call) and (getattr(s.value.func, 'id', '') == 'print' or
                                           getattr(getattr(s.value.func, 'value', None), 'id', '') == 'logging')))


def mutants(src):
    """yields (line, what, new source)"""
    tree = ast.parse(src)
    nodes = []

    def walk(n, infn, top, st=None):
        for name, val in ast.iter_fields(n):
            items = val if isinstance(val, list) else [val]
            for i, c in enumerate(items):
                if not isinstance(c, ast.AST):
                    continue
                if isinstance(c, ast.FunctionDef) and top and c.name in SKIP:
                    continue
                if noisy(c) or isinstance(c, (ast.Import, ast.ImportFrom)):
                    continue
                if infn or isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    at = (n, name, i if isinstance(val, list) else None, c)
                    here = st
                    if isinstance(c, ast.stmt):
                        here = None if isinstance(c, (ast.FunctionDef, ast.ClassDef)) or not infn else at
                    if infn:
                        nodes.append((at, here))
                    walk(c, infn or isinstance(c, ast.FunctionDef), False, here)
    walk(tree, False, True)

    def put(n, name, i, new):
        if i is None:
            setattr(n, name, new)
        else:
            getattr(n, name)[i] = new
    for (n, name, i, c), st in nodes:
        alts = []
        if isinstance(c, ast.Compare) and len(c.ops) == 1:
            for o in CMP.get(type(c.ops[0]), []):
                d = copy.copy(c)
                d.ops = [o()]
                alts.append(d)
        if isinstance(c, ast.BinOp):
            for o in BIN.get(type(c.op), []):
                d = copy.copy(c)
                d.op = o()
                alts.append(d)
        if isinstance(c, ast.AugAssign):
            for o in BIN.get(type(c.op), []):
                d = copy.copy(c)
                d.op = o()
                alts.append(d)
        if isinstance(c, ast.BoolOp):
            d = copy.copy(c)
            d.op = ast.Or() if isinstance(c.op, ast.And) else ast.And()
            alts.append(d)
            for k in range(len(c.values)):
                d = copy.copy(c)
                d.values = c.values[:k] + c.values[k + 1:]
                alts.append(d if len(d.values) > 1 else d.values[0])
        if isinstance(c, ast.Constant):
            if isinstance(c.value, bool):
                alts.append(ast.Constant(not c.value))
            elif isinstance(c.value, int):
                alts += [ast.Constant(c.value + 1), ast.Constant(c.value - 1)]
        if isinstance(c, ast.UnaryOp) and isinstance(c.op, (ast.Not, ast.USub)):
            alts.append(c.operand)
        if isinstance(c, ast.Attribute) and c.attr in NAMES:
            d = copy.copy(c)
            d.attr = NAMES[c.attr]
            alts.append(d)
        if isinstance(c, ast.Call) and len(c.args) == 2 and not c.keywords:
            d = copy.copy(c)
            d.args = c.args[::-1]
            alts.append(d)
        if isinstance(c, ast.If):
            for b in (True, False):
                d = copy.copy(c)
                d.test = ast.Constant(b)
                alts.append(d)
        if isinstance(c, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue, ast.Return)):
            alts.append(ast.Pass())
        for a in alts:
            ast.copy_location(a, c)
            ast.fix_missing_locations(a)
            put(n, name, i, a)
            try:
                if not RARE:
                    new = ast.unparse(tree)
                elif st is None:
                    continue
                else:
                    changed = a if st[3] is c else copy.deepcopy(st[3])
                    put(n, name, i, c)
                    dice = random.Random('%s/%s/%s' % (RARE, c.lineno, ast.unparse(a)))
                    k = dice.choice([5, 17, 41, 97])
                    test = ast.parse('_rare(locals(), %d, %d)' % (k, dice.randrange(k)), mode='eval').body
                    put(*st[:3], ast.fix_missing_locations(ast.copy_location(ast.If(test, [changed], [st[3]]), st[3])))
                    new = ast.unparse(tree) + HELPER
                    put(*st[:3], st[3])
                yield c.lineno, '%s -> %s%s' % (ast.unparse(c).split('\n')[0][:90], ast.unparse(a).split('\n')[0][:90],
                                                ' if %d' % k if RARE else ''), new
            except Exception:
                if RARE:
                    raise
            finally:
                put(n, name, i, c)


def attempt(job):
    f, line, what, new = job
    w = tempfile.mkdtemp(dir='/tmp', prefix='mutant-')
    try:
        r = w + '/r'
        v = w + '/v'
        subprocess.check_call(['cp', '-a', '/repo', r])
        open(os.path.join(r, f), 'w').write(new)
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=r, VERIF_JOBS='1', TMPDIR=w)
        try:
            t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '.'],
                               cwd=r + '/test_py', env=env, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return None
        if t.returncode:
            return None
        os.mkdir(v)
        for x in ('vf', 'check.py', 'KNOWN_FINDINGS.txt', 'MANIFEST.json'):
            subprocess.check_call(['cp', '-a', os.path.join(V, x), v])
        for g, a, c in (('sut', 'huge=((260, 1),)', 'huge=()'), ('props/c10', 'L=260', 'L=40'), ('props/c20', 'L=260', 'L=40'),
                        ('props/c16', ', 260)', ')'), ('props/c29', '[260, 190]', '[]')):  # the largest sides take too long here
            g = v + '/vf/' + g + '.py'
            t = open(g).read()
            assert a in t
            open(g, 'w').write(t.replace(a, c))
        t = open(v + '/vf/core.py').read()
        assert "getattr(mod, 'ROUNDS', 6)" in t
        open(v + '/vf/core.py', 'w').write(t.replace("getattr(mod, 'ROUNDS', 6)", '1'))
        ids = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']]
        ids = ONLY[f].split() if f in ONLY else [q for q in ids if q not in NOT]
        first = ORDER.get(f, '').split()
        odd = []
        for q in first + [q for q in ids if q not in first]:
            try:
                x = subprocess.run(['/opt/venv/bin/python', 'check.py', q], cwd=v, env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                odd.append(q + ' timeout')
                continue
            if x.returncode == 1:
                return dict(file=f, line=line, what=what, caught=q, odd=odd, why=x.stdout.strip().split('\n')[0][:300])
            if x.returncode:
                odd.append(q + ' ' + x.stderr[-300:])
        return dict(file=f, line=line, what=what, caught=None, odd=odd)
    except Exception as e:
        return dict(file=f, line=line, what=what, caught='ERROR', why=repr(e))
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    out, seed, count, workers = sys.argv[1], int((sys.argv + ['1'])[2]) if len(sys.argv) > 2 else 1, \
        int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9, int(sys.argv[4]) if len(sys.argv) > 4 else 3
    jobs = []
    for f in FILES:
        src = open('/repo/' + f).read()
        base = ast.unparse(ast.parse(src))
        seen = {base}
        for line, what, new in mutants(src):
            if new not in seen:
                seen.add(new)
                jobs.append((f, line, what, new))
    print(len(jobs), 'mutants')
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:count]
    n = 0
    with cf.ThreadPoolExecutor(workers) as ex, open(out, 'a') as o:
        for x in cf.as_completed([ex.submit(attempt, j) for j in jobs]):
            n += 1
            r = x.result()
            if r:
                o.write(json.dumps(r) + '\n')
                o.flush()
            if n % 20 == 0:
                print(n, flush=True)
