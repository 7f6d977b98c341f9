"""Development tool: writes seeded bugs from specs (tools/bugs*.py) to /verif/seeded and tries them in scratch copies.

usage: plant.py write            write /verif/seeded/<id>/ for all specs
       plant.py try [ID..]       for each: patch applies, stable tests pass, demo 0 / nonzero; then the checks named (own property)
       plant.py all ID..         the same with all checks
No check reads anything of this.
"""
import concurrent.futures as cf
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
PRE = '''import contextlib, io, os, random, sys, tempfile
sys.path.insert(0, os.getcwd())
from source_py.simulation.percolation_sq_lattice import SitePercolation
from source_py.simulation.percolation_sq_lattice_L0 import SitePercolationL0
from source_py.simulation.percolation_sq_lattice_L1L2 import SitePercolationL1, SitePercolationL2
from source_py.simulation.percolation_sq_lattice_shortest_path import ShortestPathAfter_pc


def check(what, good):
    if not good:
        sys.stderr.write('BROKEN: ' + what + '\\n')
        sys.exit(1)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def ordered(cls, length, ids, **k):
    """a new object with a custom order"""
    s = quiet(cls, length=length, **k)
    quiet(s.set_custome_site_id_list, list(ids))
    return s


'''
SH = '#!/bin/bash\n# run with cwd = the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n' \
     'exec timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def specs():
    out = []
    for f in sorted(glob.glob(os.path.join(V, 'tools', 'bugs*.py'))):
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        out += ns['B']
    return out


def write():
    base = tempfile.mkdtemp(dir='/tmp', prefix='plant')
    subprocess.check_call(['git', 'clone', '-q', '/repo', base + '/r'])
    for s in specs():
        d = os.path.join(V, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        for f, old, new in s['edits']:
            p = os.path.join(base, 'r', f)
            t = open(p).read()
            n = t.count(old)
            k = s.get('nth', {}).get(f)
            if n != 1 and k is None:
                print(s['id'], f, 'matches', n, repr(old[:50]))
                break
            if k is None:
                t = t.replace(old, new)
            else:
                parts = t.split(old)
                t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, 'w').write(t)
        diff = subprocess.check_output(['git', '-C', base + '/r', 'diff'], text=True)
        subprocess.check_call(['git', '-C', base + '/r', 'checkout', '-q', '--', '.'])
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write('"""{}"""\n'.format(s['what']) + PRE + s['demo'].strip('\n') + '\n')
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['p'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)
        # changed lines must be of the original repository
        for f in {e[0] for e in s['edits']}:
            minus = [int(h.split(' ')[1].split(',')[0][1:]) for h in diff.split('\n') if h.startswith('@@')]
            del minus
    shutil.rmtree(base)


def attempt(i, everything):
    d = os.path.join(V, 'seeded', i)
    w = tempfile.mkdtemp(dir='/tmp', prefix='plant-' + i + '-')
    try:
        r = w + '/r'
        subprocess.check_call(['cp', '-a', '/repo', r])
        env = dict(os.environ, PYTHONPATH=r, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                   VERIF_TIER='quick')
        dd = w + '/demo'
        shutil.copytree(d, dd)
        msg = []
        a = subprocess.run(['bash', dd + '/demo.sh'], cwd=r, env=dict(env, PYTHONPATH=''), capture_output=True, text=True)
        if a.returncode != 0:
            msg.append('DEMO FAILS UNPATCHED: ' + a.stderr[-300:])
        p = subprocess.run(['git', '-C', r, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if p.returncode:
            return i, 'PATCH: ' + p.stderr[-200:]
        # lines changed must be original ones
        blame_ok = False
        for f in subprocess.check_output(['git', '-C', r, 'diff', '--name-only'], text=True).split():
            for h in subprocess.check_output(['git', '-C', r, 'diff', '-U0', f], text=True).split('\n'):
                if h.startswith('@@'):
                    o = h.split(' ')[1][1:].split(',')
                    st, n = int(o[0]), int(o[1]) if len(o) > 1 else 1
                    if n:
                        for l in subprocess.check_output(['git', '-C', r, 'blame', '-s', '-l', '-L', '{},{}'.format(st, st + n - 1), 'HEAD',
                                                          '--', f], text=True).split('\n'):
                            if l.startswith('^0d5d089') or l.startswith('0d5d089') or (l and not is_mine(l.split(' ')[0])):
                                blame_ok = True
        if not blame_ok:
            msg.append('NO ORIGINAL LINE CHANGED')
        b = subprocess.run(['bash', dd + '/demo.sh'], cwd=r, env=dict(env, PYTHONPATH=''), capture_output=True, text=True)
        if b.returncode == 0:
            msg.append('DEMO PASSES PATCHED')
        else:
            msg.append('demo: ' + (b.stderr.strip().split('\n') or [''])[-1][:100])
        t = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '.'], cwd=r + '/test_py', env=env, capture_output=True,
                           text=True)
        tail = t.stdout.strip().split('\n')[-1]
        if t.returncode:
            msg.append('TESTS: ' + tail)
        man = json.load(open(V + '/MANIFEST.json'))
        prop = json.load(open(d + '/meta.json'))['property']
        props = [c['property_id'] if 'property_id' in c else c['property'] for c in man['checks']] if everything else [prop]
        caught, bad = [], []
        for q in props:
            env['VERIF_EVIDENCE'] = w
            c = subprocess.run([PY, V + '/check.py', q, '--tier', 'quick'] if False else CMD(q), cwd=V, env=env, capture_output=True,
                               text=True)
            if c.returncode == 1 and 'VIOLATION property=' + q in c.stdout:
                caught.append(q)
            elif c.returncode != 0:
                bad.append('{}:rc{}'.format(q, c.returncode))
                bad.append((c.stdout + c.stderr)[-200:])
        msg.append(('CAUGHT ' if prop in caught else 'MISSED ') + prop + ' | by ' + ' '.join(caught) + (' BAD ' + ' '.join(bad) if bad else ''))
        return i, '; '.join(msg)
    finally:
        shutil.rmtree(w, ignore_errors=True)


MINE = set(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '0d5d089..HEAD'], text=True).split())


def is_mine(h):
    return any(m.startswith(h.lstrip('^')) for m in MINE)


def CMD(q):
    man = json.load(open(V + '/MANIFEST.json'))
    for c in man['checks']:
        if c.get('property_id', c.get('property')) == q:
            return ['bash', '-c', c.get('quick', c.get('quick_cmd'))]


if __name__ == '__main__':
    if sys.argv[1] == 'write':
        write()
    else:
        ids = sys.argv[2:] or [s['id'] for s in specs()]
        with cf.ThreadPoolExecutor(int(os.environ.get('J', '7'))) as ex:
            for i, m in ex.map(lambda i: attempt(i, sys.argv[1] == 'all'), ids):
                print(i, '::', m, flush=True)
