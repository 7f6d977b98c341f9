"""Development tool: lines of /repo which no monitored workload executes.   usage: coverage.py [ID..]"""
import ast
import glob
import json
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def executable(path):
    """lines with a statement inside a function"""
    out = set()
    for f in ast.walk(ast.parse(open(path).read())):
        if isinstance(f, ast.FunctionDef):
            for n in ast.walk(f):
                if isinstance(n, ast.stmt) and n is not f and not isinstance(n, (ast.Pass, ast.FunctionDef)) and \
                        not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                    out.add(n.lineno)
    return out


def main(ids):
    man = json.load(open(V + '/MANIFEST.json'))
    hit = {}
    with tempfile.TemporaryDirectory() as d:
        for c in man['checks']:
            if ids and c['property'] not in ids:
                continue
            p = d + '/' + c['property']
            subprocess.run(['bash', '-c', c['quick_cmd']], cwd=V, env=dict(os.environ, VF_COV=p), stdout=subprocess.DEVNULL)
            for x in glob.glob(p + '.*'):
                for l in open(x):
                    f, n = l.rsplit(':', 1)
                    hit.setdefault((f, int(n)), set()).add(c['property'])
    for root, _, names in os.walk(REPO):
        if '.git' in root or 'test_py' in root:
            continue
        for n in sorted(names):
            if n.endswith('.py'):
                path = os.path.join(root, n)
                rel = path[len(REPO) + 1:]
                src = open(path).read().split('\n')
                ex = executable(path)
                miss = sorted(i for i in ex if (rel, i) not in hit)
                print('%s: %d of %d lines' % (rel, len(ex) - len(miss), len(ex)))
                for i in miss:
                    print('   %4d  %s' % (i, src[i - 1].strip()[:110]))


if __name__ == '__main__':
    main(sys.argv[1:])
