"""Runs main.py, or imports the modules of the package, in a fresh interpreter under monitors (see props/c37.py).
Reads what to do from stdin, works in the current (scratch) directory and leaves report.json there."""
import inspect
import json
import os
import random
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

MODULES = ['main', 'run_py', 'run_py.ensemble', 'run_py.rsbd_percolatioin_run', 'run_py.shortest_path_run', 'source_py',
           'source_py.analyze.lines', 'source_py.simulation', 'source_py.simulation.arguments', 'source_py.simulation.bond',
           'source_py.simulation.cluster', 'source_py.simulation.element', 'source_py.simulation.index',
           'source_py.simulation.lattice', 'source_py.simulation.percolation_sq_lattice',
           'source_py.simulation.percolation_sq_lattice_L0', 'source_py.simulation.percolation_sq_lattice_L1L2',
           'source_py.simulation.percolation_sq_lattice_shortest_path', 'source_py.simulation.site']
_ROOT = os.environ.get('VERIF_REPO', '/repo')
MODULES = [m for m in MODULES if os.path.exists(os.path.join(_ROOT, *m.split('.')) + '.py') or os.path.isdir(os.path.join(_ROOT, *m.split('.')))]
DRIVERS = ['run_simulation_threads_v3', 'run_simulation_threads_v4', 'run_simulation_shortest_path_threads']


def state():
    import logging
    import multiprocessing
    import signal
    import threading
    import numpy as np
    kind, keys, pos, has, gauss = np.random.get_state()
    return dict(random=hash(random.getstate()), numpy=hash((keys.tobytes(), pos, has, gauss)), environ=dict(os.environ),
                directory=sorted(os.listdir('.')), cwd=os.getcwd(), logging=(len(logging.root.handlers), logging.root.level),
                threads=threading.active_count(), children=len(multiprocessing.active_children()), argv=list(sys.argv),
                signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD)],
                recursion=sys.getrecursionlimit(), umask=None, numpy_print=repr(np.get_printoptions()), errors=repr(np.geterr()))


def imports(spec):
    import importlib
    import datetime, getopt, argparse, logging, multiprocessing.connection, threading, glob, copy, math     # noqa
    import numpy as np
    try:
        import matplotlib.pyplot
    except ImportError:
        pass
    random.seed(spec['rng'])
    np.random.seed(spec['rng'] % 2 ** 31)
    events, on = [], [False]

    def hook(event, args):
        if not on[0]:
            return
        if event == 'open':
            path, mode, flags = args
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
                events.append('open %r for writing' % (path,))
        elif event in ('os.mkdir', 'os.remove', 'os.rename', 'os.rmdir', 'subprocess.Popen', 'os.fork', 'os.exec', 'os.system',
                       'os.kill', 'os.putenv', 'os.chdir', 'os.truncate', 'socket.connect', 'socket.bind', 'shutil.rmtree'):
            events.append('%s %r' % (event, args[:1]))
    sys.addaudithook(hook)
    before = state()
    on[0] = True
    failed = None
    for m in spec['modules']:
        try:
            importlib.import_module(m)
        except BaseException as e:
            failed = '%s: %r' % (m, e)
            break
    on[0] = False
    after = state()
    return dict(events=events, failed=failed, imported=len(spec['modules']),
                changed={k: (str(before[k])[:200], str(after[k])[:200]) for k in before if before[k] != after[k]})


def program(spec, report):
    import runpy
    from run_py import rsbd_percolatioin_run as R
    from run_py import shortest_path_run as S
    calls = report['calls'] = []
    real_time = time.time
    t0 = real_time()

    def scaled():
        return t0 + (real_time() - t0) * spec['scale']

    def faster(clock):
        c0 = clock()
        return lambda: c0 + (clock() - c0) * spec['scale']

    def wrap(module, name):
        old = getattr(module, name)
        sig = inspect.signature(old)

        def new(*a, **kw):
            if active:      # one driver uses another
                return old(*a, **kw)
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            use = name, dict(b.arguments)
            if spec.get('instead'):
                use = spec['instead']
            rec = dict(named=name, name=use[0], args=use[1], begin=scaled(), real_begin=real_time())
            calls.append(rec)
            active.append(name)
            try:
                return originals[use[0]](**use[1])
            finally:
                active.pop()
                rec['end'], rec['real_end'] = scaled(), real_time()
        originals[name] = old
        setattr(module, name, new)
    originals, active = {}, []
    for n in DRIVERS:
        for m in (R, S):
            if n in m.__dict__:
                wrap(m, n)
    from vf.props.c25 import Injector
    time.time, time.perf_counter = scaled, faster(time.perf_counter)
    report['begin'], report['real_begin'] = scaled(), real_time()
    inj = Injector(spec['faults'])
    try:
        with inj:
            runpy.run_path(os.path.join(core.REPO, 'main.py'), run_name='__main__')
    finally:
        report['end'], report['real_end'] = scaled(), real_time()
        report['hits'] = inj.hits.value


if __name__ == '__main__':
    spec = json.loads(sys.stdin.read())
    from vf import core
    core.setup_imports()
    if spec['what'] == 'imports':
        real = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        out = imports(spec)
        sys.stdout = real
        print(json.dumps(out))
    else:
        report, pid = {}, os.getpid()
        try:
            program(spec, report)
        finally:
            if os.getpid() == pid:
                with open('report.json', 'w') as f:
                    json.dump(report, f, default=repr)
