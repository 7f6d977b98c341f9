"""A run which is interrupted leaves nothing that passes for a complete result."""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import random
import signal
import sys

import numpy as np

from .. import core
from ..core import Inconclusive
from ..files import contents, kind, listing, parse, scratch
from ..sut import classes

LEVEL = 'fault_enumeration'
RULE = ('Each function that writes result files is run to its end in a process of its own, counting the program lines executed in the '
        'package and in the writing of tables. Then it is run again with the same random state and killed, or interrupted by an '
        'exception, at a line chosen anywhere, mostly while files are written. Each file left must be visibly incomplete (empty, '
        'header cut, rows or columns missing, last line not ended) or the same as in the run that was not interrupted. Then the same '
        'is run in the same directory to its end, and the leftovers must be as they were. Execution: one interrupted run; distinct by '
        'function, place and what was left; non-trivial: at least one file was left.')
ROUNDS = 1
NEED = dict(monitor_evaluations=600, interrupted=200, complete_files_left=40, incomplete_files_left=20, empty_files_left=10, runs_after=200)
ASSUMPTIONS = ['the operating system keeps what was written by a killed process', 'a file which is cut at the end of the last number is '
               'recognized by its missing end of line']
FUNCTIONS = ['one', 'threads', 'v2', 'path', 'single']


def cases(tier, seed):
    rng = random.Random('C38/%s/%s' % (seed, tier))
    out = []
    for r in range(1 if tier == 'quick' else 12):
        for f in FUNCTIONS:
            for how in ('kill', 'interrupt'):
                for i in range(4):
                    L, n = rng.choice([(4, 3), (12, 2), (16, 2), (3, 300), (5, 12)])
                    if f == 'path' and rng.random() < .7:
                        L, n = 3, 400
                    if f == 'single':
                        L, n = rng.choice([4, 12, 20]), 1
                    out.append(dict(kind=f, how=how, cls=rng.choice(['L0', 'L1', 'L2', 'base']), L=L, n=n, seed=rng.randrange(10 ** 6),
                                    points=[rng.choice([rng.random(), 'w', 'w', 'w', 'e']) for _ in range(6)], th=rng.randrange(4)))
    rng.shuffle(out)
    return out


def act(case):
    from run_py import ensemble as E
    from run_py import rsbd_percolatioin_run as R
    from run_py import shortest_path_run as S
    c, L, n = classes(), case['L'], case['n']
    k = case['kind']
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    if k == 'one':
        E.run_ensemble_entropy_order(c[case['cls']], L, n)
    elif k == 'threads':
        E.run_ensemble_entropy_order_threads(c[case['cls']], L, n, case['th'])
    elif k == 'v2':
        E.run_ensemble_entropy_order_threads_v2(c[case['cls']], L, n, case['th'], seed=case['seed'])
    elif k == 'path':
        S.ensemble_shortest_path_v2_thread(c['SP'], L, n, case['th'], seed=case['seed'])
    else:
        R.single_realization(c[case['cls'] if case['cls'] != 'base' else 'L0'], L)


class Strike(KeyboardInterrupt):
    pass


def child(case, at, q):
    """runs the function; strikes at line number `at`; reports (lines, lines at which a file was opened for writing first)"""
    mon = sys.monitoring
    n, first = [0], [0]
    sys.stdout = open(os.devnull, 'w')

    def hook(event, args):
        if event == 'open' and not first[0] and isinstance(args[0], str) and args[0].startswith('./data') and n[0]:
            first[0] = n[0]
    sys.addaudithook(hook)

    def line(code, lineno):
        f = code.co_filename
        if not (f.startswith(core.REPO + os.sep) or 'npyio' in f):
            return mon.DISABLE
        n[0] += 1
        if n[0] == at:
            mon.set_events(4, 0)
            if case['how'] == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
            raise Strike
    mon.use_tool_id(4, 'strike')
    mon.register_callback(4, mon.events.LINE, line)
    mon.set_events(4, mon.events.LINE)
    end = 'returned'
    try:
        act(case)
    except Strike:
        end = 'struck'
    except BaseException as e:
        end = repr(e)
    mon.set_events(4, 0)
    q.send((end, n[0], first[0]))
    q.close()


def play(case, at):
    ctx = multiprocessing.get_context('fork')
    a, b = ctx.Pipe()
    p = ctx.Process(target=child, args=(case, at, b))
    p.start()
    b.close()
    out = None
    try:
        if not a.poll(200):
            p.kill()
            raise Inconclusive('no answer')
        out = a.recv()
    except EOFError:
        pass
    finally:
        p.join()
        a.close()
    return out or ('killed', None, None)


def read(path):
    """-> what a complete file says, or None if it is visibly incomplete"""
    text = open(path).read()
    if not text:
        return None
    if 'cross_check' in path:
        try:
            head = json.loads(text)
        except ValueError:
            return None
        return {k: v for k, v in head.items() if k not in ('date', 'time')}
    try:
        head, t = parse(path)
    except ValueError:
        return None
    if not text.endswith('\n') or t.ndim != 2:
        return None
    rows = head['L'] ** 2 if kind(path) == 'entropy_order' else head['En']
    if t.shape != (rows, len(head['columns'])):
        return None
    return dict({k: v for k, v in head.items() if k not in ('date', 'time')}, table=t.tolist())


def run(case, rec):
    if not hasattr(sys, 'monitoring'):
        raise Inconclusive('needs sys.monitoring')
    rng = random.Random(case['seed'])
    with scratch():
        end, lines, first = play(case, 0)
        rec.check(end == 'returned', 'the function failed without being interrupted', end=end, case=case)
        want = {kind(f): read('data/' + f) for f in listing()}
        rec.check(all(want.values()) and want, 'a file of a run which was not interrupted is incomplete', files=listing())
        names = len(listing())
    if not first or lines <= first:
        raise core.HarnessError('no file was seen to be opened')
    for u in case['points']:
        at = max(1, int(u * lines) if isinstance(u, float) else rng.randrange(first, lines) if u == 'w' else lines - rng.randrange(min(60, lines - first)))
        with scratch():
            end, _, _ = play(case, at)
            rec.check(end in ('struck', 'killed'), 'the run ended otherwise than by the interruption', end=end, at=at, of=lines, case=case)
            rec.count('interrupted')
            left = []
            for f in listing():
                got = read('data/' + f)
                if got is None:
                    rec.count('empty_files_left' if os.path.getsize('data/' + f) == 0 else 'incomplete_files_left')
                    left.append((kind(f), os.path.getsize('data/' + f)))
                else:
                    ref = want.get(kind(f))
                    diff = ref and [k for k in ref if ref[k] != got.get(k)]
                    rec.check(got in want.values(), 'an interrupted run leaves a file which looks complete but has not the results of the whole run',
                              file=f, differs_in=diff, function=case['kind'], how=case['how'], at=at, of=lines)
                    rec.count('complete_files_left')
                    left.append((kind(f), 'complete'))
            old = contents()
            end, _, _ = play(case, 0)
            rec.check(end == 'returned', 'after an interrupted run the next one fails', end=end, left=left)
            now = contents()
            rec.check(all(now.get(f) == old[f] for f in old), 'the next run changed what an interrupted one left', left=left)
            new = [f for f in now if f not in old]
            rec.check(len(new) == names and all(read('data/' + f) == want[kind(f)] for f in new),
                      'the run after an interrupted one gives other results', new=new, left=left)
            rec.count('runs_after')
            rec.saw('left', tuple(sorted(map(str, left))))
            rec.execution((case['kind'], case['how'], case['cls'], case['L'], case['n'], at, left), bool(left))
    rec.sample(case)
