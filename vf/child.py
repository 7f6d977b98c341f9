"""Runs one seeded script in a fresh interpreter and prints a digest (see props/c12.py)."""
import hashlib
import json
import os
import random
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def decode(s):
    kind, v = s
    return dict(int=int, float=float, str=str, bytes=lambda x: bytes.fromhex(x), bool=bool)[kind](v)


def script(spec):
    """-> repr of everything observed"""
    from vf.observe import observe
    from vf.sut import classes
    out = []
    o = classes()[spec['cls']](length=spec['L'], seed=decode(spec['seed']))
    for op in spec['ops']:
        if op[0] == 'run':
            o.run_once()
        elif op[0] == 'reset':
            o.reset()
        elif op[0] == 'steps':
            for _ in range(op[1]):
                if not o.place_one_site():
                    break
                o.detect_wrapping()
        elif op[0] == 'shuffled':
            o.set_custome_site_id_list(list(op[1]), True)
        elif op[0] == 'another':     # another seeded object takes over the generator
            o = classes()[op[1]](length=op[2], seed=decode(op[3]))
        ob = observe(o)
        out.append(sorted((k, v) for k, v in ob.items()))
        out.append(list(o.get_site_id_sequence()))
    return repr(out)


def files(spec):
    """seeded ensemble: the tables written"""
    from vf.files import scratch, listing, parse, kind
    from vf.sut import classes
    with scratch():
        if spec['cls'] == 'SP':
            from run_py import shortest_path_run
            shortest_path_run.ensemble_shortest_path_v2_thread(classes()['SP'], spec['L'], spec['n'], spec['th'],
                                                               seed=decode(spec['seed']))
        else:
            from run_py import ensemble
            ensemble.run_ensemble_entropy_order_threads_v2(classes()[spec['cls']], spec['L'], spec['n'], spec['th'],
                                                           seed=decode(spec['seed']))
        return repr(sorted((kind(f), parse('data/' + f)[1].tolist()) for f in listing()))


def play(spec):
    return files(spec) if spec.get('files') else script(spec)


if __name__ == '__main__':
    from vf import core
    core.setup_imports()
    spec = json.loads(sys.stdin.read())
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    for s in spec.get('noise', ()):
        random.seed(s)
        [random.random() for _ in range(s % 50)]
    r = play(spec)
    sys.stdout = real
    print(hashlib.sha256(r.encode()).hexdigest())
