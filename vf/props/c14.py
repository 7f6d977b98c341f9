"""Objects are independent of each other."""
import random
import sys
import threading

from .. import gen
from ..core import Inconclusive
from ..model import Model
from ..observe import observe, same
from ..sut import classes

RULE = ('Several objects of mixed classes and sides are created, stepped, run, reset and dropped in a random '
        'interleaving in one process, each with a random stream of its own; every one must end exactly as when the '
        'same script is played alone. Also real threads, one object each, with a switch interval of 1 us: the curves '
        'of each must be those of the model for its own recorded sequence. Execution: one interleaving; non-trivial: '
        'at least 2 objects with placed sites; distinct by interleaving.')
NEED = dict(monitor_evaluations=500, interleavings=60, compared_objects=200, threads=20, context_switches=2000)
ASSUMPTIONS = ['objects draw from the one global random generator of Python, so its state is switched with the object']


def script(rng, cls, L):
    N = L * L
    ops = [('new', rng.randrange(10 ** 9) if rng.random() < .5 else None)]
    for _ in range(rng.randrange(2, 6)):
        op = rng.choice(['run', 'steps', 'steps', 'reset', 'list'])
        if op == 'list':
            if cls in ('L0', 'base', 'SP'):
                ops += [('reset',), ('list', gen.order(rng, L)[0][:rng.randrange(1, N + 1)], rng.random() < .2)]
        elif op == 'steps':
            ops += [('step',)] * rng.randrange(1, N)
        else:
            ops.append((op,))
    ops.append((rng.choice(['run', 'reset']),))
    return ops


class Actor:
    def __init__(self, cls, L, ops, rs):
        self.cls, self.L, self.ops, self.i = cls, L, ops, 0
        random.seed(rs)
        self.state = random.getstate()
        self.o = None

    def go(self, n=1):
        random.setstate(self.state)
        for _ in range(n):
            if self.i >= len(self.ops):
                break
            op = self.ops[self.i]
            self.i += 1
            if op[0] == 'new':
                kw = {} if op[1] is None else dict(seed=op[1])
                self.o = classes()[self.cls](length=self.L, **kw)
            elif op[0] == 'run':
                self.o.run_once()
            elif op[0] == 'reset':
                self.o.reset()
            elif op[0] == 'list':
                self.o.set_custome_site_id_list(list(op[1]), op[2])
            elif self.o.place_one_site():
                if self.o.occupation_prob():
                    self.o.detect_wrapping()
        self.state = random.getstate()

    def done(self):
        return self.i >= len(self.ops)


def cases(tier, seed):
    rng = random.Random('C14/%s/%s' % (seed, tier))
    out = [dict(kind='interleave', n=rng.choice([2, 2, 3, 4, 6]), seed=rng.randrange(10 ** 9),
                same=rng.random() < .5) for i in range(160 if tier == 'quick' else 4000)]
    out += [dict(kind='threads', n=rng.choice([2, 3, 4, 6]), seed=rng.randrange(10 ** 9), L=rng.choice([5, 7, 9, 12]))
            for i in range(16 if tier == 'quick' else 200)]
    return out


def run(case, rec):
    rng = random.Random(case['seed'])
    if case['kind'] == 'threads':
        return threads(case, rec, rng)
    plan = []
    cls0, L0 = rng.choice(['L0', 'L1', 'L2', 'SP', 'base']), rng.choice([3, 4, 5, 6, 5, 6, 17])
    for i in range(case['n']):
        cls = cls0 if case['same'] else rng.choice(['L0', 'L1', 'L2', 'SP', 'base'])
        L = L0 if case['same'] else rng.choice([3, 4, 5, 6, 8, 3, 4, 5, 6, 8, 18])
        plan.append((cls, L, script(rng, cls, L), rng.randrange(10 ** 9)))
    together = [Actor(*p) for p in plan]
    switches, trace = 0, []
    while True:
        alive = [i for i, a in enumerate(together) if not a.done()]
        if not alive:
            break
        i = rng.choice(alive)
        n = rng.choice([1, 1, 2, 5, 20])
        together[i].go(n)
        switches += 1
        trace.append((i, n))
    found = [observe(a.o) for a in together]  # before anything is done with other objects
    for a, x, p in zip(together, found, plan):
        alone = Actor(*p)
        alone.go(len(alone.ops))
        y = observe(alone.o)
        k = same(x, y, 0)
        rec.count('compared_objects')
        rec.check(k is None, 'an object ends in another state when others are used in between', what=k,
                  interleaved=x.get(k), alone=y.get(k), cls=a.cls, L=a.L)
        rec.check(a.state == alone.state, 'an object draws other random numbers when others are used in between',
                  cls=a.cls, L=a.L)
    rec.count('interleavings')
    rec.count('context_switches', switches)
    rec.execution((trace, [p[:2] for p in plan], case['seed']))
    rec.sample(dict(objects=[p[:2] for p in plan], switches=switches, first=trace[:10]))


def threads(case, rec, rng):
    old = sys.getswitchinterval()
    errors = []
    objs = []
    cl = classes()
    for i in range(case['n']):
        cls = rng.choice(['L0', 'L0', 'L1', 'L2', 'base'])
        objs.append((cls, case['L'] + (i if rng.random() < .5 else 0)))
    made = [None] * len(objs)

    def work(i):
        try:
            cls, L = objs[i]
            o = cl[cls](length=L)
            for _ in range(2):
                o.reset()
                o.run_once()
            made[i] = o
        except BaseException as e:      # noqa
            errors.append((objs[i], repr(e)))
    sys.setswitchinterval(1e-6)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(len(objs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    rec.check(not errors, 'objects in threads disturb each other', errors=errors)
    for (cls, L), o in zip(objs, made):
        seq = list(o.get_site_id_sequence())
        rec.check(sorted(seq) == list(range(L * L)), 'an object run in a thread did not place every site once',
                  cls=cls, L=L, sequence=seq)
        m = Model(L).run(seq)
        a = o.get_data_array()
        rec.check(a.shape == (L * L, 4), 'curves of an object run in a thread have a wrong shape', shape=a.shape)
        worst = max(abs(x - y) for r, w in zip(a, m.curve) for x, y in zip(r, w))
        rec.check(worst < 1e-8, 'curves of an object run in a thread are not those of its sequence', cls=cls, L=L,
                  worst=worst)
        rec.check((o.get_pc(), o.get_site_count_wrapping_cluster_pc(), o.get_bond_count_wrapping_cluster_pc()) ==
                  (m.pc / m.N, m.pc_sites, m.pc_bonds), 'critical values of an object run in a thread are wrong')
        rec.count('compared_objects')
    rec.count('threads', len(objs))
    rec.execution(('threads', objs, [o.get_site_id_sequence() for o in made]))
