"""Custom site lists: followed in order, shuffled on request, refused when invalid, never altered."""
import random

import numpy as np

from .. import gen
from ..observe import observe, same
from ..sut import Monitor, Session, classes

RULE = ('Histories setting lists of ids or indices (tuples, lists, index objects, ranges; any length from 1 to N; in '
        'any state of the object), shuffled or not, valid or with one bad entry (each bound, each component, negative, '
        'huge) at any place. Monitors: the sites are placed in the order of the list; a shuffled list places the same '
        'sites, in all orders with equal frequency; a refused list leaves a twin indistinguishable; the list of the '
        'caller never changes and later changes to it have no effect; a longer list with the same beginning '
        'continues a run; L1 and L2 come to an end with all listed sites occupied. Execution: one history; distinct '
        'by lists.')
NEED = dict(monitor_evaluations=1000, ordered_lists=100, shuffled_lists=60, refused_lists=150, continued_runs=30,
            aliasing_attempts=50, interacting_lists=20)
ASSUMPTIONS = ['lists name no site twice']


class InOrder(Monitor):
    want = None

    def placed(self, site):
        if self.want is not None:
            i = len(self.s.m.order) - 1
            self.rec.check(i < len(self.want) and site == self.want[i], 'a site was placed out of the order of the list',
                           step=i, placed=site, want=self.want[i] if i < len(self.want) else None, list=self.want)

    def finished(self):
        if self.want is not None:
            self.rec.check(len(self.s.m.order) == len(self.want), 'the run ended before the end of the list',
                           got=len(self.s.m.order), want=len(self.want))


def as_arg(rng, lst, L):
    """-> (how, the argument, ids?)"""
    from source_py.simulation.index import Index
    how = rng.choice(['ids', 'ids', 'tuple', 'array', 'idx', 'idx lists', 'idx objects', 'mixed'])
    if how == 'ids':
        return how, list(lst)
    if how == 'tuple':
        return how, tuple(lst)
    if how == 'array':
        return how, np.array(lst)
    pairs = [divmod(s, L) for s in lst]
    if how == 'idx':
        return how, pairs
    if how == 'idx lists':
        return how, [list(p) for p in pairs]
    if how == 'idx objects':
        return how, [Index(*p) for p in pairs]
    return how, [rng.choice([tuple, list, lambda p: Index(*p)])(p) for p in pairs]


def put(o, how, arg, *shuffle):
    (o.set_custome_site_id_list if how in ('ids', 'tuple', 'array') else o.set_custome_site_index_list)(arg, *shuffle)


def plain(arg):
    if isinstance(arg, np.ndarray):
        return arg.tolist()
    return [x if isinstance(x, int) else tuple(x.as_list() if hasattr(x, 'as_list') else x) for x in arg]


def cases(tier, seed):
    rng = random.Random('C15/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 20
    out = []
    for i in range(260 * k):
        out.append(dict(kind='order', cls=['L0', 'base', 'SP', 'L0'][i % 4], L=rng.choice([2, 3, 4, 5, 6, 7, 9, 12]),
                        seed=rng.randrange(10 ** 9)))
    out += [dict(kind='order', cls='L0', L=L, seed=rng.randrange(10 ** 9)) for L in (20, 33, 40)]
    out += [dict(kind='shuffle', cls=['L0', 'base', 'SP'][i % 3], L=rng.choice([3, 4, 5, 6, 9]),
                 seed=rng.randrange(10 ** 9)) for i in range(120 * k)]
    out += [dict(kind='refuse', cls=['L0', 'L1', 'L2', 'SP', 'base'][i % 5], L=rng.choice([2, 3, 4, 5, 7, 10, 16]),
                 seed=rng.randrange(10 ** 9)) for i in range(200 * k)]
    out += [dict(kind='interacting', cls=['L1', 'L2'][i % 2], L=rng.choice([3, 4, 5, 6, 8]),
                 seed=rng.randrange(10 ** 9)) for i in range(80 * k)]
    out += [dict(kind='uniform', cls=c, L=3, via=v, seed=rng.randrange(10 ** 9), n=4000 * (1 if k == 1 else 10))
            for c in ('L0', 'base') for v in ('set', 'reset')]
    return sorted(out, key=lambda c: -c['L'])


def run(case, rec):
    rng = random.Random(case['seed'])
    globals()['run_' + case['kind']](case, rec, rng)
    rec.execution([case[k] for k in ('kind', 'cls', 'L', 'seed')])


def run_order(case, rec, rng):
    cls, L = case['cls'], case['L']
    N = L * L
    mon = InOrder()
    s = Session(rec, cls, L, rng.choice([None, 3]), [mon])
    for real in range(rng.choice([1, 1, 2, 3])):
        if real or rng.random() < .4:
            mon.want = None
            s.reset()
        full, fam = gen.order(rng, L)
        cuts = sorted(rng.sample(range(1, N + 1), min(N, rng.choice([1, 1, 2, 3]))))
        if cls == 'SP':
            cuts = cuts[-1:]
        if rng.random() < .4:
            cuts[-1] = N
        for j, c in enumerate(cuts):
            how, arg = as_arg(rng, full[:c], L)
            keep = plain(arg)
            put(s.obj, how, arg, *rng.choice([(), (), (False,)]))
            mon.want = full[:c]
            rec.check(plain(arg) == keep, 'setting a list changed the list of the caller', how=how)
            if how == 'array' and rng.random() < .5:
                rec.count('aliasing_attempts')
                arg[rng.randrange(len(arg))] = arg[0]
                keep = plain(arg)
            if isinstance(arg, list) and rng.random() < .5:
                rec.count('aliasing_attempts')
                x = rng.random()
                if x < .4:
                    random.Random(1).shuffle(arg)
                elif x < .7:
                    del arg[rng.randrange(len(arg)):]
                else:
                    arg.append(arg[0])
                keep = plain(arg)
            done = len(s.m.order)
            seq = list(s.obj.get_site_id_sequence())
            rec.check(seq == full[:c], 'the sequence reported is not the list given', got=seq, want=full[:c], how=how)
            if rng.random() < .3:
                seq.reverse()       # a copy was handed out
                rec.count('aliasing_attempts')
            if rng.random() < .5:
                s.run()
            else:
                if rng.random() < .5:
                    s.step(rng.randrange(1, N + 1))
                s.step(N + 1)
            rec.check(plain(arg) == keep, 'a run changed the list of the caller', how=how)
            rec.saw('argument', how)
            rec.count('ordered_lists')
            if j:
                rec.count('continued_runs')
            if cls != 'SP':
                rec.check(s.m.order == full[:c], 'the sites placed are not the list given', got=s.m.order,
                          want=full[:c])
                rec.check(s.obj.occupation_prob() == c / N, 'occupation probability after a list is wrong')
                rec.check(s.obj.place_one_site() is False, 'the run goes on after the end of the list')
    # the list stays in force after reset
    if rng.random() < .6:
        s.reset()
        s.run()
        if cls != 'SP':
            rec.check(s.m.order == mon.want, 'the list is not followed again after reset', got=s.m.order,
                      want=mon.want)
    s.log()


def run_shuffle(case, rec, rng):
    cls, L = case['cls'], case['L']
    N = L * L
    s = Session(rec, cls, L, rng.choice([None, 3]))
    for real in range(3):
        s.reset()
        k = rng.choice([N, rng.randrange(1, N + 1), rng.randrange(1, N + 1)])
        lst = rng.sample(range(N), k)
        how, arg = as_arg(rng, lst, L)
        keep = plain(arg)
        put(s.obj, how, arg, True)
        rec.check(plain(arg) == keep, 'shuffling changed the list of the caller', how=how, before=keep,
                  after=plain(arg))
        for rep in range(2):
            seq = list(s.obj.get_site_id_sequence())
            held = s.obj.get_site_id_sequence()
            rec.check(sorted(seq) == sorted(lst), 'a shuffled list has other sites than the list given', got=seq,
                      want=lst)
            if k >= 20:
                rec.check(seq != lst, 'a list to be shuffled was not shuffled', list=lst)
            s.run()
            rec.check(s.m.order == seq[:len(s.m.order)], 'sites were placed in another order than reported',
                      got=s.m.order, want=seq)
            if cls != 'SP':
                rec.check(sorted(s.m.order) == sorted(lst), 'a shuffled list was not placed completely',
                          got=s.m.order, want=lst)
            s.log()
            s.reset()
            rec.check(plain(arg) == keep, 'reset changed the list of the caller', how=how)
            rec.check(list(held) == seq, 'a sequence handed out earlier changed')
            new = list(s.obj.get_site_id_sequence())
            if k >= 20:
                rec.check(new != seq, 'a shuffled list is not shuffled again by reset')
        rec.count('shuffled_lists')


def bad_list(rng, L):
    N = L * L
    lst = rng.sample(range(N), rng.randrange(1, N + 1))
    pos = rng.randrange(len(lst))
    if rng.random() < .5:
        lst[pos] = rng.choice([-1, N, N + 1, -N, 2 * N, 10 ** 9, -rng.randrange(1, 3 * N), N + rng.randrange(N)])
        return 'ids', lst if rng.random() < .8 else tuple(lst)
    from source_py.simulation.index import Index
    prs = [divmod(x, L) for x in lst]
    r, c = prs[pos]
    out = rng.choice([-1, L, L + 1, -L, 2 * L, 10 ** 6, -rng.randrange(1, 4 * L)])
    prs[pos] = rng.choice([(r, out), (out, c), (r, L), (r, -1), (L, c), (-1, c)])
    kind = rng.choice([tuple, list, lambda p: Index(*p)])
    return 'idx', [kind(p) for p in prs]


def run_refuse(case, rec, rng):
    cls, L = case['cls'], case['L']
    N = L * L
    rs = rng.randrange(10 ** 9)
    twins, states = [], []
    for _ in range(2):
        random.seed(rs)
        twins.append(classes()[cls](length=L))
        states.append(random.getstate())
    good = gen.order(rng, L)[0][:rng.randrange(1, N + 1)] if cls in ('L0', 'base', 'SP') and rng.random() < .6 else None
    plan = [rng.choice(['bad', 'bad', 'steps', 'run', 'reset']) for _ in range(rng.randrange(3, 9))] + ['bad', 'run']
    if good:
        plan.insert(rng.randrange(len(plan)), 'good')
    for op in plan:
        k = rng.randrange(1, N + 1)
        if op == 'bad':
            how, arg = bad_list(rng, L)
            shuffle = rng.choice([(), (False,), (True,)])
            keep = plain(arg)
            random.setstate(states[1])
            seq = list(twins[1].get_site_id_sequence())
            try:
                put(twins[1], how, arg, *shuffle)
            except (ValueError, IndexError) as e:    # a refusal, too
                rec.saw('refused by', type(e).__name__)
            rec.check(random.getstate() == states[1], 'a refused list used up random numbers')
            rec.check(list(twins[1].get_site_id_sequence()) == seq, 'an invalid list was not refused', how=how,
                      list=keep, got=list(twins[1].get_site_id_sequence()), L=L)
            rec.check(plain(arg) == keep, 'a refused list was changed')
            rec.count('refused_lists')
            continue
        for i in (0, 1):
            o = twins[i]
            random.setstate(states[i])
            if op == 'good':
                o.reset()
                o.set_custome_site_id_list(list(good))
            elif op == 'run':
                o.run_once()
            elif op == 'reset':
                o.reset()
            else:
                for _ in range(k):
                    if not o.place_one_site():
                        break
                    o.detect_wrapping()
            states[i] = random.getstate()
        a, b = observe(twins[0]), observe(twins[1])
        kk = same(a, b, 0)
        rec.check(kk is None and states[0] == states[1], 'a refused list changed what happens afterwards', what=kk,
                  plan=plan, without=a.get(kk), refused=b.get(kk), L=L, cls=cls)


def run_interacting(case, rec, rng):
    cls, L = case['cls'], case['L']
    N = L * L
    s = Session(rec, cls, L, rng.choice([None, 3]))
    for real in range(2):
        s.reset()
        lst = rng.sample(range(N), rng.choice([1, N, rng.randrange(1, N + 1)]))
        how, arg = as_arg(rng, lst, L)
        keep = plain(arg)
        put(s.obj, how, arg, *rng.choice([(), (True,)]))
        s.run()      # must come to an end
        rec.check(plain(arg) == keep, 'a run changed the list of the caller', how=how)
        rec.check(set(lst) <= set(s.m.order), 'listed sites are empty after the run', missing=sorted(
            set(lst) - set(s.m.order)), list=lst, cls=cls, L=L)
        rec.check(list(s.obj.get_site_id_sequence()) == s.m.order, 'sequence reported is not the one placed')
        near = set(lst)
        reach = 1 if cls == 'L1' else 2
        for x in lst:
            r, c = divmod(x, L)
            for d in range(1, reach + 1):
                near |= {((r + d) % L) * L + c, ((r - d) % L) * L + c, r * L + (c + d) % L, r * L + (c - d) % L}
        rec.check(set(s.m.order) <= near, 'sites were placed which are out of reach of the list', placed=s.m.order,
                  list=lst)
        rec.count('interacting_lists')
        s.log()


def run_uniform(case, rec, rng):
    """all the orders of a list of three are equally frequent"""
    o = classes()[case['cls']](length=3, seed=case['seed'])
    lst = rng.sample(range(9), 3)
    n = {}
    o.set_custome_site_id_list(list(lst), True)
    for _ in range(case['n']):
        if case['via'] == 'set':
            o.set_custome_site_id_list(list(lst), True)
        else:
            o.reset()
        t = tuple(o.get_site_id_sequence())
        n[t] = n.get(t, 0) + 1
    e = case['n'] / 6
    chi2 = sum((v - e) ** 2 / e for v in n.values()) + (6 - len(n)) * e
    rec.count('shuffles', case['n'])
    rec.check(chi2 < 60, 'orders of a shuffled list are not equally frequent', counts=n, chi2=chi2)
