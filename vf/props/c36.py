"""Exchanging two sites of the order of occupation."""
import random

from .. import gen
from ..observe import observe, same
from ..sut import classes

RULE = ('Histories on objects of the models which follow an order (L0, base, SP) with their own order, orders shuffled again by '
        'resets and complete runs, alone or by turns with another object, custom lists of ids or indices, whole and partial, shuffled or not, sometimes refused lists in between. At '
        'random moments many exchanges of two sites still to come; the reported sequence before and after, everything else '
        'that can be read, the random state and the caller\'s list are compared, exchanging twice restores, and the '
        'placements that follow are those of the reported sequence. Execution: one history; non-trivial: more than 5 exchanges; '
        'distinct by class, side and history.')
NEED = dict(monitor_evaluations=5000, exchanges=2000, placements=5000, histories_with_plain_list=100, uses_of_another_object=300)
ASSUMPTIONS = ['side >= 3', 'both sites belong to the order and are not yet occupied']


def cases(tier, seed):
    rng = random.Random('C36/%s/%s' % (seed, tier))
    out = [dict(cls=rng.choice(['L0', 'L0', 'base', 'SP']), L=rng.choice([3, 4, 5, 6, 7, 8, 9, 12]), seed=rng.randrange(10 ** 9))
           for _ in range(500 if tier == 'quick' else 10000)]
    out += [dict(cls=c, L=L, seed=rng.randrange(10 ** 9)) for L in (20, 41, 70) for c in ('L0', 'base', 'SP')]
    return sorted(out, key=lambda c: -c['L'])


def run(case, rec):
    cls, L = case['cls'], case['L']
    N = L * L
    rng = random.Random(case['seed'])
    random.seed(rng.randrange(10 ** 9))
    o = classes()[cls](length=L)
    # sometimes another object of the same side is used by turns
    other = classes()[rng.choice(['L0', 'base', 'SP'])](length=L) if rng.random() < .4 else None
    lat = o.lattice_ref
    occ = lambda x: lat.get_site_gid_by_id(x) >= 0
    done = []           # sites placed in this realization, in order
    mine = None
    log, swaps, plain = [], 0, 0

    def follow(k):
        """k placements, each at the place the sequence tells"""
        for _ in range(k):
            seq = list(o.get_site_id_sequence())
            if len(done) >= len(seq):
                rec.check(not o.place_one_site(), 'a placement after the end of the order', cls=cls, L=L, history=log)
                return
            want = seq[len(done)]
            rec.check(not occ(want), 'the next site of the order is occupied already', site=want, cls=cls, L=L, history=log)
            rec.check(o.place_one_site() and occ(want), 'another site was occupied than the next one of the order', want=want,
                      sequence=seq, placed=len(done), cls=cls, L=L, history=log)
            o.detect_wrapping()
            done.append(want)
            rec.check(abs(o.occupation_prob() * N - len(done)) < 1e-6, 'wrong number of occupied sites', history=log)
            rec.count('placements')

    for _ in range(rng.randrange(2, 7)):
        op = rng.choice(['reset', 'run', 'plain', 'plain', 'plain', 'shuffled', 'refused', 'steps'])
        if op in ('plain', 'shuffled'):
            if done:
                o.reset()
                del done[:]
            order = list(gen.order(rng, L)[0])
            if rng.random() < .4:
                order = order[:rng.randrange(2, len(order) + 1)]
            as_index = rng.random() < .4
            mine = [(x // L, x % L) for x in order] if as_index else list(order)
            copy = list(mine)
            args = (mine,) if op == 'plain' else (mine, True)
            (o.set_custome_site_index_list if as_index else o.set_custome_site_id_list)(*args)
            plain += op == 'plain'
            log.append((op, len(order), as_index))
        elif op == 'reset':
            o.reset()
            del done[:]
            log.append(op)
        elif op == 'run':
            # a whole run, then the next realization
            o.run_once()
            o.reset()
            del done[:]
            log.append(op)
        elif op == 'refused':
            o.set_custome_site_id_list([0, N])
            log.append(op)
        else:
            k = rng.randrange(1, N)
            log.append((op, k))
            follow(k)
        if other is not None:
            op = rng.choice(['reset', 'swap', 'swap', 'list', 'steps'])
            left = [x for x in other.get_site_id_sequence() if other.lattice_ref.get_site_gid_by_id(x) < 0]
            if op == 'reset':
                other.reset()
            elif op == 'list':
                other.reset()
                other.set_custome_site_id_list(gen.order(rng, L)[0], rng.random() < .5)
            elif op == 'swap' and len(left) > 1:
                other.swap_ids(*rng.sample(left, 2))
            elif op == 'steps' and other.place_one_site():
                other.detect_wrapping()
            rec.count('uses_of_another_object')
        for _ in range(rng.choice([1, 3, 10])):
            before = list(o.get_site_id_sequence())
            left = [i for i in range(len(done), len(before))]
            if len(left) < 2:
                break
            i, j = rng.sample(left, 2)
            a, b = before[i], before[j]
            deep = rng.random() < .2 and L < 13
            state, look = random.getstate(), observe(o) if deep else None
            again = rng.random()
            log.append(('swap', a, b))
            if again < .1:
                want, res = before, o.swap_ids(a, a)
            else:
                o.swap_ids(a, b)
                want = list(before)
                want[i], want[j] = b, a
                if again < .25:
                    o.swap_ids(*rng.choice([(a, b), (b, a)]))
                    want = before
            swaps += 1
            got = list(o.get_site_id_sequence())
            rec.check(got == want, 'an exchange of two sites did not exchange exactly these two', a=a, b=b, before=before, after=got,
                      cls=cls, L=L, history=log)
            rec.check(sorted(got) == sorted(before), 'an exchange changed the set of sites', history=log)
            if rng.random() < .3:
                rows = [list(x) for x in o.get_index_sequence()]
                rec.check(rows == [list(divmod(x, L)) for x in want], 'the sequence of indices does not follow an exchange', a=a, b=b,
                          cls=cls, L=L, history=log)
            rec.check(random.getstate() == state, 'an exchange consumed random numbers', cls=cls, L=L, history=log)
            if deep:
                k = same(look, observe(o), 0)
                rec.check(k is None or k in ('sequence', 'index sequence'), 'an exchange changed something else', what=k, cls=cls,
                          L=L, history=log)
            if mine is not None:
                rec.check(mine == copy, 'an exchange changed the list of the caller', history=log)
        follow(rng.choice([0, 1, 5, N + 1]))
    follow(N + 1)
    rec.count('exchanges', swaps)
    rec.count('histories_with_plain_list', 1 if plain else 0)
    rec.saw('sides', L)
    rec.execution((cls, L, str(log)), swaps > 5)
    rec.sample(dict(cls=cls, L=L, history=log[:8]))
