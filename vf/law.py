"""Observed placements of the interacting models against their law of selection.

For every placement of a run: the weights of all empty sites by the law, given the sites occupied
before; then for many features the observed value minus its expectation (a martingale difference)
and its variance.  Sums over runs are judged in stats.martingales.
"""
import copy
import pickle
import random

import numpy as np

from .sut import classes


def place_all(o, N):
    """-> order of occupation, attempts"""
    g = o.lattice_ref.get_site_gid_by_id
    empty = set(range(N))
    order = []
    n = 0
    while True:
        n += 1
        if n > 2000 * N + 20000:
            return order, n
        before = o.occupation_prob()
        if not o.place_one_site():
            return order, n
        if o.occupation_prob() != before:
            h = getattr(o, 'selected_id', None)
            if not (h in empty and g(h) >= 0):
                h = next(s for s in empty if g(s) >= 0)
            order.append(h)
            empty.discard(h)
            o.detect_wrapping()


def behind(a, d, k, L):
    """value of a at the site k steps against direction d, for every site (a: T x L x L)"""
    return np.roll(a, (k * d[0], k * d[1]), axis=(1, 2))


DIRS = dict(right=(0, 1), down=(1, 0), left=(0, -1), up=(-1, 0))


def weights(occ, model, L):
    w = np.ones(occ.shape)
    for d in DIRS.values():
        y = behind(occ, d, 1, L)
        w += .25 * y
        if model == 'L2':
            w += .25 * (y & behind(occ, d, 2, L))
    return np.where(occ, 0.0, w)


def features(occ, age, L):
    """{name: T x L x L array of 0/1 (or bounded) values}"""
    T = occ.shape[0]
    row = np.broadcast_to(np.arange(L)[None, :, None], occ.shape)
    col = np.broadcast_to(np.arange(L)[None, None, :], occ.shape)
    f = {}
    nocc = sum(behind(occ, d, 1, L).astype(int) for d in DIRS.values())
    for k in range(5):
        f['%d occupied neighbors' % k] = nocc == k
    cramped = behind_any(occ & (nocc >= 3), L)
    f['next to an occupied site with one free side'] = cramped
    f['next to an occupied site with four occupied or own sides'] = behind_any(occ & (nocc >= 4), L)
    old = age < np.arange(T)[:, None, None] / 4          # placed in the first quarter so far
    f['next to an old site'] = behind_any(occ & old, L)
    f['next to the latest site'] = behind_any(age == (np.arange(T) - 1)[:, None, None], L)
    both_any = np.zeros(occ.shape, bool)
    for n, d in DIRS.items():
        y = behind(occ, d, 1, L)
        x = behind(occ, d, 2, L)
        # the site one (two) steps behind lies across the periodic boundary
        e1 = {'right': col < 1, 'down': row < 1, 'left': col >= L - 1, 'up': row >= L - 1}[n]
        e2 = {'right': col == 1, 'down': row == 1, 'left': col == L - 2, 'up': row == L - 2}[n]
        f['occupied behind, moving ' + n] = y
        f['two occupied behind, moving ' + n] = y & x
        f['second behind only, moving ' + n] = x & ~y
        f['occupied across the boundary, moving ' + n] = y & e1
        f['two occupied across the boundary, moving ' + n] = y & x & e1
        f['two occupied, boundary between them, moving ' + n] = y & x & e2
        f['occupied behind in an even row, moving ' + n] = y & behind(row % 2 == 0, d, 1, L)
        f['occupied behind in an even column, moving ' + n] = y & behind(col % 2 == 0, d, 1, L)
        both_any |= y & x
    enclosed = occ & (nocc == 4)
    pushes = sum((behind(occ, d, 1, L) & behind(enclosed, d, 2, L)).astype(int) for d in DIRS.values())
    f['pushed by an enclosed site'] = pushes > 0
    f['number of pushes by enclosed sites'] = pushes
    f['pushed by one enclosed site only'] = (pushes == 1) & (nocc < 4)
    f['pushed from somewhere'] = both_any
    f['pushed from nowhere'] = ~both_any & (nocc > 0)
    f['first row'] = row == 0
    f['last row'] = row == L - 1
    f['first column'] = col == 0
    f['last column'] = col == L - 1
    f['even row'] = row % 2 == 0
    f['even column'] = col % 2 == 0
    f['corner'] = ((row == 0) | (row == L - 1)) & ((col == 0) | (col == L - 1))
    f['diagonal'] = row == col
    f['id'] = (row * L + col) / (L * L)
    return f


def behind_any(a, L):
    out = np.zeros(a.shape, bool)
    for d in DIRS.values():
        out |= behind(a, d, 1, L)
    return out


def judge_run(order, model, L, acc, tag):
    """adds to acc[name] = [sum, variance, n]"""
    N = L * L
    T = len(order)
    age = np.full((T, N), 10 ** 9)
    occ = np.zeros((T, N), bool)
    for t, s in enumerate(order):
        occ[t + 1:, s] = True
        age[t + 1:, s] = t
    occ = occ.reshape(T, L, L)
    age = age.reshape(T, L, L)
    w = weights(occ, model, L)
    p = (w / w.sum(axis=(1, 2), keepdims=True)).reshape(T, N)
    idx = np.arange(T)
    phase = (idx * 4) // T
    for name, F in features(occ, age, L).items():
        F = F.reshape(T, N).astype(float)
        mean = (F * p).sum(1)
        var = np.maximum((F * F * p).sum(1) - mean ** 2, 0)
        dev = F[idx, order] - mean
        for ph in range(4):
            sel = phase == ph
            a = acc.setdefault('m/%s/quarter %d' % (name, ph + 1), [0.0, 0.0, 0])
            a[0] += dev[sel].sum()
            a[1] += var[sel].sum()
            a[2] += int(sel.sum())
        for key in ('all', 'L=%d' % L, tag):
            a = acc.setdefault('m/%s/%s' % (name, key), [0.0, 0.0, 0])
            a[0] += dev.sum()
            a[1] += var.sum()
            a[2] += T


def cases(model, tier, seed):
    rng = random.Random('%s/%s/%s' % (model, seed, tier))
    out = []
    k = 1 if tier == 'quick' else 25
    for L, n, reps in ((3, 260, 16), (4, 160, 16), (5, 110, 16), (6, 80, 16), (7, 60, 12), (8, 45, 12), (10, 28, 12),
                       (11, 22, 8), (16, 8, 8), (25, 2, 8), (36, 1, 4), (48, 1, 8)):
        for i in range(reps * k):
            out.append(dict(kind='law', cls=model, L=L, n=n, how=['fresh', 'reset', 'seeded', 'reset'][i % 4],
                            seed=rng.randrange(10 ** 9)))
    return out + frozen_cases(model, tier, seed)


def run(case, rec):
    if case['kind'] == 'frozen':
        return run_frozen(case, rec)
    model, L = case['cls'], case['L']
    N = L * L
    random.seed(case['seed'])
    make = classes()[model]
    o = make(length=L, seed=case['seed']) if case['how'] == 'seeded' else make(length=L)
    acc = {}
    for i in range(case['n']):
        if case['how'] == 'fresh':
            o = make(length=L)
        else:
            o.reset()
        order, attempts = place_all(o, N)
        rec.count('realizations')
        rec.count('attempts', attempts)
        rec.count('placements', len(order))
        if sorted(order) != list(range(N)):
            rec.violation('a realization does not occupy every site once', order=order, L=L, cls=model)
        rec.execution((L, tuple(order)))
        judge_run(order, model, L, acc, case['how'])
    for k, v in acc.items():
        rec.add(k, v)
    rec.saw('sides', L)
    rec.sample(dict(cls=model, L=L, how=case['how'], order=order[:20]))


# The next selection from one and the same state, many times.

def frozen_cases(model, tier, seed):
    rng = random.Random('frozen/%s/%s/%s' % (model, seed, tier))
    out = []
    k = 1 if tier == 'quick' else 40
    for L, reps, samples in ((3, 40, 1200), (4, 64, 1200), (5, 64, 1200), (6, 24, 1200), (7, 8, 1000)):
        for i in range(reps * k):
            out.append(dict(kind='frozen', cls=model, L=L, samples=samples, before=[0, 1, 1, 2, 5][i % 5],
                            seed=rng.randrange(10 ** 9)))
    return out


def copier(o, remake):
    """-> function making equal objects"""
    for via in (lambda: pickle.dumps(o, -1), lambda: copy.deepcopy(o) and None):
        try:
            data = via()
        except Exception:
            continue
        if data is not None:
            return 'pickle', lambda: pickle.loads(data)
        return 'deepcopy', lambda: copy.deepcopy(o)
    return 'repeated', remake


def run_frozen(case, rec):
    model, L = case['cls'], case['L']
    N = L * L
    rng = random.Random(case['seed'])
    plan = [rng.choice([N, N, N, rng.randrange(1, N)]) for _ in range(case['before'])]
    # so that few, several or many sites are empty
    stop = N - rng.choice([rng.randrange(2, N), rng.randrange(2, max(4, N // 2)), rng.randrange(2, max(5, N // 4)),
                           rng.randrange(2, max(5, N // 4)), rng.randrange(2, 5)])
    idle = rng.choice([0, 20 * N, 60 * N, 60 * N])

    def step(o):
        """-> the site occupied, or None, or 'end'"""
        before = o.occupation_prob()
        if not o.place_one_site():
            return 'end'
        if o.occupation_prob() == before:
            return None
        return True

    def prepare():
        random.seed(case['seed'])
        o = classes()[model](length=L)
        for n in plan:
            k = 0
            while k < n:
                r = step(o)
                if r == 'end':
                    break
                k += r is True
            o.reset()
        k = 0
        while k < stop:
            r = step(o)
            if r == 'end':
                rec.violation('a realization ends although sites are empty', cls=model, L=L, placed=k, plan=plan)
            k += r is True
        # attempts which fail leave traces in the state but must not change the law: go on with the failing ones only
        how, twin = copier(o, None)
        if how == 'repeated':
            return o
        since = []
        for i in range(idle):
            if len(since) > 40:
                how, twin = copier(o, None)
                since = []
            random.seed('%d/idle/%d' % (case['seed'], i))
            if step(o) is None:
                since.append(i)
                rec.count('failed_attempts_kept')
                continue
            o = twin()
            for j in since:
                random.seed('%d/idle/%d' % (case['seed'], j))
                step(o)
        return o

    o = prepare()
    g = o.lattice_ref.get_site_gid_by_id
    occ = np.array([g(i) >= 0 for i in range(N)]).reshape(1, L, L)
    if not occ.any() or occ.sum() != round(o.occupation_prob() * N):
        rec.violation('occupation and the number of occupied sites differ', cls=model, L=L)
    w = weights(occ, model, L).reshape(N)
    p = w / w.sum()
    how, twin = copier(o, prepare)
    rec.saw('copied by', how)
    n = case['samples'] if how != 'repeated' else case['samples'] // 10
    counts = np.zeros(N, int)
    empties = [int(i) for i in np.flatnonzero(~occ.reshape(N))]
    limit = 3000 * N + 20000
    for i in range(n):
        t = twin()
        random.seed('%d/%d' % (case['seed'], i))
        tries = 0
        while True:
            r = step(t)
            tries += 1
            if r == 'end' or tries > limit:
                rec.violation('a realization ends, or does not go on, although sites are empty', cls=model, L=L, occupied=
                              occ.reshape(N).astype(int).tolist(), history=plan, attempts=tries)
            if r:
                break
        g = t.lattice_ref.get_site_gid_by_id
        h = getattr(t, 'selected_id', None)
        if not (h in empties and g(h) >= 0):
            h = next(s for s in empties if g(s) >= 0)
        counts[h] += 1
        rec.count('attempts', tries)
    rec.count('frozen_states')
    rec.count('frozen_selections', n)
    e = n * p[empties]
    c = counts[empties]
    if len(empties) > 1:
        x2 = float(((c - e) ** 2 / e).sum())
        rec.add('x2/all', [x2, len(empties) - 1])
        rec.add('x2/L=%d' % L, [x2, len(empties) - 1])
        rec.add('x2/' + ('first realization' if not case['before'] else 'after resets'), [x2, len(empties) - 1])
        rec.add('x2/' + ('few empty' if len(empties) <= N // 3 else 'many empty'), [x2, len(empties) - 1])
        for name, F in features(occ, np.where(occ.reshape(1, N), 0, 10 ** 9).reshape(1, L, L), L).items():
            F = F.reshape(N).astype(float)[empties]
            q = p[empties]
            mean = (F * q).sum()
            rec.add('m/from one state, ' + name, [float((F * c).sum() - n * mean), float(n * ((F * F * q).sum() - mean ** 2)), n])
        F = w[empties]
        mean = (F * p[empties]).sum()
        rec.add('m/from one state, weight', [float((F * c).sum() - n * mean),
                                             float(n * ((F * F * p[empties]).sum() - mean ** 2)), n])
        z = (c - e) / np.sqrt(e * (1 - p[empties]))
        k = int(np.abs(z).argmax())
        if abs(z[k]) > 7.5:
            rec.violation('the next site does not follow the law', cls=model, L=L, site=empties[k], selected=int(c[k]),
                          expected=round(float(e[k]), 1), of=n, occupied=occ.reshape(N).astype(int).tolist(), history=plan)
    rec.execution(('frozen', L, plan, occ.reshape(N).astype(int).tolist()))


def frozen_verdict(agg, rec, rep):
    from . import stats
    for name, v in sorted(agg.sums.items()):
        if name.startswith('x2/'):
            x2, dof = v
            stats.verdict(rec, rep, 'next site from one state, ' + name[3:], stats.chi2_z(x2, dof),
                          'chi-square %.1f, %d degrees of freedom' % (x2, dof))
