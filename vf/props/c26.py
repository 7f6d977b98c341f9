"""The crossing of two curves is located: the step of the first strongest change of sign of their difference."""
import contextlib
import io
import random

import numpy as np

from ..core import HarnessError

RULE = ('Pairs of curves (wrapping curves of real ensembles of two sizes read at common probabilities, polynomials, '
        'staircases, random walks, constructed with one, several, touching and no crossings at every place, of 2 to 2000 '
        'points, integer and real, also as columns of tables of 1 to 6 columns, views and reversed views) are given to '
        'the helper functions; the index is compared with a scan in plain Python, with the constructed crossing, and '
        'with the plotting variant (on a recording axis); inputs must stay as they were; the lines drawn for axes are '
        'checked point by point. Execution: one pair; non-trivial: the curves cross; distinct by values.')
NEED = dict(monitor_evaluations=4000, single_crossings=300, several_crossings=200, touching=100, no_crossing=50, tables=300,
            real_curves=10, lines_drawn=200)
ASSUMPTIONS = ['curves are real or signed integer arrays of equal length >= 2 without NaN']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 40
    out = [dict(kind='pairs', n=60, seed='%s/%s/%d' % (seed, tier, i)) for i in range(24 * k)]
    out += [dict(kind='real', seed='%s/%s/r%d' % (seed, tier, i), L=[a, b])
            for i, (a, b) in enumerate([(4, 8), (5, 10), (6, 12), (8, 16)] * (1 if tier == 'quick' else 5))]
    out += [dict(kind='lines', seed='%s/%s/l%d' % (seed, tier, i)) for i in range(8)]
    return out


def sign(x):
    return (x > 0) - (x < 0)


def scan(a, b):
    best, at = -1, 0
    for i in range(len(a) - 1):
        d = abs(sign(a[i + 1] - b[i + 1]) - sign(a[i] - b[i]))
        if d > best:
            best, at = d, i
    return at, best


class Axis:
    def __init__(self):
        self.drawn = []

    def plot(self, x, y, *a, **kw):
        self.drawn.append((np.array(x, float), np.array(y, float)))
        return []

    def __getattr__(self, name):
        return lambda *a, **kw: None


def pair(rng):
    n = rng.choice([2, 2, 3, 3, 4, 5, 7, 10, 33, 100, 400, 2000])
    shape = rng.choice(['line', 'walk', 'stairs', 'one', 'one', 'touch', 'none', 'signs', 'ints', 'tiny', 'huge'])
    if shape == 'line':
        k = rng.uniform(-1, n)
        a = [rng.choice([1, -1]) * 0.0 + (i - k) * .01 for i in range(n)]
        b = [0.0] * n
    elif shape == 'walk':
        x, a = 0.0, []
        for i in range(n):
            x += rng.gauss(0, 1)
            a.append(x)
        b = [rng.gauss(0, .5) for i in range(n)]
    elif shape == 'stairs':
        a = [float(rng.randrange(3)) for i in range(n)]
        b = [float(rng.randrange(3)) for i in range(n)]
    elif shape == 'one':
        k, s = rng.randrange(1, n), rng.choice([1, -1])
        b = [rng.gauss(0, 10) for i in range(n)]
        a = [b[i] + (s if i >= k else -s) * (1e-6 + rng.random()) for i in range(n)]
    elif shape == 'touch':
        k, s = rng.randrange(n), rng.choice([1, -1])
        b = [rng.uniform(0, 1) for i in range(n)]
        through = rng.random() < .6
        a = [b[i] if i == k else b[i] + (s if i > k or not through else -s) * rng.uniform(.1, 1) for i in range(n)]
    elif shape == 'none':
        b = [rng.uniform(0, 1) for i in range(n)]
        a = [x + rng.uniform(.1, 1) for x in b] if rng.random() < .5 else list(b)
    elif shape == 'signs':
        b = [rng.uniform(-1, 1) for i in range(n)]
        a = [x + rng.choice([-1, 0, 1]) * rng.choice([1, .5]) for x in b]
    elif shape == 'ints':
        a = [rng.randrange(-5, 6) for i in range(n)]
        b = [rng.randrange(-5, 6) for i in range(n)]
    elif shape == 'tiny':
        a = [rng.choice([-1, 0, 1]) * 1e-300 for i in range(n)]
        b = [0.0] * n
    else:
        a = [rng.choice([-1, 1]) * 1e300 * rng.random() for i in range(n)]
        b = [rng.choice([-1, 1]) * 1e2 * rng.random() for i in range(n)]
    if rng.random() < .5:
        a, b = b, a
    return a, b, shape


def arrange(rng, a, b):
    """the same curves as arrays, views or columns -> line1, line2, col"""
    x, y = np.array(a), np.array(b)
    how = rng.choice(['plain', 'plain', 'table', 'table', 'table', 'view', 'reversed', 'swapped'])
    if how == 'table':
        w = rng.randrange(1, 7)
        col = rng.randrange(w)
        g = np.random.default_rng(rng.randrange(10 ** 9))
        X, Y = g.normal(size=(len(a), w)), g.normal(size=(len(a), w))
        X, Y = X.astype(x.dtype), Y.astype(y.dtype)
        X[:, col], Y[:, col] = x, y
        if rng.random() < .3:
            X, Y = np.asfortranarray(X), np.asfortranarray(Y)
        if rng.random() < .2:
            col -= w
        return X, Y, col
    if how == 'view':
        X, Y = np.zeros(2 * len(a), x.dtype), np.ones(3 * len(a), y.dtype)
        X[::2], Y[::3] = x, y
        return X[::2], Y[::3], None
    if how == 'reversed':
        return x[::-1].copy()[::-1], y[::-1].copy()[::-1], None
    return x, y, None


def judge(rec, l1, l2, col, a, b, what):
    from source_py.analyze import lines
    k1, k2 = l1.copy(), l2.copy()
    want, strength = scan(a, b)
    with contextlib.redirect_stdout(io.StringIO()):
        got = lines.find_intersection(l1, l2) if col is None else lines.find_intersection(l1, l2, col)
    rec.check(int(got) == want, 'the crossing is located elsewhere', got=int(got), want=want, shape=what, n=len(a),
              a=a[:12], b=b[:12])
    ax = Axis()
    with contextlib.redirect_stdout(io.StringIO()):
        got2 = lines.find_intersection_and_plot(l1, l2, col, ax) if col is not None else \
            lines.find_intersection_and_plot(l1, l2, ax=ax)
    rec.check(int(got2) == want, 'the plotting variant locates the crossing elsewhere', got=int(got2), want=want, shape=what)
    rec.check(bool((l1 == k1).all() and (l2 == k2).all()), 'the curves were changed')
    rec.check(len(ax.drawn) >= 1 and all(x.shape == y.shape for x, y in ax.drawn), 'what is plotted does not fit together',
              shapes=[(x.shape, y.shape) for x, y in ax.drawn])
    back = lines.find_intersection(l2, l1) if col is None else lines.find_intersection(l2, l1, col)
    rec.check(int(back) == want, 'the crossing depends on which curve is named first', got=int(back), want=want)
    rec.count('pairs')
    if col is not None:
        rec.count('tables')
    n2 = sum(1 for i in range(len(a) - 1) if sign(a[i] - b[i]) * sign(a[i + 1] - b[i + 1]) < 0)
    rec.count('single_crossings' if n2 == 1 else 'several_crossings' if n2 else 'touching' if strength == 1 else 'no_crossing')
    if n2:
        rec.check(sign(a[want] - b[want]) * sign(a[want + 1] - b[want + 1]) < 0, 'the curves do not cross at the index')
    rec.execution((list(a), list(b), col), n2 > 0)
    return want


def run(case, rec):
    rng = random.Random(case['seed'])
    from source_py.analyze import lines
    if case['kind'] == 'pairs':
        for _ in range(case['n']):
            a, b, shape = pair(rng)
            judge(rec, *arrange(rng, a, b), a, b, shape)
            rec.saw('shapes', shape)
    elif case['kind'] == 'real':
        from ..sut import classes
        random.seed(rng.randrange(10 ** 9))
        for cls in ('L0', 'L1', 'L2'):
            tabs = []
            for L in case['L']:
                acc = 0
                o = classes()[cls](length=L)
                for _ in range(12):
                    o.reset()
                    o.run_once()
                    acc = acc + np.array(o.get_data_array())
                tabs.append(acc / 12)
            # the larger one read at the probabilities of the smaller one
            step = (case['L'][1] // case['L'][0]) ** 2
            A, B = tabs[0], tabs[1][step - 1::step]
            if A.shape != B.shape or abs(A[:, 0] - B[:, 0]).max() > 1e-12:
                raise HarnessError('rows do not correspond')
            for col in (1, 2, 3):
                judge(rec, A, B, col, A[:, col].tolist(), B[:, col].tolist(), 'real')
                rec.count('real_curves')
    else:
        for _ in range(60):
            v, lo, hi = rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(-5, 5)
            n = rng.choice([2, 3, 5, 10, 100, 101, 1000])
            pts = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
            for f, along, name in ((lines.draw_vertical_line_at, 1, 'vertical'), (lines.draw_horizontal_line_at, 0, 'horizontal')):
                xy = f(v, (lo, hi), n)
                rec.check(len(xy) == 2 and len(xy[0]) == len(xy[1]) == n, 'a line has another number of points', line=name)
                rec.check(all(abs(t - v) < 1e-12 for t in xy[1 - along]), 'a line is not where it should be', line=name,
                          got=list(xy[1 - along][:3]), want=v)
                rec.check(all(abs(t - u) < 1e-9 for t, u in zip(xy[along], pts)), 'a line does not run through its range',
                          line=name)
                rec.count('lines_drawn')
            x, y = lines.draw_vertical_line_at(v)
            rec.check(len(x) == len(y) == 100 and y[0] == 0 and y[-1] == 1, 'default vertical line is wrong')
            x, y = lines.draw_horizontal_line_at(v, (lo, hi))
            rec.check(len(x) == len(y) == 100 and abs(x[0] - lo) < 1e-12, 'default horizontal line is wrong')
        rec.execution(('lines', case['seed']))
    rec.sample(dict(case, n=case.get('n')))
