"""Orders in which the sites are occupied: random ones, and shapes chosen to reach
rare situations (late wrapping, helical windings, two disjoint wrapping clusters,
holes closed by one cluster, joins of four clusters, ties of cluster sizes...).
All are deterministic functions of the random.Random passed in."""


def _uniq(seq):
    return list(dict.fromkeys(seq))


def _random(rng, L):
    o = list(range(L * L))
    rng.shuffle(o)
    return o


def _rows(rng, L):
    return list(range(L * L))


def _boustro(rng, L):
    o = []
    for r in range(L):
        c = list(range(L))
        o += [r * L + x for x in (c if r % 2 == 0 else c[::-1])]
    return o


def _spiral(rng, L):
    t, b, l, r = 0, L - 1, 0, L - 1
    o = []
    while t <= b and l <= r:
        o += [t * L + c for c in range(l, r + 1)]
        o += [x * L + r for x in range(t + 1, b + 1)]
        o += [b * L + c for c in range(r - 1, l - 1, -1)]
        o += [x * L + l for x in range(b - 1, t, -1)]
        t, b, l, r = t + 1, b - 1, l + 1, r - 1
    o = _uniq(o)
    return o if rng.random() < .5 else o[::-1]


def _checker(rng, L):
    a = [s for s in range(L * L) if (s // L + s % L) % 2 == 0]
    b = [s for s in range(L * L) if (s // L + s % L) % 2]
    rng.shuffle(a)
    rng.shuffle(b)
    return a + b


def _stripes(rng, L):
    """rows with a period, each but for one gap; the gaps and connections come later"""
    k = rng.choice([2, 2, 3])
    body, gaps, rest = [], [], []
    for r in range(L):
        g = rng.randrange(L)
        for c in range(L):
            (rest if r % k else (gaps if c == g else body)).append(r * L + c)
    for x in (body, gaps, rest):
        rng.shuffle(x)
    return body + (gaps + rest if rng.random() < .6 else rest + gaps)


def _comb(rng, L):
    spine = [c for c in range(L)]
    teeth = [r * L + c for c in range(0, L, 2) for r in range(1, L - 1)]
    if rng.random() < .5:
        rng.shuffle(teeth)
    rest = [s for s in range(L * L) if s not in set(spine) | set(teeth)]
    rng.shuffle(rest)
    return (spine[:-1] + teeth + rest + spine[-1:]) if rng.random() < .5 else (teeth + spine + rest)


def _helix(rng, L):
    """staircase with winding (a, b), then the rest"""
    a, b = rng.choice([(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, -1), (2, -1), (1, 0), (0, 1)])
    if L >= 8 and rng.random() < .45:  # around both directions more than once before it closes
        a, b = rng.choice([(2, 3), (3, 2), (2, -3), (3, -2)] + [(2, 5), (3, 4), (4, -3)] * (L >= 16))
    if (a, b) not in ((1, 0), (0, 1)) and rng.random() < .3:
        a, b = b, a
    nr, nc = abs(a) * L, abs(b) * L
    moves = [(1 if a > 0 else -1, 0)] * nr + [(0, 1 if b > 0 else -1)] * nc
    many = min(abs(a), abs(b)) > 1
    if rng.random() < (.1 if many else .5):
        rng.shuffle(moves)
    else:  # evenly mixed
        moves = []
        i = j = 0
        while i < nr or j < nc:
            if j >= nc or (i < nr and i * nc <= j * nr):
                moves.append((1 if a > 0 else -1, 0))
                i += 1
            else:
                moves.append((0, 1 if b > 0 else -1))
                j += 1
    r = c = 0
    path = []
    for dr, dc in moves:
        path.append((r % L) * L + c % L)
        r, c = r + dr, c + dc
    path = _uniq(path)
    rest = [s for s in range(L * L) if s not in set(path)]
    rng.shuffle(rest)
    k = rng.random()
    if k < .4:
        rng.shuffle(path)
    elif k < .7 and len(path) > 2:  # closed at some other place than its beginning
        k = rng.randrange(len(path))
        path = path[k:] + path[:k]
    return path + rest


def _two_bands(rng, L):
    """first a crooked wrapping cluster, then a straight complete row elsewhere, then a bridge"""
    if L < 6:
        return _stripes(rng, L)
    r0 = 0
    w1 = []
    r = r0
    cut = sorted(rng.sample(range(L), 2))
    for c in range(L):
        w1.append(r * L + c)
        if c in cut:
            r = 1 if r == 0 else 0
            w1.append(r * L + c)
    w1 = _uniq(w1)
    if w1[-1] // L != 0:
        w1.append(L - 1)
    row = rng.randrange(3, L - 1)
    w2 = [row * L + c for c in range(L)]
    if rng.random() < .5:
        rng.shuffle(w2)
    if rng.random() < .5:
        rng.shuffle(w1)
    c = rng.randrange(L)
    bridge = [x * L + c for x in range(1, row)]
    if rng.random() < .5:
        rng.shuffle(bridge)
    rest = [s for s in range(L * L) if s not in set(w1) | set(w2) | set(bridge)]
    rng.shuffle(rest)
    j = rng.randrange(0, max(1, L // 2))
    first = w1 + w2 if rng.random() < .7 else w2 + w1
    return _uniq(first + rest[:j] + bridge + rest)


def _cross_last(rng, L):
    """everything but one row and one column: a giant cluster which does not wrap until the end"""
    r0, c0 = rng.randrange(L), rng.randrange(L)
    body = [s for s in range(L * L) if s // L != r0 and s % L != c0]
    cross = [s for s in range(L * L) if s // L == r0 or s % L == c0]
    rng.shuffle(body)
    rng.shuffle(cross)
    return body + cross


def _eden(rng, L):
    """growth from one to four seeds"""
    N = L * L
    from .model import nb
    NB = nb(L)
    k = rng.choice([1, 1, 2, 3, 4])
    seeds = rng.sample(range(N), min(k, N))
    o, front = [], []
    inside = set()

    def add(s):
        o.append(s)
        inside.add(s)
        for t, _ in NB[s]:
            if t not in inside:
                front.append(t)
    for s in seeds:
        if s not in inside:
            add(s)
    while len(o) < N:
        i = rng.randrange(len(front)) if rng.random() < .8 else len(front) - 1
        front[i], front[-1] = front[-1], front[i]
        t = front.pop()
        if t not in inside:
            add(t)
    return o


def _tree(rng, L):
    """one cluster grown without loops as long as possible, loops are closed at the end"""
    N = L * L
    from .model import nb
    NB = nb(L)
    s = rng.randrange(N)
    o, inside, late = [s], {s}, []
    front = [t for t, _ in NB[s]]
    while front:
        i = rng.randrange(len(front))
        front[i], front[-1] = front[-1], front[i]
        t = front.pop()
        if t in inside:
            continue
        if sum(1 for u, _ in NB[t] if u in inside) > 1:
            late.append(t)
            continue
        o.append(t)
        inside.add(t)
        front += [u for u, _ in NB[t] if u not in inside]
    rest = [x for x in range(N) if x not in inside]
    rng.shuffle(rest)
    return o + rest


def _rings(rng, L):
    """rings with a hole; holes filled afterwards: all four neighbors in one cluster"""
    ring, hole, rest = [], [], []
    for r in range(L):
        for c in range(L):
            s = r * L + c
            rr, cc = r % 4, c % 4
            if rr < 3 and cc < 3 and (r // 4) * 4 + 3 <= L and (c // 4) * 4 + 3 <= L:
                (hole if rr == 1 and cc == 1 else ring).append(s)
            else:
                rest.append(s)
    for x in (ring, hole, rest):
        rng.shuffle(x)
    return ring + hole + rest if rng.random() < .6 else ring + rest + hole


def _blocks(rng, L):
    """blocks of equal size separated by lines, lines filled afterwards: ties and multiple joins"""
    k = rng.choice([2, 3, 4])
    blk = [s for s in range(L * L) if (s // L) % k != k - 1 and (s % L) % k != k - 1]
    nodes = [s for s in range(L * L) if (s // L) % k == k - 1 and (s % L) % k == k - 1]
    lines = [s for s in range(L * L) if s not in set(blk) | set(nodes)]
    for x in (blk, nodes, lines):
        rng.shuffle(x)
    return blk + (lines + nodes if rng.random() < .5 else nodes + lines)


def _perturbed(rng, L):
    o = _rows(rng, L) if rng.random() < .5 else _spiral(rng, L)
    for _ in range(max(1, L * L // 5)):
        i, j = rng.randrange(L * L), rng.randrange(L * L)
        o[i], o[j] = o[j], o[i]
    return o


def coil(rng, L):
    """a path of straight lines joined by single sites, which goes around about L / 2 times before it closes or not.
    Not one of the families, since most of them would be used less often by that"""
    path, col, first = [], 0, 0
    for row in range(0, L - 1, 2):
        n = L - 1 if rng.random() < .8 else rng.randrange(2, L)
        path += [row * L + (col + k) % L for k in range(n)]
        col = (col + n - 1) % L
        if row + 2 < L - 1:
            path.append((row + 1) * L + col)
    gap = [r * L + col for r in range(row + 1, L)]  # one path from the end to the first row
    k = rng.random()
    if k < .4:
        rng.shuffle(path)
    elif k < .6:
        path.reverse()
    elif k < .8:
        n = rng.randrange(len(path))
        path = path[n:] + path[:n]
    rest = [x for x in range(L * L) if x not in set(path) | set(gap)]
    rng.shuffle(rest)
    return apply_symmetry(symmetry(rng), L, path + gap + rest)


FAMILIES = dict(random=_random, rows=_rows, boustro=_boustro, spiral=_spiral, checker=_checker,
                stripes=_stripes, comb=_comb, helix=_helix, two_bands=_two_bands,
                cross_last=_cross_last, eden=_eden, tree=_tree, rings=_rings, blocks=_blocks,
                perturbed=_perturbed)
NAMES = sorted(FAMILIES)


def symmetry(rng):
    return dict(dr=rng.randrange(1 << 20), dc=rng.randrange(1 << 20), fr=rng.random() < .5,
                fc=rng.random() < .5, tr=rng.random() < .5)


def apply_symmetry(sym, L, order):
    out = []
    for s in order:
        r, c = divmod(s, L)
        if sym['tr']:
            r, c = c, r
        if sym['fr']:
            r = L - 1 - r
        if sym['fc']:
            c = L - 1 - c
        out.append(((r + sym['dr']) % L) * L + (c + sym['dc']) % L)
    return out


def order(rng, L, family=None):
    """a permutation of all the sites and the name of its family"""
    if family is None:
        family = 'random' if rng.random() < .3 else rng.choice(NAMES)
    o = FAMILIES[family](rng, L)
    assert sorted(o) == list(range(L * L)), (family, L)
    return apply_symmetry(symmetry(rng), L, o), family
