"""Reference models of site percolation on the periodic square lattice.

Nothing here imports or imitates the code under test: `Model` is a weighted
union-find with winding vectors, `brute` recomputes everything from the set of
occupied sites by breadth first search.  `selftest` checks one against the
other (setup runs it), so an error of the oracle does not go unnoticed.
"""
import math
from collections import deque

DIRS = ((0, 1), (1, 0), (0, -1), (-1, 0))  # right, bottom, left, top


def neighbors(L):
    """neighbors[s] = [(site, (dr, dc)), ...] in DIRS order."""
    out = []
    for s in range(L * L):
        r, c = divmod(s, L)
        out.append([(((r + dr) % L) * L + (c + dc) % L, (dr, dc)) for dr, dc in DIRS])
    return out


_NB = {}


def nb(L):
    if L not in _NB:
        _NB[L] = neighbors(L)
    return _NB[L]


def site_bonds(L, s):
    """bond ids as documented: horizontal bond of (r,c) is r*L+c and joins it to its right
    neighbor, vertical bond is L*L + r*L + c and joins it to the site below."""
    r, c = divmod(s, L)
    N = L * L
    return [s, N + s, r * L + (c - 1) % L, N + ((r - 1) % L) * L + c]


class Model:
    """Online model.  place(site) for every newly occupied site, in order."""

    def __init__(self, L):
        self.L, self.N, self.B = L, L * L, 2 * L * L
        self.nb = nb(L)
        self.reset()

    def reset(self):
        N = self.N
        self.par = list(range(N))
        self.ox = [0] * N   # displacement site -> parent
        self.oy = [0] * N
        self.occ = [False] * N
        self.order = []
        self.nsites = [0] * N
        self.nbonds = [0] * N
        self.wraps = [False] * N
        self.sizes = {1: self.B}      # bond count -> number of clusters
        self.largest = 0
        self.wrap_site = None
        self.pc = None                # occupied count at the first wrapping
        self.pc_sites = self.pc_bonds = None
        self.curve = []               # (p, H, P_largest, P_wrapping)
        self.row = [0] * self.L
        self.col = [0] * self.L
        self.lines = []               # a site of every complete row or column
        self.p_star = None            # occupied count at the first complete line in the wrapping cluster
        self.stats = dict(merge={}, same=0, winding=None)

    def find(self, s):
        path = []
        par = self.par
        while par[s] != s:
            path.append(s)
            s = par[s]
        # compress: from the one nearest to the root
        x = y = 0
        for t in reversed(path):
            x += self.ox[t]
            y += self.oy[t]
            self.ox[t], self.oy[t] = x, y
            par[t] = s
        return s

    def _sz(self, n, d):
        k = self.sizes.get(n, 0) + d
        if k:
            self.sizes[n] = k
        else:
            self.sizes.pop(n, None)

    def place(self, s):
        assert not self.occ[s]
        self.occ[s] = True
        self.order.append(s)
        L = self.L
        self.nsites[s] = 1
        nbond = 0
        roots = []
        wound = None
        # bonds towards empty neighbors are free singletons which this site absorbs
        occn = []
        for t, d in self.nb[s]:
            if t != s and self.occ[t]:
                occn.append((t, d))
            elif t != s:
                nbond += 1
                self._sz(1, -1)
        if L == 1:
            nbond = 2
            self._sz(1, -2)
            self.wraps[s] = True
        self.nbonds[s] = nbond
        self._sz(nbond, +1)           # may be 0: cancelled by the first merge
        k = set()
        for t, (dr, dc) in occn:
            rt = self.find(t)
            k.add(rt)
            rs = self.find(s)
            # displacement of s and t from their roots
            sx, sy = (0, 0) if rs == s else (self.ox[s], self.oy[s])
            tx, ty = (0, 0) if rt == t else (self.ox[t], self.oy[t])
            if rt == rs:
                wx, wy = sx + dr - tx, sy + dc - ty
                if wx or wy:
                    self.wraps[rs] = True
                    wound = (wx // L, wy // L)
                continue
            # attach the smaller below the larger; pos(t) = pos(s) + d in the frame of s
            if self.nsites[rs] <= self.nsites[rt]:
                a, b = rs, rt     # rs goes below rt: pos_rt(s) = pos_rt(t) - d
                self.ox[a], self.oy[a] = tx - dr - sx, ty - dc - sy
            else:
                a, b = rt, rs     # rt goes below rs: pos_rs(t) = pos_rs(s) + d
                self.ox[a], self.oy[a] = sx + dr - tx, sy + dc - ty
            self.par[a] = b
            self._sz(self.nbonds[a], -1)
            self._sz(self.nbonds[b], -1)
            self.nsites[b] += self.nsites[a]
            self.nbonds[b] += self.nbonds[a]
            self._sz(self.nbonds[b], +1)
            self.wraps[b] = self.wraps[b] or self.wraps[a]
        root = self.find(s)
        self.stats['merge'][len(k)] = self.stats['merge'].get(len(k), 0) + 1
        if len(occn) > len(k):
            self.stats['same'] += 1
        self.largest = max(self.largest, self.nbonds[root])
        n = len(self.order)
        if self.wrap_site is None and self.wraps[root]:
            self.wrap_site = s
            self.pc = n
            self.pc_sites, self.pc_bonds = self.nsites[root], self.nbonds[root]
            self.stats['winding'] = wound
        pw = 0.0
        wroot = None
        if self.wrap_site is not None:
            wroot = self.find(self.wrap_site)
            pw = self.nbonds[wroot] / self.B
        H = self.entropy()
        r, c = divmod(s, L)
        self.row[r] += 1
        self.col[c] += 1
        if self.row[r] == L or self.col[c] == L:
            self.lines.append(s)
        if self.p_star is None and wroot is not None and any(self.find(x) == wroot for x in self.lines):
            self.p_star = n
        self.curve.append((n / self.N, H, self.largest / self.B, pw))
        return root

    def entropy(self):
        B = self.B
        return math.fsum(-k * (n / B) * math.log(n / B) for n, k in self.sizes.items() if n) + 0.0

    def run(self, order):
        for s in order:
            self.place(s)
        return self

    def partition(self):
        """{root: set of sites}"""
        out = {}
        for s in range(self.N):
            if self.occ[s]:
                out.setdefault(self.find(s), set()).add(s)
        return out

    def offset(self, s):
        """position of s relative to the root of its cluster (any frame if the cluster wraps)"""
        r = self.find(s)
        return (0, 0) if r == s else (self.ox[s], self.oy[s])


def brute(L, occupied):
    """From the set of occupied sites: list of (sites, bonds, wraps)."""
    occupied = set(occupied)
    NB = neighbors(L)
    seen, out = set(), []
    for s in sorted(occupied):
        if s in seen:
            continue
        pos = {s: (0, 0)}
        q = deque([s])
        wraps = False
        while q:
            a = q.popleft()
            for t, (dr, dc) in NB[a]:
                if t not in occupied:
                    continue
                p = (pos[a][0] + dr, pos[a][1] + dc)
                if t not in pos:
                    pos[t] = p
                    q.append(t)
                elif pos[t] != p:
                    wraps = True
        seen |= set(pos)
        bonds = set()
        for a in pos:
            bonds |= set(site_bonds(L, a))
        out.append((frozenset(pos), frozenset(bonds), wraps))
    return out


def brute_curve(L, order):
    """As Model.run(order).curve etc., by brute force."""
    B = 2 * L * L
    res, wsite, pc, snap, pstar = [], None, None, None, None
    for n in range(1, len(order) + 1):
        occ = order[:n]
        cl = brute(L, occ)
        free = B - sum(len(b) for _, b, _ in cl)
        H = -math.fsum([free * (1 / B) * math.log(1 / B)] +
                       [len(b) / B * math.log(len(b) / B) for _, b, _ in cl])
        mine = next(c for c in cl if order[n - 1] in c[0])
        if wsite is None and mine[2]:
            wsite, pc, snap = order[n - 1], n, (len(mine[0]), len(mine[1]))
        pw = 0.0
        if wsite is not None:
            w = next(c for c in cl if wsite in c[0])
            pw = len(w[1]) / B
            if pstar is None:
                for i in range(L):
                    if all(i * L + j in w[0] for j in range(L)) or all(j * L + i in w[0] for j in range(L)):
                        pstar = n
        res.append((n / (L * L), H, max(len(b) for _, b, _ in cl) / B, pw))
    return res, pc, snap, pstar


def selftest(rounds=200, seed=1):
    import random
    rng = random.Random(seed)
    from . import gen
    steps = 0
    for i in range(rounds):
        L = rng.choice([2, 3, 3, 4, 4, 5, 6, 7]) if i else 1
        order, _ = gen.order(rng, L)
        m = Model(L).run(order)
        curve, pc, snap, pstar = brute_curve(L, order)
        assert m.pc == pc and (pc is None or (m.pc_sites, m.pc_bonds) == snap), (L, order, m.pc, pc)
        assert m.p_star == pstar, (L, order, m.p_star, pstar)
        for a, b in zip(m.curve, curve):
            assert all(abs(x - y) < 1e-12 for x, y in zip(a, b)), (L, order, a, b)
        steps += len(order)
    return rounds, steps
