"""The recorded sequence is the one which was placed, and replaying it reproduces every result."""
import json
import random

from ..files import listing, now, scratch, stamps
from ..model import Model
from ..observe import curves, scalars
from ..sut import Monitor, Session, classes, history

RULE = ('Histories as in C02 on all classes; at every pause the reported id and index sequences are compared with the '
        'placements observed on the lattice, and the sequence is replayed as custom list (ids or indices) in new L0, '
        'base and shortest-path objects: curves, critical values and final clusters must agree. Also realizations '
        'written to files for later cross checks, replayed from the file alone. Execution: one replay; non-trivial: '
        'more than 3 sites; distinct by sequence.')
NEED = dict(monitor_evaluations=1000, replays=300, files_replayed=10, sequences_compared=500)
ASSUMPTIONS = ['side >= 3']


class Sequence(Monitor):
    def started(self):
        self.complete = True

    def check_sequence(self):
        s, rec = self.s, self.rec
        placed = s.m.order
        if s.cls == 'SP' and len(placed) == 0:
            return
        seq = list(s.obj.get_site_id_sequence())
        idx = [tuple(x) for x in s.obj.get_index_sequence()]
        rec.count('sequences_compared')
        rec.check(idx == [divmod(x, s.L) for x in seq], 'index sequence is not the id sequence', ids=seq, idx=idx)
        if s.cls in ('L1', 'L2'):
            rec.check(seq == placed, 'recorded sequence is not the one placed', got=seq, want=placed)
        else:
            rec.check(seq[:len(placed)] == placed, 'reported sequence does not begin with the sites placed', got=seq,
                      want=placed)

    def placed(self, site):
        if len(self.s.m.order) % (1 + self.s.N // 8) == 0:
            self.check_sequence()

    def run_end(self):
        self.check_sequence()


def cases(tier, seed):
    rng = random.Random('C16/%s/%s' % (seed, tier))
    k = 1 if tier == 'quick' else 20
    out = []
    for i in range(260 * k):
        cls = ['L0', 'L1', 'L2', 'SP', 'base'][i % 5]
        L = rng.choice([3, 4, 5, 6, 7, 8, 10, 12])
        ops, names = history(rng, cls, L)
        out.append(dict(kind='history', cls=cls, L=L, seed=rng.randrange(10 ** 6), ops=ops))
    for i, L in enumerate((20, 25, 30, 40, 50, 260)):
        out.append(dict(kind='history', cls=['L1', 'L2', 'L0'][i % 3], L=L, seed=rng.randrange(10 ** 6),
                        ops=[['reset'], ['run']]))
    out += [dict(kind='file', cls=['L0', 'L1', 'L2', 'base'][i % 4], L=rng.choice([3, 4, 5, 6, 8, 10, 13]),
                 seed=rng.randrange(10 ** 6)) for i in range(30 * k)]
    return sorted(out, key=lambda c: -c['L'])


def replay(rec, L, seq, rng, want, cls, want_curves=None):
    """want: scalars; cls: class to replay in"""
    o = classes()[cls](length=L)
    if rng.random() < .5:
        o.reset()
    if rng.random() < .3:
        o.set_custome_site_index_list([divmod(s, L) for s in seq])
    else:
        o.set_custome_site_id_list(list(seq))
    o.run_once()
    got = scalars(o)
    for k in want:
        if k in got:
            rec.check(abs(got[k] - want[k]) < 1e-8, 'replaying the sequence gives another result', what=k, got=got[k],
                      want=want[k], sequence=seq, L=L)
    if want_curves:
        c = curves(o)
        for k, v in want_curves.items():
            rec.check(len(c[k]) == len(v) and all(abs(a - b) < 1e-8 for a, b in zip(c[k], v)),
                      'replaying the sequence gives other curves', what=k, sequence=seq, L=L)
    rec.count('replays')


def run(case, rec):
    rng = random.Random(case['seed'])
    if case['kind'] == 'file':
        return run_file(case, rec, rng)
    mon = Sequence()
    s = Session(rec, case['cls'], case['L'], case['seed'], [mon])

    def pause():
        mon.check_sequence()
        placed = list(s.m.order)
        if not placed:
            return
        seq = list(s.obj.get_site_id_sequence())[:len(placed)]
        want = scalars(s.obj)
        full_curves = curves(s.obj) if s.cls != 'SP' and len(s.rows) == len(placed) else None
        if not s.all_tested:
            return
        rep = 'SP' if s.cls == 'SP' else rng.choice(['L0', 'L0', 'base'])
        if s.cls == 'SP' and not s.only_run:
            return
        st = random.getstate()
        replay(rec, s.L, seq, rng, want, rep, full_curves)
        random.setstate(st)
        rec.execution((s.cls, s.L, tuple(seq)), len(seq) > 3)
    s.all_tested, s.only_run = True, True
    for op in case['ops']:
        if op[0] == 'reset':
            pause()
            s.only_run = True
        if op[0] in ('step', 'all'):
            s.only_run = False
        s.play([op])
    pause()
    rec.sample(dict(cls=s.cls, L=s.L, sequence=s.m.order[:20]))


def run_file(case, rec, rng):
    from run_py.rsbd_percolatioin_run import single_realization
    L, cls = case['L'], case['cls']
    with scratch():
        random.seed(case['seed'])
        since = now()
        single_realization(classes()[cls], L)
        names = listing()
        rec.check(len(names) == 1, 'a single realization did not write one file', files=names)
        with open('data/' + names[0]) as f:
            d = json.load(f)
        stamps(rec, names[0], d, since)
    seq = d['site_id_sequence']
    rec.check(d['length'] == d['L'] == L, 'length in the file is wrong', got=(d['length'], d['L']))
    rec.check(sorted(seq) == list(range(L * L)), 'the sequence in the file is not complete', cls=cls, L=L, got=seq)
    rec.check([tuple(x) for x in d['site_index_sequence']] == [divmod(x, L) for x in seq],
              'index sequence in the file is not the id sequence')
    m = Model(L).run(seq)
    want = dict(pc=m.pc / m.N, pc_sites=m.pc_sites, pc_bonds=m.pc_bonds)
    got = dict(pc=d['pc'], pc_sites=d['site_count_wrapping_cluster_pc'], pc_bonds=d['bond_count_wrapping_cluster_pc'])
    rec.check(got == want, 'critical values in the file are not those of the sequence in the file', got=got, want=want)
    for name, col in (('entropy_list', 1), ('order_largest_list', 2), ('order_wrapping_list', 3)):
        a = d[name]
        rec.check(len(a) == L * L and all(abs(x - r[col]) < 1e-8 for x, r in zip(a, m.curve)),
                  'a list in the file is not that of the sequence in the file', list=name, L=L)
    replay(rec, L, seq, rng, want, 'L0', dict(c_H=d['entropy_list'], c_Pl=d['order_largest_list'],
                                              c_Pw=d['order_wrapping_list']))
    rec.count('files_replayed')
    rec.execution(('file', cls, L, tuple(seq)))
