"""C29 HMM fitting returns the fixed point of the re-estimation it names"""
import functools
import itertools
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.C17 import alphas, betas
from props.C18 import paths_of
from props.common import NAMES

BOUNDS = ('Baum-Welch: guesses whose states fall into 1..3 groups (2..4 states) with one set of symbols per group, rows alike within a group and symbolic '
          '(every group transition matrix, every split within a group, every emission row), where the expectation step is exact after one iteration, for one or two sequences '
          'of length 1..5; map and Viterbi training: every positive guess with 2 states and 2 symbols (one pair of rows fully symbolic), one or two sequences of length 2..5; '
          'every initial state, the default and explicit distributions; every kind of invalid argument; exact real arithmetic')
OUTSIDE = ('Baum-Welch guesses whose states are distinguishable but hidden (the iterates converge in the limit only: a data-dependent number of rational maps of growing degree); '
           'training runs in which two state paths tie after the first iteration; larger models')
ASSUMPTIONS = ['most probable states are those of predict (C18), on the matrices of each iteration']
ERR = ('ValueError',)
SYM = ['v', 'u', 'z', 'y', 'x']


def fit(t, kind, labels, symbols, P, E, seqs, status):
    """sequences by index or label; a single sequence may be given on its own"""
    form = sum(len(s) + s[0] for s in seqs) % 2
    arg = [[symbols[y] for y in s] if form else list(s) for s in seqs]
    if len(arg) == 1:
        arg = arg[0]
    return t.call(t.api.HiddenMarkovModel.fit, kind, labels, symbols, t.arr(P), t.arr(E), arg, status)


def verdict(t, r, P, E, labels, symbols, msg):
    if P is None:
        if r[0] == 'ok':
            t.fail(f'{msg}: a model is returned although no transition or emission of some state is expected')
        t.same(r[1] in ERR, True, f'{msg}: reported as a failure to fit ({r[1]})')
        t.cover('failed')
        return
    if r[0] != 'ok':
        t.fail(f'{msg}: {r[1]} {r[2]}')
    m = r[1]
    t.same([list(m.states), list(m.symbols), m.n, m.k], [labels, symbols, len(P), len(symbols)], 'labels and sizes')
    t.closem(m.p, P, f'{msg}: transition matrix')
    t.closem(m.e, E, f'{msg}: emission matrix')
    t.cover('fitted')


LAYOUTS = {'lump2': ([0, 0], [[0, 1]]), 'lump3': ([0, 0, 0], [[0, 1]]), 'seen2': ([1, 0], [[0], [1]]), 'seen2w': ([0, 1], [[0, 2], [1]]),
           'pair': ([0, 1, 0], [[0, 2], [1]]), 'seen3': ([2, 0, 1], [[1], [0], [2]]), 'pairs': ([0, 1, 1, 0], [[0, 2], [3, 1]]), 'mixed': ([1, 0, 2, 1], [[3], [0, 2], [1]])}


def baum_welch(t, layout, lens, rare=False, zeros=False):
    group, sets = LAYOUTS[layout]
    n, g = len(group), len(sets)
    k = sum(map(len, sets))
    labels, symbols = NAMES[n][-1], SYM[:k]
    lo = Fraction(1, 10 ** 7) if rare else Fraction(1, 100)
    Q = t.stochastic(g, name='Q', lo=lo, param='w', supp=None if zeros else [list(range(g))] * g)
    one, zero = t.const(1), t.const(0)
    members = [[i for i in range(n) if group[i] == a] for a in range(g)]
    split = [None] * n
    for a in range(g):
        d = t.distribution(len(members[a]), list(range(len(members[a]))), f'a{a}', 'w', lo)
        for i, x in zip(members[a], d):
            split[i] = x
    rows = []
    for a in range(g):
        d = t.distribution(len(sets[a]), list(range(len(sets[a]))), f'e{a}', 'w', lo)
        row = [zero] * k
        for s, x in zip(sets[a], d):
            row[s] = x
        rows.append(row)
    P = [[Q[group[i]][group[j]] * split[j] for j in range(n)] for i in range(n)]
    E = [rows[group[i]] for i in range(n)]
    start = t.choose(g)
    d = [split[i] if group[i] == start else zero for i in range(n)]
    status = t.arr(d)
    if len(members[start]) == 1 and t.flag():
        status = labels[members[start][0]]
    seqs = [t.pick(list(itertools.product(range(k), repeat=f))) for f in lens]
    owner = {s: a for a in range(g) for s in sets[a]}
    N, M = [[0] * g for _ in range(g)], [[0] * k for _ in range(g)]
    for s in seqs:
        gs = [start] + [owner[y] for y in s]
        if any(sp.zero(Q[a][b]) for a, b in zip(gs, gs[1:])):
            t.cover('impossible')
            continue
        for a, b in zip(gs, gs[1:]):
            N[a][b] += 1
        for y in s:
            M[owner[y]][y] += 1
    r = fit(t, 'baum-welch', labels, symbols, P, E, seqs, status)
    if any(sum(x) == 0 for x in N) or any(sum(x) == 0 for x in M):
        return verdict(t, r, None, None, labels, symbols, 'a state without expected transitions or emissions')
    P2 = [[t.const(Fraction(N[group[i]][group[j]], sum(N[group[i]]))) * split[j] for j in range(n)] for i in range(n)]
    E2 = [[t.const(Fraction(M[group[i]][s], sum(M[group[i]]))) for s in range(k)] for i in range(n)]
    verdict(t, r, P2, E2, labels, symbols, 'expected counts')


def count_paths(start, ys, pp, ee):
    n = len(pp)
    ways = [int(i == start) for i in range(n)]
    for y in ys:
        ways = [sum(ways[i] for i in range(n) if (i, j) in pp[i]) if (j, y) in ee[j] else 0 for j in range(n)]
    return sum(ways)


@functools.lru_cache(None)
def revealed(n, k, f, fails):
    """(start, states, symbols) such that the states are the only path for the symbols under the transitions and emissions used;
    every state is left and emits, or (fails) some is not"""
    out = []
    for start in (0, n - 1):
        for xs in itertools.product(range(n), repeat=f):
            full = set((start,) + xs[:-1]) == set(range(n)) == set(xs)
            if full == fails:
                continue
            for ys in itertools.product(range(k), repeat=f):
                pp, ee = used(n, start, xs, ys)
                if count_paths(start, ys, pp, ee) == 1:
                    out.append((start, xs, ys))
    return out


def used(n, start, xs, ys):
    pp, ee = [set() for _ in range(n)], [set() for _ in range(n)]
    for i, j in zip((start,) + xs, xs):
        pp[i].add((i, j))
    for i, y in zip(xs, ys):
        ee[i].add((i, y))
    return pp, ee


def unique(t, n, k, f, second=None, fails=False, extras=2):
    """hidden states that are revealed by the symbols before and after them: one state path is possible, whatever the probabilities"""
    labels, symbols = NAMES[n][-1], SYM[:k]
    start, xs, ys = t.pick(revealed(n, k, f, fails))
    pp, ee = used(n, start, xs, ys)
    for i in range(n):
        # a state that is not used keeps its place
        pp[i] = pp[i] or {(i, i)}
        ee[i] = ee[i] or {(i, 0)}
    runs = [(start, xs, ys)]
    if second:
        # another possible run, or an impossible sequence
        ys2 = t.pick(list(itertools.product(range(k), repeat=second)))
        found = [(start,)]
        for y in ys2:
            found = [p + (j,) for p in found for j in range(n) if (p[-1], j) in pp[p[-1]] and (j, y) in ee[j]]
        if len(found) > 1:
            t.infeasible()
        runs.append((start, found[0][1:] if found else None, ys2))
    for _ in range(extras):
        # transitions and emissions that are possible but lead to no other path
        more = [()]
        for sets, m in ((pp, n), (ee, k)):
            for i in range(n):
                for j in range(m):
                    if (i, j) not in sets[i]:
                        sets[i].add((i, j))
                        if all(count_paths(a, y, pp, ee) == (x is not None) for a, x, y in runs):
                            more.append((sets, i, j))
                        sets[i].remove((i, j))
        x = t.pick(more)
        if x:
            x[0][x[1]].add(x[1:])
    N, M = [[0] * n for _ in range(n)], [[0] * k for _ in range(n)]
    for a, x, y in runs:
        if x is None:
            t.cover('impossible')
            continue
        for i, j in zip((a,) + x, x):
            N[i][j] += 1
        for i, s in zip(x, y):
            M[i][s] += 1
    P = t.stochastic(n, supp=[sorted(j for _, j in r) for r in pp], name='P')
    E = t.stochastic(n, k, supp=[sorted(j for _, j in r) for r in ee], name='E')
    r = fit(t, 'baum-welch', labels, symbols, P, E, [y for _, _, y in runs], labels[start] if t.flag() else start)
    if any(sum(x) == 0 for x in N) or any(sum(x) == 0 for x in M):
        return verdict(t, r, None, None, labels, symbols, 'a state without expected transitions or emissions')
    verdict(t, r, [[t.const(Fraction(x, sum(row))) for x in row] for row in N], [[t.const(Fraction(x, sum(row))) for x in row] for row in M], labels, symbols, 'counts along the only possible path')


def tie(kind, P, E, d, ys, t):
    """two state paths or states (nearly) as probable: the outcome depends on rounding"""
    n = len(P)
    if kind == 'map':
        a, b = alphas(t, P, E, d, ys), betas(t, P, E, ys)
        tops = [sorted(float(a[s][i] * b[s][i]) for i in range(n))[-2:] for s in range(1, len(ys) + 1)]
        return any(x[0] > x[1] * (1 - 1e-9) for x in tops if x[1] > 0)
    for first in (list(d), [d[i] * E[i][ys[0]] for i in range(n)]):
        ws = {}
        for p, w in paths_of(P, E, first, ys).items():
            ws[p] = float(w)
        top = sorted(ws.values())[-2:]
        if len(top) == 2 and top[0] > top[1] * (1 - 1e-9):
            return True
    return False


def proper(t, r):
    # which of the equally probable states are taken is not fixed: the outcome is a stochastic model or a failure
    t.cover('tie')
    if r[0] != 'ok':
        t.same(r[1] in ERR, True, f'reported as a failure to fit ({r[1]})')
        return
    for a in (r[1].p, r[1].e):
        for row in a:
            t.close(sp.total(list(row)), 1, 'row sum')
            for x in row:
                t.check(x >= 0, 'probability')


def train(t, kind, n, k, lens, free='p'):
    labels, symbols = NAMES[n][-1], SYM[:k]
    P = t.stochastic(n, supp=[list(range(n))] * n, name='P')
    E = t.stochastic(n, k, supp=[list(range(k))] * n, name='E')
    fixed = ([[t.const(Fraction(2 + (i + j) % 3, sum(2 + (i + x) % 3 for x in range(n)))) for j in range(n)] for i in range(n)],
             [[t.const(Fraction(1 + (i + j) % k, k * (k + 1) // 2)) for j in range(k)] for i in range(n)])
    P = [P[i] if free == 'all' or i == 0 and 'p' in free else fixed[0][i] for i in range(n)]
    E = [E[i] if free == 'all' or i == 0 and 'e' in free else fixed[1][i] for i in range(n)]
    i = t.choose(3)
    one, zero = t.const(1), t.const(0)
    if i == 0:
        status, d = None, [Fraction(1, n)] * n
    elif i == 1:
        status, d = labels[n - 1], [Fraction(int(j == n - 1)) for j in range(n)]
    else:
        d = [Fraction(2 * j + 1, n * n) for j in range(n)]
        status = t.arr([t.const(x) for x in d])
    seqs = [t.pick([s for s in itertools.product(range(k), repeat=f)]) for f in lens]
    r = fit(t, kind, labels, symbols, P, E, seqs, status)
    Pg, Eg, prev = P, E, None
    for it in range(12):
        m = t.hmm(Pg, Eg, labels, symbols)
        p, e = [[Fraction(0)] * n for _ in range(n)], [[Fraction(0)] * k for _ in range(n)]
        for s in seqs:
            if prev is not None and tie(kind, prev[0], prev[1], d, s, t):
                return proper(t, r)
            w = m.predict(kind, list(s), status, output_indices=True)
            if w is None:
                continue
            xs = [int(x) for x in w[1]]
            for a, pairs in ((p, list(zip(xs, xs[1:]))), (e, list(zip(xs, s)))):
                for i in range(n):
                    tot = sum(1 for x, _ in pairs if x == i)
                    for x, y in pairs:
                        if x == i:
                            a[i][y] += Fraction(1, tot)
        if any(sum(x) == 0 for x in p) or any(sum(x) == 0 for x in e):
            return verdict(t, r, None, None, labels, symbols, 'a state that is never left or never emits')
        new = [[[x / sum(row) for x in row] for row in a] for a in (p, e)]
        if new == prev:
            return verdict(t, r, [[t.const(x) for x in row] for row in new[0]], [[t.const(x) for x in row] for row in new[1]], labels, symbols, 'frequencies along the most probable states')
        prev = new
        Pg, Eg = [[[t.const(x) for x in row] for row in a] for a in new]
    proper(t, r)


def bad(t):
    f = t.api.HiddenMarkovModel.fit
    x = t.real('x', Fraction(1, 100), Fraction(99, 100))
    one = t.const(1)
    L, Y = ['b', 'a'], ['y', 'x', 'z']
    P, E = t.arr([[x, one - x], [one - x, x]]), t.arr([[x, one - x, one - one], [one / 3] * 3])
    kind = t.pick(['baum-welch', 'map', 'mle', 'viterbi'])
    s = [0, 1, 0]
    case = t.choose(12)
    d = t.real('d', Fraction(1, 1000), Fraction(1, 4))
    args = [kind, L, Y, P, E, s, None]
    if case == 0:
        args[0] = t.pick(['baum', 'em', '', None, 3])
    elif case == 1:
        args[1] = t.pick([['a', 'b', 'c'], ['a'], ['a', 'a'], ['a', ''], 'ab', None])
    elif case == 2:
        args[2] = t.pick([['x', 'y'], ['x', 'y', 'z', 'w'], ['x', 'x', 'y'], None])
    elif case == 3:
        args[3] = t.arr([[x, one - x + d], [one - x, x]])
    elif case == 4:
        args[3] = t.arr([[one + d, -d], [one - x, x]])
    elif case == 5:
        args[4] = t.arr([[x, one - x, d], [one / 3] * 3])
    elif case == 6:
        args[4] = t.arr([[x, one - x + d, -d], [one / 3] * 3])
    elif case == 7:
        args[5] = t.pick([[0, 3, 0], ['x', 'q'], [0, -1], [[0, 1], [0, 3]], [[0, 1], ['x', 'q']], [[0, 1], []], [], None, 'xy'])
    elif case == 8:
        args[6] = t.pick([2, -1, 'c', 'x', [0.5, 0.6], [0.5, 0.25, 0.25]])
    elif case == 9:
        args[6] = t.arr([x, one - x + d])
    elif case == 10:
        args[1], args[5] = ['x', 'a'], [1, 0]
    else:
        args[4] = t.arr([[x, one - x], [one - x, x]])
    t.rejects(f, *args, msg=f'case {case}')
    t.cover('rejected')


HARNESSES = [
    Harness('baum_welch', baum_welch, must_cover=('fitted', 'failed'),
            quick=[dict(layout='lump2', lens=(3,)), dict(layout='lump2', lens=(3, 2)), dict(layout='lump3', lens=(3,)), dict(layout='seen2', lens=(3, 2), zeros=True), dict(layout='seen2w', lens=(4,), zeros=True), dict(layout='pair', lens=(4,)),
                   dict(layout='seen3', lens=(5,)), dict(layout='pairs', lens=(3,), rare=True)],
            thorough=[dict(layout='lump2', lens=(5, 3)), dict(layout='lump3', lens=(4, 2)), dict(layout='seen2', lens=(5, 4), zeros=True), dict(layout='seen2w', lens=(5,), zeros=True), dict(layout='pair', lens=(5,)), dict(layout='pair', lens=(3, 2), rare=True),
                      dict(layout='seen3', lens=(5,), zeros=True), dict(layout='pairs', lens=(5,)), dict(layout='mixed', lens=(5,))]),
    Harness('unique', unique, must_cover=('fitted', 'failed'), quick=[dict(n=2, k=2, f=4), dict(n=2, k=2, f=3, second=3), dict(n=3, k=2, f=5), dict(n=3, k=3, f=4, second=2), dict(n=2, k=2, f=3, fails=True)],
            thorough=[dict(n=2, k=2, f=6), dict(n=2, k=2, f=4, second=4), dict(n=3, k=2, f=6), dict(n=3, k=2, f=5, second=3), dict(n=3, k=3, f=5, second=3), dict(n=4, k=2, f=6), dict(n=4, k=3, f=5), dict(n=3, k=2, f=4, fails=True)]),
    Harness('train', train, must_cover=('fitted', 'failed'),
            quick=[dict(kind=x, n=2, k=2, lens=l, free=f) for x, l, f in (('viterbi', (4,), 'p'), ('mle', (3, 2), 'e'), ('map', (4,), 'e'), ('map', (3, 2), 'p'))],
            thorough=[dict(kind=x, n=2, k=2, lens=l, free=f) for x in ('viterbi', 'mle', 'map') for l in ((5,), (3, 3)) for f in ('p', 'e', 'pe')] + [dict(kind=x, n=2, k=2, lens=(3,), free='all') for x in ('viterbi', 'map')]
                     + [dict(kind=x, n=3, k=2, lens=(5,), free=f) for x in ('viterbi', 'map') for f in 'pe']),
    Harness('bad', bad, must_cover=('rejected',), quick=[dict()], thorough=[]),
]
