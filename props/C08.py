"""C08 Absorbing-chain analysis satisfies its defining equations"""
from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, TINY, HUGE

BOUNDS = 'all zero patterns of chains with n=2,3 states, absorbing patterns with n=4 (at most 2 successors quick); every positive value of the entries with weight ratios in [1/100,100]; exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6 and 9 states (thorough 5..12)'
OUTSIDE = 'other chains with more states; floating-point rounding'


def absorbing(t, n, max_succ=None, names=True, only=False, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
        t.cover(kind)
    elif only:
        from props.common import NAMES
        labels = NAMES[n][1]
        # the absorbing states of the chain are chosen first, their position is arbitrary
        A = t.subset(n)
        if len(A) == n:
            t.infeasible()
        supp = t.supports(n, allowed=lambda i, s, rows: (s == [i]) == (i in A), max_succ=max_succ)
        P = t.stochastic(n, supp=supp, lo=TINY, hi=HUGE)
        mc = t.mc(P, labels)
    else:
        P, mc, labels = chain(t, n, False, max_succ, names, lo=TINY, hi=HUGE)
    ab = sp.absorbing_states(P)
    tr = [i for c in sp.transient(sp.supp(P)) for i in c]
    tr.sort()
    if not sp.is_absorbing(P) or not tr:
        for what in ('fundamental_matrix', 'kemeny_constant'):
            t.same(getattr(mc, what), None, what)
        t.same(mc.absorption_probabilities(), None, 'absorption_probabilities')
        t.same(mc.mean_absorption_times(), None, 'mean_absorption_times')
        t.cover('none')
        return
    m = len(tr)
    N = mc.fundamental_matrix
    A = mc.absorption_probabilities()
    T = mc.mean_absorption_times()
    t.same([len(N), len(N[0])], [m, m], 'size of the fundamental matrix')
    t.same([len(A), len(A[0])], [len(ab), m], 'size of the absorption probabilities')
    t.same(len(T), m, 'size of the mean absorption times')
    v = lambda x: t.val(x)
    K = t.const(0)
    for i in range(m):
        K = K + v(N[i][i])
        for j in range(m):
            # N = I + Q N and N = I + N Q
            s = t.const(int(i == j))
            for k in range(m):
                s = s + P[tr[i]][tr[k]] * v(N[k][j])
            t.solves(N[i][j], s, f'N = I + QN at {i},{j}')
        s = t.const(1)
        for k in range(m):
            s = s + P[tr[i]][tr[k]] * v(T[k])
        t.solves(T[i], s, f't = 1 + Qt at {i}')
        tot = t.const(0)
        for a in range(len(ab)):
            s = P[tr[i]][ab[a]]
            for k in range(m):
                s = s + P[tr[i]][tr[k]] * v(A[a][k])
            t.solves(A[a][i], s, f'absorption probability into {a} from {i}')
            tot = tot + v(A[a][i])
        t.solves(tot, 1, f'total absorption probability from {i}')
    t.close(mc.kemeny_constant, K, 'Kemeny constant')
    t.closem(mc.mat(), T, 'second call')
    if len(ab) > 1 and m > 1:
        t.cover('two absorbing, two transient')


HARNESSES = [
    Harness('absorbing', absorbing, quick=[{'n': 2}, {'n': 3}, {'n': 6, 'kinds': ('line', 'drain', 'trap', 'leak', 'pairs')}, {'n': 9, 'kinds': ('line', 'drain', 'blocks', 'ring', 'trap', 'leak', 'pairs')}, {'n': 4, 'only': True, 'max_succ': 2}],
            thorough=[{'n': n, 'kinds': ('line', 'drain', 'blocks', 'ring', 'trap', 'leak', 'pairs')} for n in (5, 6, 7, 8, 10, 12)] + [{'n': 2}, {'n': 3}, {'n': 4, 'only': True}, {'n': 5, 'only': True, 'max_succ': 2}], must_cover=('none',)),
]
