"""C09 Hitting probabilities and hitting times are the minimal solutions"""
import math

from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, TINY, HUGE

BOUNDS = 'all zero patterns of chains with n=2,3 states and all target sets, n=4 with at most 2 successors per state and one target; every positive value of the entries with weight ratios in [1/100,100]; exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6 and 9 states (thorough 5..12)'
OUTSIDE = 'other chains with more states; floating-point rounding of the linear solver'


def hitting(t, n, max_succ=None, names=True, maxset=None, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
        t.cover(kind)
    else:
        P, mc, labels = chain(t, n, False, max_succ, names, **({"lo": TINY, "hi": HUGE} if n < 4 else {}))
    S = sp.supp(P)
    A = [maxset] if maxset is not None else t.pick([[0], [n - 2, 1], [2, n - 1, 3]]) if kinds else t.subset(n)
    form = t.choose(2) if n < 4 else 0
    arg = A if form == 0 else [labels[i] for i in reversed(A)]
    if len(A) == 1 and form:
        arg = arg[0]
    can = {i for i in range(n) if sp.reach(S)[i] & set(A)}
    sure = sp.sure(P, A)
    h = (mc.hp if form else mc.hitting_probabilities)(arg)
    t.same(len(h), n, 'length')
    for i in range(n):
        v = t.val(h[i])
        if i in A or i in sure:
            t.close(v, 1, f'probability from {i} (sure)')
        elif i not in can:
            t.close(v, 0, f'probability from {i} (impossible)')
        else:
            s = t.const(0)
            for j in S[i]:
                s = s + P[i][j] * t.val(h[j])
            t.solves(v, s, f'h = Ph at {i}')
            t.check(v > 0, f'h > 0 at {i}')
            t.check(v < 1, f'h < 1 at {i}')
            t.cover('between 0 and 1')
    k = (mc.hitting_times if form else mc.ht)(arg)
    t.same(len(k), n, 'length')
    for i in range(n):
        if i in A:
            t.close(k[i], 0, f'time from {i} (target)')
        elif i not in sure:
            t.close(k[i], math.inf, f'time from {i} (unsure)')
            t.cover('infinite')
        else:
            s = t.const(1)
            for j in S[i]:
                s = s + P[i][j] * t.val(k[j])
            t.solves(k[i], s, f't = 1 + Pt at {i}')
            t.cover('finite')
    if len(A) == n:
        t.closem(mc.hitting_probabilities(), [1] * n, 'default targets')
        t.closem(mc.hitting_times(), [0] * n, 'default targets')


KINDS = ('line', 'drain', 'ring', 'walk', 'blocks', 'star', 'slow', 'trap', 'leak', 'pairs')

HARNESSES = [
    Harness('hitting', hitting, quick=[{'n': 2}, {'n': 3}, {'n': 6, 'kinds': KINDS[2:]}, {'n': 9, 'kinds': KINDS}, {'n': 17, 'kinds': ('line',)}, {'n': 4, 'max_succ': 2, 'names': False, 'maxset': 1}],
            thorough=[{'n': n, 'kinds': KINDS} for n in (5, 6, 7, 8, 10, 12)] + [{'n': 2}, {'n': 3}, {'n': 4, 'names': False}],
            must_cover=('between 0 and 1', 'infinite', 'finite')),
]
