"""C11 Mean number of visits equals the expected visit counts"""
import math

from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, HUGE, TINY

BOUNDS = 'all zero patterns of chains with n=2,3 states, n=4 with at most 2 successors per state; every positive value of the entries with weights in [1e-9,1e9]; exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6 and 9 states (thorough 5..12)'
OUTSIDE = 'other chains with more states; floating-point rounding of the linear solver'


def visits(t, n, max_succ=None, names=True, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
        t.cover(kind)
    else:
        P, mc, labels = chain(t, n, False, max_succ, names, lo=TINY, hi=HUGE)
    S = sp.supp(P)
    R = sp.reach(S)
    rec = {i for c in sp.recurrent(S) for i in c}
    V = mc.mean_number_visits()
    t.same([len(V), len(V[0])], [n, n], 'shape')
    v = t.val
    for j in range(n):
        for i in range(n):
            # reachable in at least one step
            acc = any(j in R[k] for k in S[i])
            if not acc:
                t.close(V[i][j], 0, f'visits {i}->{j} (not accessible)')
                t.cover('none')
            elif j in rec:
                t.close(V[i][j], math.inf, f'visits {i}->{j} (recurrent)')
            else:
                s = P[i][j]
                for k in S[i]:
                    if k not in rec:
                        s = s + P[i][k] * v(V[k][j])
                t.solves(V[i][j], s, f'v = P + Pv at {i},{j}')
                t.cover('finite')
    t.closem(mc.mean_number_visits(), V, 'second call')
    t.closem(mc.mnv(), V, 'alias')


KINDS = ('line', 'drain', 'ring', 'blocks', 'star', 'slow', 'trap', 'leak')

HARNESSES = [
    Harness('visits', visits, quick=[{'n': 2}, {'n': 3}, {'n': 6, 'kinds': KINDS}, {'n': 9, 'kinds': KINDS}, {'n': 4, 'max_succ': 2, 'names': False}],
            thorough=[{'n': n, 'kinds': KINDS} for n in (5, 6, 7, 8, 10, 12)] + [{'n': 2}, {'n': 3}, {'n': 4, 'names': False}], must_cover=('none', 'finite')),
]
