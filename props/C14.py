"""C14 Structural predicates decide their defining relation"""
import math

import numpy as np

from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, NAMES, TINY as SMALL, HUGE

BOUNDS = 'all zero patterns of chains with n=2,3 states (n=4: at most 2 successors for the pattern-based predicates), every value of the entries in [1/100,1] (n=2: every value); relations that fail by more than 1e-3 must be reported as failing and relations that hold up to 1e-10 must be reported as holding; exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6 and 9 states; families of symmetric, circulant, monotone and reversible matrices with 6..9 states'
OUTSIDE = 'other chains with more states; deviations between the two tolerances'

# relations that hold up to TINY must be reported, violations above BIG must be noticed
TINY, BIG = '1/10000000000', '1/1000'


def decided(t, got, devs, what):
    """got must be True when all deviations are tiny and False when one of them is large"""
    got = bool(got)
    if got:
        for k, d in enumerate(devs):
            t.check(abs(d) <= t.const(BIG), f'{what} reported although the relation fails ({k})')
        t.cover('yes')
    else:
        t.check_any([abs(d) > t.const(TINY) for d in devs], f'{what} not reported although the relation holds')
        t.cover('no')


def make(t, n, free):
    if isinstance(free, str):
        return shaped(t, n, free)
    if free:
        return chain(t, n, True)
    P = t.stochastic(n, param='p')
    return P, t.mc(P, NAMES[n][-1]), NAMES[n][-1]


def shaped(t, n, kind):
    """more states: chains for which the relation holds but for two rows that depend on symbolic shifts"""
    c = t.const
    if kind == 'symmetric':
        P = [[c(0)] * n for _ in range(n)]
        for i in range(n):
            P[i] = list(P[i])
            for j in range(n):
                if i != j and (i + j) % 3 != 1:
                    P[i][j] = c(1 + abs(i - j)) / (n * n)
            P[i][i] = 1 - sp.total(P[i])
    elif kind == 'rising':
        # strictly monotone; a shift between neighbouring columns matters at one threshold only
        P = [[t.const(1) / n + t.const((2 * i - n + 1) * (2 * j - n + 1)) / (2 * n ** 3) for j in range(n)] for i in range(n)]
        i, a = t.pick([0, n // 2, n - 1]), t.choose(n - 1)
        x = t.real('x', -1, 1)
        P[i][a], P[i][a + 1] = P[i][a] + x, P[i][a + 1] - x
        t.assume(P[i][a] >= 0)
        t.assume(P[i][a + 1] >= 0)
        return P, t.mc(P), None
    elif kind == 'circulant':
        P = [[c(1 + (j - i) % n) * 2 / (n * (n + 1)) for j in range(n)] for i in range(n)]
    else:
        P = [[c(0)] * n for _ in range(n)]
        for i in range(n):
            P[i] = list(P[i])
            for j in (max(i - 1, 0), i, min(i + 1, n - 1)):
                P[i][j] = P[i][j] + c(1) / 3
    i, (a, b) = t.pick([0, n // 2, n - 1]), t.pick([(0, n - 1), (2, 1)])
    x = t.real('x', -1, 1)
    y = t.real('y', -1, 1)
    k = (i + 3) % n
    P[i][a], P[i][b] = P[i][a] + x, P[i][b] - x
    P[k][b], P[k][a] = P[k][b] + y, P[k][a] - y
    for r in P:
        for v in r:
            t.assume(v >= 0)
    return P, t.mc(P), None


def symmetric(t, n, free=False):
    P, mc, labels = make(t, n, free)
    decided(t, mc.is_symmetric, [P[i][j] - P[j][i] for i in range(n) for j in range(i)], 'symmetric')


def doubly(t, n, free=False):
    P, mc, labels = make(t, n, free)
    decided(t, mc.is_doubly_stochastic, [sp.total([P[i][j] for i in range(n)]) - 1 for j in range(n)], 'doubly stochastic')


def monotone(t, n, free=False):
    P, mc, labels = make(t, n, free)
    devs = []
    for m in range(1, n):
        s = [sp.total(P[i][m:]) for i in range(n)]
        devs += [s[i] - s[i + 1] for i in range(n - 1)]
    got = bool(mc.is_stochastically_monotone)
    if got:
        for d in devs:
            t.check(t.const(0) + d <= t.const(BIG), 'monotone reported although the relation fails')
        t.cover('yes')
    else:
        t.check_any([t.const(0) + d > t.const(TINY) for d in devs], 'monotone not reported although the relation holds')
        t.cover('no')
    t.same(bool(mc.is_monotone), got, 'alias')


def reversible(t, n, free=False, ring=False, max_succ=None, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
    elif ring or max_succ:
        P, mc, labels = chain(t, n, False, names=False, ring=ring, max_succ=max_succ)
    else:
        P, mc, labels = chain(t, n, free, names=False)
    S = sp.supp(P)
    got = mc.is_reversible
    if len(sp.recurrent(S)) > 1:
        t.same(bool(got), False, 'reversible with several stationary distributions')
        t.cover('several')
        return
    pi = sp.stationaries(P)[0]
    devs = [pi[i] * P[i][j] - pi[j] * P[j][i] for i in range(n) for j in range(i)]
    decided(t, got, [t.const(0) + d for d in devs], 'reversible')


def pattern(t, n, max_succ=None, names=True, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
    else:
        P, mc, labels = chain(t, n, False, max_succ, names, lo=SMALL, hi=HUGE)
    S = sp.supp(P)
    rec = sorted(i for c in sp.recurrent(S) for i in c)
    tra = sorted(i for c in sp.transient(S) for i in c)
    canon = not tra or max(tra) < min(rec)
    t.same(bool(mc.is_canonical), canon, 'canonical')
    A = mc.adjacency_matrix
    t.same([[int(x) for x in r] for r in A], [[int(j in S[i]) for j in range(n)] for i in range(n)], 'adjacency matrix')
    e = sum(1 for i in range(n) for j in S[i] if j != i)
    t.close(mc.density, t.const(e) / (n * (n - 1)), 'density')
    t.cover('canonical' if canon and tra else 'other')


def entropy(t, n, max_succ=None, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
    else:
        P, mc, labels = chain(t, n, False, max_succ, False)
    S = sp.supp(P)
    h, hn = mc.entropy_rate, mc.entropy_rate_normalized
    if len(sp.recurrent(S)) > 1:
        t.same(h, None, 'entropy rate')
        t.same(hn, None, 'normalized entropy rate')
        t.cover('none')
        return
    pi = sp.stationaries(P)[0]
    want = t.const(0)
    for i in range(n):
        if sp.zero(pi[i]):
            continue
        for j in S[i]:
            if len(S[i]) > 1:
                want = want - pi[i] * P[i][j] * t.log_(P[i][j])
    t.close(h, want, 'entropy rate')
    ev = max(abs(x) for x in np.linalg.eigvals(np.array([[float(j in S[i]) for j in range(n)] for i in range(n)])))
    if t.boolean(t.val(h) > t.const('1/1000000')):
        w = want / t.const(math.log(ev))
        t.cover('positive')
        if t.boolean(w > t.const(1)):
            w = t.const(1)
        t.close(hn, w, 'normalized entropy rate')
    elif all(len(S[i]) == 1 for i in range(n) if not sp.zero(pi[i])):
        t.close(hn, 0, 'normalized entropy rate')


REV = ('lazy', 'walk', 'star', 'ring', 'line', 'fork', 'pairs')
KINDS = ('line', 'drain', 'ring', 'blocks', 'star', 'cycle', 'fork', 'pairs')

HARNESSES = [
    Harness('symmetric', symmetric, quick=[{'n': 6, 'free': 'symmetric'}, {'n': 8, 'free': 'symmetric'}, {'n': 2, 'free': True}, {'n': 3}], thorough=[{'n': 2, 'free': True}, {'n': 3, 'free': True}], must_cover=('yes', 'no')),
    Harness('doubly', doubly, quick=[{'n': 6, 'free': 'circulant'}, {'n': 8, 'free': 'circulant'}, {'n': 2, 'free': True}, {'n': 3}], thorough=[{'n': 2, 'free': True}, {'n': 3, 'free': True}], must_cover=('yes', 'no')),
    Harness('monotone', monotone, quick=[{'n': 6, 'free': 'monotone'}, {'n': 8, 'free': 'monotone'}, {'n': 6, 'free': 'rising'}, {'n': 9, 'free': 'rising'}, {'n': 2, 'free': True}, {'n': 3}], thorough=[{'n': 2, 'free': True}, {'n': 3, 'free': True}], must_cover=('yes', 'no')),
    Harness('reversible', reversible, quick=[{'n': 6, 'kinds': REV}, {'n': 9, 'kinds': REV}, {'n': 2, 'free': True}, {'n': 3, 'max_succ': 2}], thorough=[{'n': 2, 'free': True}, {'n': 3}], must_cover=('yes', 'no', 'several')),
    Harness('pattern', pattern, quick=[{'n': 6, 'kinds': KINDS}, {'n': 9, 'kinds': KINDS}, {'n': 2}, {'n': 3}, {'n': 4, 'max_succ': 2, 'names': False}], thorough=[{'n': 2}, {'n': 3}, {'n': 4, 'names': False}], must_cover=('canonical', 'other')),
    Harness('entropy', entropy, quick=[{'n': 6, 'kinds': KINDS}, {'n': 9, 'kinds': KINDS}, {'n': 2}, {'n': 3, 'max_succ': 2}], thorough=[{'n': 2}, {'n': 3}], must_cover=('none', 'positive')),
]
