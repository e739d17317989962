"""C07 Stationary distributions are exact and complete"""
from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, HUGE, TINY

BOUNDS = 'all zero patterns of chains with n=2,3 states, n=4 with at most 2 successors per state (thorough: n=4 all patterns, n=5 with at most 2 successors); every positive value of the entries with weight ratios in [1/100,100]; exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6, 9 and 12 states (thorough 5..20), entries from 1e-9 (slow, trap)'
OUTSIDE = 'other chains with more states; floating-point rounding (replays compare to relative tolerance 1e-6)'


def stationary(t, n, max_succ=None, names=True, values=True, free=False, kinds=None, wide=False):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
        t.cover(kind)
    else:
        P, mc, labels = chain(t, n, free, max_succ, names, **({'lo': TINY, 'hi': HUGE} if wide else {}))
    S = sp.supp(P)
    rec = sp.recurrent(S)
    order = t.choose(3) if n < 4 else 0
    if order == 1:
        mc.is_ergodic, mc.recurrent_classes, mc.is_reversible
        got = mc.stationary_distributions
    elif order == 2:
        got = mc.steady_states
        t.closem(got, mc.pi, 'steady_states and pi')
    else:
        got = mc.pi
    t.same(len(got), len(rec), 'number of stationary distributions')
    for k, c in enumerate(rec):
        x = list(got[k])
        t.same(len(x), n, 'length')
        tot, bal = t.const(0), [t.const(0)] * n
        for i in range(n):
            v = t.val(x[i])
            if i in c:
                t.check(v > 0, f'pi[{k}][{i}] is positive')
            else:
                t.close(v, 0, f'pi[{k}][{i}] outside its class')
            tot = tot + v
            for j in S[i]:
                bal[j] = bal[j] + v * P[i][j]
        t.close(tot, 1, f'sum of pi[{k}]')
        for i in range(n):
            t.close(bal[i], x[i], f'balance of pi[{k}] at {i}')
        if values and n < 4:
            t.closem(x, sp.stationary_class(P, c), f'pi[{k}]')
    if len(rec) > 1:
        t.cover('several recurrent classes')
    if len(rec) == 1 and len(rec[0]) < n:
        t.cover('one recurrent class and transient states')
    if len(rec) == 1 and sp.period(S, rec[0]) > 1:
        t.cover('periodic')


LARGE = ('line', 'ring', 'walk', 'star', 'blocks', 'slow', 'trap', 'fork', 'pairs')

HARNESSES = [
    Harness('stationary', stationary, quick=[{'n': 2, 'free': True}, {'n': 2, 'wide': True}, {'n': 3, 'wide': True}, {'n': 6, 'kinds': LARGE}, {'n': 9, 'kinds': LARGE}, {'n': 12, 'kinds': LARGE}, {'n': 4, 'max_succ': 2, 'names': False}],
            thorough=[{'n': n, 'kinds': LARGE} for n in (5, 6, 7, 8, 10, 12, 16, 20)] + [{'n': 2, 'wide': True}, {'n': 3, 'wide': True}, {'n': 2, 'free': True}, {'n': 2}, {'n': 3, 'free': True}, {'n': 3}, {'n': 4, 'names': False}, {'n': 5, 'max_succ': 2, 'names': False}],
            must_cover=('several recurrent classes', 'one recurrent class and transient states', 'periodic')),
]
