"""C27 Mixing time and sensitivity match their definitions"""
import math
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.C12 import dist
from props.common import NAMES, TINY, chain, structured, many_labels

BOUNDS = 'mixing time: every chain with 2 states that mixes within 3 steps (symbolic entries, 4 initial distributions), 14 fixed chains with 2..4 states (fast, slow, periodic, reducible, never mixing within the limit) from every mixture of two neighbouring states (symbolic; thorough: every distribution), jumps 1..3, both cutoffs; sensitivity: every chain with 2 and 3 states (all zero patterns), every target state; sensitivity of structured chains with 6 states; mixing of many fixed chains'
OUTSIDE = 'distances within 1e-9 of the cutoff; 3-state chains with symbolic entries for the mixing time; more states'

F = Fraction
CUT = {'natural': F(1 / (2.0 * math.exp(1.0))), 'traditional': F(1, 4)}
MARGIN = F(1, 10 ** 9)


def l1(t, d, pi):
    r = t.const(0)
    for x, y in zip(d, pi):
        r = r + t.const(1) * (x - y if t.boolean(x >= y) else y - x)
    return r


def check(t, mc, P, d0, default, jump, cut, K, limit):
    """K: steps explored; limit: True when the chain is known to mix within K steps"""
    n = len(P)
    pi = sp.stationaries(P)[0]
    steps = []
    d = d0
    hit = None
    single = None
    for k in range(1, K + 1):
        d = sp.vm(d, P)
        dd = l1(t, d, pi)
        m = MARGIN if t.symbolic else MARGIN / 2
        t.assume_or(dd < CUT[cut] - m, dd > CUT[cut] + m)
        if t.boolean(dd <= CUT[cut]):
            if single is None:
                single = k
            if k % jump == 0:
                hit = k
                break
    if hit is None or hit == 100:
        if limit or hit == 100:
            t.infeasible()
        t.cover('not reached')
    else:
        t.cover('reached')
    args = (None if default else t.arr([d0])[0], jump, cut)
    got = mc.mixing_time(*args) if not (default and jump == 1 and cut == 'natural') else mc.mt()
    if jump > 1 and single is not None:
        t.same_known(got, hit, single * jump, 'mixing-jump', 'mixing time')
        t.cover('jump')
        return
    t.same(got, hit, 'mixing time')


def two(t, jump):
    """any chain with two states, by its second eigenvalue and its stationary distribution"""
    lam = t.real('lam', -1, 1)
    a = t.real('pi', F(1, 1000), F(999, 1000))
    one = t.const(1)
    P = [[a + lam * (one - a), (one - a) * (one - lam)], [a * (one - lam), one - a + lam * a]]
    for i in range(2):
        t.assume(P[i][i] > F(1, 10 ** 6))
        t.assume(P[i][1 - i] > F(1, 10 ** 6))
    mc = t.mc(P, NAMES[2][1])
    cut = t.pick(list(CUT))
    k = t.choose(4)
    d0 = [[t.const(x), t.const(1 - x)] for x in (F(1, 2), F(1), F(0), F(1, 5))][k]
    check(t, mc, P, d0, k == 0, jump, cut, max(3, jump), True)


FIXED = {
    'fast2': [[F(1, 2), F(1, 2)], [F(1, 4), F(3, 4)]],
    'iid2': [[F(1, 4), F(3, 4)], [F(1, 4), F(3, 4)]],
    'oscillating2': [[F(1, 10), F(9, 10)], [F(8, 10), F(2, 10)]],
    'slow2': [[F(9, 10), F(1, 10)], [F(1, 20), F(19, 20)]],
    'glacial2': [[F(999, 1000), F(1, 1000)], [F(1, 1000), F(999, 1000)]],
    'cycle3': [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    'lazycycle3': [[F(1, 10), F(9, 10), 0], [0, F(1, 10), F(9, 10)], [F(9, 10), 0, F(1, 10)]],
    'walk3': [[F(1, 2), F(1, 2), 0], [F(1, 3), F(1, 3), F(1, 3)], [0, F(1, 2), F(1, 2)]],
    'glued3': [[F(1, 2), F(1, 2), 0], [F(1, 2), F(499, 1000), F(1, 1000)], [0, F(1, 1000), F(999, 1000)]],
    'absorbing3': [[F(1, 2), F(1, 4), F(1, 4)], [0, F(1, 2), F(1, 2)], [0, F(1, 2), F(1, 2)]],
    'reducible3': [[1, 0, 0], [F(1, 3), F(1, 3), F(1, 3)], [0, 0, 1]],
    'ring4': [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [F(1, 2), F(1, 2), 0, 0]],
    'walk4': [[F(3, 4), F(1, 4), 0, 0], [F(1, 4), F(1, 2), F(1, 4), 0], [0, F(1, 4), F(1, 2), F(1, 4)], [0, 0, F(1, 4), F(3, 4)]],
    'bipartite4': [[0, 0, F(1, 2), F(1, 2)], [0, 0, F(1, 4), F(3, 4)], [F(1, 2), F(1, 2), 0, 0], [F(1, 3), F(2, 3), 0, 0]],
}


def lazy_ring(n, a, b):
    """clockwise with probability a, the other way with probability b (states shuffled)"""
    w = [(i * (5 if n % 5 else 7) + 1) % n for i in range(n)]
    P = [[F(0)] * n for _ in range(n)]
    for i in range(n):
        P[w[i]][w[i]] += 1 - a - b
        P[w[i]][w[(i + 1) % n]] += a
        P[w[i]][w[i - 1]] += b
    return P


def ladder(n, a):
    """a walk on a line with one leak to the far end"""
    P = [[F(0)] * n for _ in range(n)]
    for i in range(n):
        P[i][min(i + 1, n - 1)] += a
        P[i][max(i - 1, 0)] += 1 - a - F(1, 50)
        P[i][(3 * i + 1) % n] += F(1, 50)
    return P


FIXED.update({'ring6': lazy_ring(6, F(1, 2), F(1, 10)), 'ring8': lazy_ring(8, F(2, 3), F(0)), 'ladder7': ladder(7, F(3, 5)), 'cycle6': lazy_ring(6, F(1), F(0))})
MANY = ['ring6', 'ring8', 'ladder7', 'cycle6']


def segment(t, n, pairs, lo=0):
    """any mixture of two states"""
    i = t.choose(n)
    j = (i + 1 + (t.choose(n - 1) if pairs else 0)) % n
    x = t.real('x', lo, 1)
    return [x if k == i else t.const(1) - x if k == j else t.const(0) for k in range(n)]


def fixed(t, names, jumps=(1,), full=False, pairs=False, start=0):
    name = t.pick(names)
    P = [[t.const(x) for x in r] for r in FIXED[name]]
    n = len(P)
    mc = t.mc(P, NAMES[n][1] if n < 6 else many_labels(n))
    jump = t.pick(jumps)
    default = t.flag()
    cut = t.pick(list(CUT)) if full or default or name not in ('glacial2', 'glued3', 'walk4') else 'natural'
    d0 = [t.const(F(1, n))] * n if default else segment(t, n, pairs, F(99, 100)) if name in ('glacial2', 'glued3') and not full else dist(t, n, 'd') if full or n == 2 else segment(t, n, pairs, start)
    if not sp.ergodic(sp.supp(P)):
        t.same(mc.mixing_time(None if default else t.arr([d0])[0], jump, cut), None, 'not ergodic')
        t.cover('not ergodic')
        return
    check(t, mc, P, d0, default, jump, cut, 100 if name in ('glacial2', 'glued3') else 40, name not in ('glacial2', 'glued3'))


def sens(t, n, few=False, **kw):
    P, mc, labels = chain(t, n, names=False, **kw)
    j = sum(sum(s) for s in sp.supp(P)) % n if few else t.choose(n)
    sens_verdict(t, P, mc, labels, j)


def sens_large(t, n, kinds=('ring', 'walk', 'lazy', 'star', 'blocks', 'lasso', 'slow')):
    P, mc, labels, _ = structured(t, n, kinds)
    sens_verdict(t, P, mc, labels, t.pick([0, n - 1]))


def sens_verdict(t, P, mc, labels, j):
    n = len(P)
    got = mc.sensitivity(labels[j] if j % 2 else j)
    if not sp.irreducible(sp.supp(P)):
        t.same(got, None, 'sensitivity of a reducible chain')
        t.cover('none')
        return
    pi = sp.stationaries(P)[0]
    # S[i][k] = sum over m of pi_i (e_k)' D e_j with D the group inverse: derivatives along e_i (e_k - e_l)'
    t.same([len(got), len(got[0])], [n, n], 'shape')
    for i in range(n):
        for k in range(n):
            # S_i. = pi_i * x,  (I - P) x = e_j - pi_j 1,  pi x = 0
            r = t.const(0)
            for m in range(n):
                r = r + P[k][m] * got[i, m]
            t.close(got[i, k] - r, pi[i] * (t.const(int(k == j)) - pi[j]), f'derivative with respect to ({i}, {k})')
        t.close(sp.dot(pi, [got[i, k] for k in range(n)]), t.const(0), f'normalisation of row {i}')
    t.cover('matrix')


def bad(t):
    P = [[t.const(F(1, 2))] * 2] * 2
    mc = t.mc(P, ['a', 'b'])
    k = t.choose(9)
    f, a = [(mc.mixing_time, ([0.5, 0.6],)), (mc.mixing_time, ([0.5, 0.25, 0.25],)), (mc.mixing_time, (None, 0)), (mc.mixing_time, (None, -1)), (mc.mixing_time, (None, 1.5)),
            (mc.mixing_time, (None, 1, 'other')), (mc.sensitivity, ('c',)), (mc.sensitivity, (2,)), (mc.sensitivity, (-1,))][k]
    t.rejects(f, *a, msg=f'{f.__name__}{a}')


FEW = [x for x in FIXED if x not in MANY]
HARNESSES = [
    Harness('two', two, quick=[{'jump': 1}, {'jump': 2}], thorough=[{'jump': 1}, {'jump': 2}, {'jump': 3}], must_cover=('reached',), path_s=10.0),
    Harness('fixed', fixed, quick=[{'names': FEW}, {'names': ['fast2', 'walk3', 'lazycycle3', 'slow2'], 'jumps': (2, 3)}], thorough=[{'names': FEW, 'full': True}, {'names': FEW, 'pairs': True}, {'names': FEW, 'jumps': (2, 3)}], must_cover=('reached', 'not reached', 'not ergodic'), path_s=20.0),
    Harness('many', fixed, quick=[{'names': MANY, 'start': F(3, 4)}], thorough=[{'names': MANY, 'pairs': True, 'jumps': (1, 2, 3)}], must_cover=('reached', 'not ergodic'), path_s=20.0),
    Harness('sens_large', sens_large, quick=[{'n': 6}], thorough=[{'n': 6}, {'n': 10}], must_cover=('none', 'matrix'), path_s=20.0),
    Harness('sens', sens, quick=[{'n': 2, 'lo': TINY}, {'n': 3, 'max_succ': 2, 'few': True}], thorough=[{'n': 2, 'lo': TINY}, {'n': 3}], must_cover=('none', 'matrix'), path_s=10.0),
    Harness('bad', bad),
]
