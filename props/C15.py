"""C15 Lumping accepts exactly the lumpable partitions"""
import numpy as np

from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, TINY as RARE

BOUNDS = 'chains with n=3 states on all zero patterns and n=4,5 states with positive entries, every consecutive partition given by index or label; every value of the entries in [1/100,1]; block sums that differ by more than 1e-3 must be refused and sums that agree up to 1e-10 accepted; exact real arithmetic; lumpable chains with blocks of sizes up to 5 (up to 10 states) and their perturbations'
OUTSIDE = 'other chains with more states; deviations between the two tolerances; the list of partitions misses some partitions in floating point because it compares with exact equality (listed finding)'

TINY, BIG = '1/10000000000', '1/1000'


def partitions(n):
    out = []
    for m in range(1 << (n - 1)):
        bl, cur = [], []
        for i in range(n):
            cur.append(i)
            if m >> i & 1 or i == n - 1:
                bl.append(cur)
                cur = []
        if 2 <= len(bl) < n:
            out.append(bl)
    return out


def deviations(P, part):
    """differences of block sums inside a block"""
    out = []
    for b in part:
        for c in part:
            s = [sp.total([P[i][j] for j in c]) for i in b]
            out += [x - s[0] for x in s[1:]]
    return out


def make(t, n, full):
    labels = ['long', 'b', 'cc', 'dd d', 'a'][:n]
    if full in ('one row', 'two rows'):
        q = t.const(1) / n
        P = [t.distribution(n, list(range(n)), f'P{i}', 'p') if i in ((1, 2) if full == 'two rows' else (1,)) else [q] * n for i in range(n)]
        return P, t.mc(P, labels), labels
    P = t.stochastic(n, supp=[list(range(n))] * n if full else None, param='p')
    return P, t.mc(P, labels), labels


def lump(t, n, full=False):
    P, mc, labels = make(t, n, full)
    part = t.pick(partitions(n))
    arg = part if len(part[0]) % 2 else [[labels[i] for i in b] for b in part]
    devs = [t.const(0) + d for d in deviations(P, part)]
    r = t.call(mc.lump, arg)
    if r[0] == 'exc':
        t.same(r[1], 'ValueError', 'kind of error')
        t.check_any([abs(d) > t.const(TINY) for d in devs], f'lumpable partition {part} refused')
        t.cover('refused')
        return
    for d in devs:
        t.check(abs(d) <= t.const(BIG), f'partition {part} accepted although it is not lumpable')
    q = r[1]
    t.same(q.states, [','.join(labels[i] for i in b) for b in part], 'labels')
    t.same(q.size, len(part), 'size')
    # any state of a block gives the probabilities of the block (up to the tolerance of the check)
    for a, b in enumerate(part):
        for c, d in enumerate(part):
            want = sp.total([sp.total([P[i][j] for j in d]) for i in b]) / len(b)
            t.close(q.p[a][c], want, f'lumped probability {a},{c}', tol=1e-5)
    t.cover('accepted')


def listing(t, n, full=False):
    P, mc, labels = make(t, n, full)
    got = [[[int(i) for i in b] for b in part] for part in mc.lumping_partitions]
    allp = partitions(n)
    for part in got:
        t.same(part in allp, True, f'listed partition {part} is a non-trivial consecutive partition')
    t.same(len(got), len({repr(x) for x in got}), 'no repetitions')
    for part in allp:
        devs = [t.const(0) + d for d in deviations(P, part)]
        if part in got:
            for d in devs:
                t.check(abs(d) <= t.const(BIG), f'partition {part} listed although it is not lumpable')
            t.cover('listed')
        elif not t.symbolic and all(abs(d) <= t.const(TINY) for d in devs) and not exact_in_floats(P, part):
            t.soft.append((f'lumpable partition {part} not listed because of rounding', 'lumping-exact-equality'))
        else:
            t.check_any([abs(d) > t.const(0) for d in devs], f'lumpable partition {part} not listed')
            t.cover('not listed')


def exact_in_floats(P, part):
    """the recorded defect: block sums are compared with exact equality of doubles"""
    p = np.array([[float(x) for x in r] for r in P])
    r = np.zeros((len(P), len(part)))
    for k, b in enumerate(part):
        r[b, k] = 1.0
    k = np.dot(np.linalg.inv(np.dot(r.T, r)), r.T)
    return np.array_equal(np.dot(np.dot(np.dot(r, k), p), r), np.dot(p, r))


def rounding(t):
    c = t.const
    P = [[c(0), c('3/10'), c('7/10')], [c('1/10'), c('1/2'), c('2/5')], [c('1/10'), c('1/5'), c('7/10')]]
    mc = t.mc(P, NAMES[3][-1])
    got = [[[int(i) for i in b] for b in part] for part in mc.lumping_partitions]
    if not t.symbolic and got == [] and not exact_in_floats(P, [[0], [1, 2]]):
        t.soft.append(('lumpable partition [[0], [1, 2]] not listed because of rounding', 'lumping-exact-equality'))
    else:
        t.same(got, [[[0], [1, 2]]], 'lumping partitions')
    t.same(mc.lump([[0], [1, 2]]).size, 2, 'lump')


def errors(t):
    """inadmissible partitions are refused, two states cannot be lumped"""
    P, mc, labels = make(t, 3, True)
    bad = t.pick([[[0, 1, 2]], [[0], [1], [2]], [[0, 2], [1]], [[1], [0, 2]], [[0], [1]], [[0, 1], [1, 2]], [[0], [1, 3]], [[0], [labels[1], labels[2]]],
                  [], [[], [0, 1, 2]], [[-1], [0, 1]], [['zz'], [labels[1], labels[2]]], 'ab', None, [0, [1, 2]], [[labels[1]], [labels[0], labels[2]]], [[0], [True, 2]]])
    if bad == [[], [0, 1, 2]]:
        r = t.call(mc.lump, bad)
        t.same(r[0], 'exc', 'empty block')
        return
    t.rejects(mc.lump, bad, msg=f'partition {bad}')
    Q, mc2, _ = make(t, 2, True)
    t.rejects(mc2.lump, [[0], [1]], msg='two states', kind=('ValidationError', 'ValueError'))
    t.same(mc2.lumping_partitions, [], 'two states')


def large(t, sizes, shift=True):
    """more states: a chain that is lumpable by construction, with the mass of each block spread in a symbolic proportion,
    and the same chain with a symbolic amount moved from one block to another in one row"""
    n = sum(sizes)
    blocks, k = [], 0
    for z in sizes:
        blocks.append(list(range(k, k + z)))
        k += z
    m = len(blocks)
    c = t.const
    Q = [[c(2 + (3 * a + b) % m) for b in range(m)] for a in range(m)]
    Q = [[x / sp.total(r) for x in r] for r in Q]
    x = t.real('x', RARE, 1 - RARE)
    row = t.choose(n)
    P = [[c(0)] * n for _ in range(n)]
    for a, A in enumerate(blocks):
        for q, i in enumerate(A):
            P[i] = list(P[i])
            for b, B in enumerate(blocks):
                w = [c(1 + (i * 3 + j) % 4) for j in B]
                w = [v / sp.total(w) for v in w]
                if i == row and len(B) > 1:
                    w[0], w[1] = (w[0] + w[1]) * x, (w[0] + w[1]) * (1 - x)
                for j, v in zip(B, w):
                    P[i][j] = Q[a][b] * v
    y = c(0)
    if shift:
        y = t.real('y', 0, 1)
        a, b = blocks[0][-1], blocks[-1][0]
        other = row if row != 1 else n - 2
        t.assume(P[other][b] - y >= 0)
        P[other][a], P[other][b] = P[other][a] + y, P[other][b] - y
    labels = ['s' + str((i * 7 + 4) % n + 7) for i in range(n)] if n % 7 else ['t' + str(n - i + 5) for i in range(n)]
    mc = t.mc(P, labels)
    part = t.pick([blocks, [blocks[0] + blocks[1]] + blocks[2:] if m > 2 else blocks])
    devs = [c(0) + d for d in deviations(P, part)]
    r = t.call(mc.lump, part)
    if r[0] == 'exc':
        t.same(r[1], 'ValueError', 'kind of error')
        t.check_any([abs(d) > c(TINY) for d in devs], f'lumpable partition {part} refused')
        t.cover('refused')
        return
    for d in devs:
        t.check(abs(d) <= c(BIG), f'partition {part} accepted although it is not lumpable')
    t.same(r[1].states, [','.join(labels[i] for i in b) for b in part], 'labels')
    for a, b in enumerate(part):
        for e, d in enumerate(part):
            want = sp.total([sp.total([P[i][j] for j in d]) for i in b]) / len(b)
            t.close(r[1].p[a][e], want, f'lumped probability {a},{e}', tol=1e-5)
    t.cover('accepted')


HARNESSES = [
    Harness('lump', lump, quick=[{'n': 3}, {'n': 4, 'full': True}], thorough=[{'n': 3}, {'n': 4, 'full': True}, {'n': 5, 'full': True}], must_cover=('refused', 'accepted')),
    Harness('listing', listing, quick=[{'n': 3}, {'n': 4, 'full': 'one row'}], thorough=[{'n': 3}, {'n': 4, 'full': 'two rows'}, {'n': 4, 'full': True}], must_cover=('listed', 'not listed')),
    Harness('large', large, quick=[{'sizes': (3, 2, 2)}, {'sizes': (1, 3, 4)}, {'sizes': (5, 4), 'shift': False}], thorough=[{'sizes': s} for s in ((3, 2, 2), (1, 3, 4), (2, 2, 2, 2), (5, 4), (1, 1, 5), (2, 3, 1, 4))], must_cover=('refused', 'accepted')),
    Harness('rounding', rounding, quick=[{}], thorough=[{}], float_sensitive=True),
    Harness('errors', errors, quick=[{}], thorough=[{}]),
]
