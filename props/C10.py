"""C10 First passage, recurrence times and committors solve their equations"""
from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, HUGE, NAMES, TINY

BOUNDS = 'all zero patterns of chains with n=2,3 states and all pairs of disjoint target sets, passage to and between sets for patterns containing a 4-cycle with n=4 and at most 2 successors per state; every positive value of the entries with weights in [1e-9,1e9] (n=4: ratios in [1/100,100]); exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6 and 9 states (thorough 5..12)'
OUTSIDE = 'other chains with more states; floating-point rounding of the linear solver'

CACHE = {}


def stat(t, P):
    pi = sp.stationary_class(P, list(range(len(P))))
    return pi


def passage(t, n, max_succ=None, names=True, mode=None, ring=False, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
        t.cover(kind)
    else:
        P, mc, labels = chain(t, n, False, max_succ, names, ring=ring, **({'lo': TINY, 'hi': HUGE} if n < 4 else {}))
    S = sp.supp(P)
    erg = sp.ergodic(S)
    mode = t.choose(3) if mode is None else mode
    if not erg:
        t.same(mc.mean_first_passage_times_to(), None, 'mean_first_passage_times_to')
        t.same(mc.mean_first_passage_times_to([0]), None, 'mean_first_passage_times_to [0]')
        t.same(mc.mean_first_passage_times_between([0], [1]), None, 'mean_first_passage_times_between')
        t.same(mc.mean_recurrence_times(), None, 'mean_recurrence_times')
        t.same(mc.committor_probabilities('forward', [0], [1]), None, 'forward committor')
        t.same(mc.committor_probabilities('backward', [0], [1]), None, 'backward committor')
        t.cover('not ergodic')
        return
    v = t.val
    if mode == 0:
        M = mc.mean_first_passage_times_to()
        R = mc.mrt() if len(S[0]) % 2 else mc.mean_recurrence_times()
        pi = stat(t, P)
        t.same([len(M), len(M[0]), len(R)], [n, n, n], 'shape')
        for j in range(n):
            t.close(M[j][j], 0, f'passage {j}->{j}')
            t.solves(v(R[j]) * pi[j], 1, f'recurrence {j}')
            for i in range(n):
                if i == j:
                    continue
                s = t.const(1)
                for k in S[i]:
                    if k != j:
                        s = s + P[i][k] * v(M[k][j])
                t.solves(M[i][j], s, f'm = 1 + Pm at {i},{j}')
        t.cover('all')
    elif mode == 1:
        A = t.pick([[0], [n - 2, 1], [2, n - 1, 3]]) if kinds else [1] if n > 3 else t.subset(n)
        form = (sum(A) + len(S[0])) % 2
        arg = A if form else [labels[i] for i in reversed(A)]
        m = (mc.mean_first_passage_times_to if form else mc.mfpt_to if len(A) % 2 else mc.mfptt)(arg)
        t.same(len(m), n, 'length')
        for i in range(n):
            if i in A:
                t.close(m[i], 0, f'passage from target {i}')
                continue
            s = t.const(1)
            for k in S[i]:
                s = s + P[i][k] * v(m[k])
            t.solves(m[i], s, f'm = 1 + Pm at {i}')
        if len(A) < n and not ring:
            O = t.pick([[i for i in range(n) if i not in A][:2], [i for i in range(n) if i not in A]]) if kinds else t.pick([[i] for i in range(n)] + ([[i for i in range(n) if i not in A]] if n - len(A) > 1 else []))
            b = (mc.mean_first_passage_times_between if form else mc.mfpt_between if len(A) % 2 else mc.mfptb)(list(reversed(O)) if not form else [labels[i] for i in O], arg)
            pi = stat(t, P)
            num, den = t.const(0), t.const(0)
            for i in O:
                num = num + pi[i] * v(m[i])
                den = den + pi[i]
            t.solves(v(b) * den, num, f'between {O} and {A}')
            t.cover('between')
    else:
        if kinds:
            A, B = t.pick([([0], [n - 1]), ([n - 2, 1], [0, 2, 3])])
        else:
            A = t.subset(n, proper=True)
            B = [i for i in range(n) if i not in A]
            k = t.choose(1 << len(B))
            B = [x for i, x in enumerate(B) if k >> i & 1]
        if not B:
            t.rejects(mc.committor_probabilities, 'forward', A, B, msg='empty set')
            return
        kind = t.pick(['forward', 'backward'])
        q = (mc.crp if len(A) % 2 else mc.committor_probabilities)(kind, A if len(S[-1]) % 2 else [labels[i] for i in A], B)
        t.same(len(q), n, 'length')
        pi = stat(t, P) if kind == 'backward' else None
        for i in range(n):
            if i in A:
                t.close(q[i], int(kind == 'backward'), f'{kind} committor on A at {i}')
            elif i in B:
                t.close(q[i], int(kind == 'forward'), f'{kind} committor on B at {i}')
            elif kind == 'forward':
                s = t.const(0)
                for j in S[i]:
                    s = s + P[i][j] * v(q[j])
                t.solves(q[i], s, f'forward committor at {i}')
                t.cover('inner')
            else:
                # time-reversed chain: pi_i q_i = sum_j pi_j P_ji q_j
                s = t.const(0)
                for j in range(n):
                    if i in S[j]:
                        s = s + pi[j] * P[j][i] * v(q[j])
                t.solves(v(q[i]) * pi[i], s, f'backward committor at {i}')


def disjoint(t, n):
    """overlapping committor sets are rejected"""
    P, mc, labels = chain(t, n, names=False)
    A, B = t.subset(n), t.subset(n)
    if not set(A) & set(B):
        t.infeasible()
    t.rejects(mc.committor_probabilities, t.pick(['forward', 'backward']), A, B, msg='overlapping sets')


KINDS = ('ring', 'star', 'lazy', 'walk', 'slow', 'fork')

HARNESSES = [
    Harness('passage', passage, quick=[{'n': 2}, {'n': 3, 'names': False}, {'n': 6, 'kinds': KINDS}, {'n': 9, 'kinds': KINDS}, {'n': 4, 'names': False, 'max_succ': 2, 'mode': 1, 'ring': True}],
            thorough=[{'n': n, 'kinds': KINDS} for n in (5, 6, 7, 8, 10, 12)] + [{'n': 2}, {'n': 3}, {'n': 4, 'names': False, 'max_succ': 2, 'mode': 0, 'ring': True}, {'n': 4, 'names': False, 'max_succ': 2, 'mode': 1}, {'n': 4, 'names': False, 'max_succ': 2, 'mode': 2, 'ring': True}],
            must_cover=('not ergodic', 'all', 'between', 'inner')),
    Harness('disjoint', disjoint, quick=[{'n': 2}], thorough=[{'n': 2}]),
]
