"""C19 HMM estimation and restriction are exact"""
import itertools
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, long_sequence, many_labels, structured_hmm

BOUNDS = 'estimation: every pair of sequences of length 2..5 over 2 states/2 symbols, length 2..4 over 3 states/2 symbols, length 2..3 over 3 states/3 symbols (by labels or indices); restriction: every model with 3 states and 3 symbols with all zero patterns of the transition matrix (emission patterns selected) and vice versa, all proper subsets of at least two elements; exact real arithmetic; long sequences (40 steps, 11 states, 10 symbols) and restrictions of structured models with 7 states and 5 symbols'
OUTSIDE = 'other longer sequences and larger models'
SY = {2: ['y', 'x'], 3: ['z', 'x', 'y']}


def freq(n, m, pairs):
    c = [[0] * m for _ in range(n)]
    for a, b in pairs:
        c[a][b] += 1
    return [[Fraction(x, sum(r)) if sum(r) else Fraction(1, m) for x in r] for r in c]


def estimate(t, n, k, f):
    xs = t.pick(list(itertools.product(range(n), repeat=f)))
    ys = t.pick(list(itertools.product(range(k), repeat=f)))
    labels, symbols = NAMES[n][-1], SY[k]
    estimate_verdict(t, n, k, xs, ys, labels, symbols)


def estimate_long(t, n, k, f):
    """many states and symbols, some of them never seen"""
    xs = long_sequence(t, n, f, 1, skip=(n // 2,))
    ys = long_sequence(t, k, f, 1, skip=(0,), seed=8)
    estimate_verdict(t, n, k, tuple(xs), tuple(ys), many_labels(n), many_labels(k, 'y'))


def estimate_verdict(t, n, k, xs, ys, labels, symbols):
    a = list(xs) if sum(xs) % 2 else [labels[x] for x in xs]
    b = list(ys) if sum(ys + xs) % 2 else [symbols[y] for y in ys]
    m = t.api.HiddenMarkovModel.estimate(labels, symbols, a, b)
    t.same([m.states, m.symbols, m.n, m.k], [labels, symbols, n, k], 'labels and sizes')
    t.closem(m.p, freq(n, n, zip(xs, xs[1:])), 'transition frequencies')
    t.closem(m.e, freq(n, k, zip(xs, ys)), 'emission frequencies')
    t.cover('estimated')


def estimate_bad(t):
    H = t.api.HiddenMarkovModel
    L, Y = NAMES[2][-1], SY[2]
    xs = t.pick([[0, 1, 0], [0, 1]])
    ys = t.pick([[0, 1, 0, 1], [0]])
    t.rejects(H.estimate, L, Y, xs, ys, msg='sequences of different length', kind=('ValueError', 'ValidationError'))
    t.rejects(H.estimate, L, L, xs, xs, msg='states and symbols share names')
    t.rejects(H.estimate, L, Y, [0, 2], [0, 1], msg='unknown state')
    t.rejects(H.estimate, L, Y, [0, 1], [0, 2], msg='unknown symbol')


def renorm(t, M, rows, cols):
    out = []
    for i in rows:
        r = [M[i][j] for j in cols]
        nz = [x for x in r if not sp.zero(x)]
        s = sp.total(r)
        out.append([x / s for x in r] if nz else [t.const(1) / len(cols)] * len(cols))
    return out


def subsets(n):
    return [list(c) for m in range(2, n) for c in itertools.combinations(range(n), m)]


def restrict(t, n, k, vary, max_succ=None):
    labels, symbols = NAMES[n][-1], SY[k]
    if vary == 'P':
        P = t.stochastic(n, max_succ=max_succ)
        E = t.stochastic(n, k, 'E', supp=t.pick([[list(range(k))] * n, [[0]] + [list(range(1, k))] * (n - 1)]))
    else:
        P = t.stochastic(n, supp=t.pick([[list(range(n))] * n, [[(i + 1) % n] for i in range(n)]]))
        E = t.stochastic(n, k, 'E', max_succ=max_succ)
    ss, ys = t.pick([(a, b) for a in subsets(n) + [None] for b in subsets(k) + [None] if a or b])
    restrict_verdict(t, t.hmm(P, E, labels, symbols), P, E, labels, symbols, ss, ys)


def restrict_long(t, n, k):
    P, E, m, labels, symbols, _, _ = structured_hmm(t, n, k, 1)
    ss = t.pick([None, list(range(n - 2)), [n // 2 - 1, n // 2], list(range(0, n, 2)), [0, n - 1], [i for i in range(n) if i != n // 2]])
    ys = t.pick([None, list(range(1, k)), [0, k - 1], list(range(k // 2, k))] if ss else [list(range(1, k)), [0, k - 1], list(range(0, k, 2))])
    restrict_verdict(t, m, P, E, labels, symbols, ss, ys)


def restrict_verdict(t, m, P, E, labels, symbols, ss, ys):
    n, k = len(P), len(E[0])
    a = None if ss is None else ([labels[x] for x in reversed(ss)] if ys is None or len(ys) % 2 else ss)
    b = None if ys is None else ([symbols[y] for y in reversed(ys)] if ss is None or len(ss) % 2 else ys)
    r = t.call(m.restrict, a, b)
    if r[0] != 'ok':
        t.fail(f'restriction to {a} {b} raised {r[1:]}')
    m2 = r[1]
    rs, rc = ss or list(range(n)), ys or list(range(k))
    t.same(m2.states, [labels[x] for x in rs], 'states kept')
    t.same(m2.symbols, [symbols[y] for y in rc], 'symbols kept')
    t.closem(m2.p, renorm(t, P, rs, rs), 'transition matrix')
    t.closem(m2.e, renorm(t, E, rs, rc), 'emission matrix')
    t.closem(m.p, P, 'source transition matrix')
    t.closem(m.e, E, 'source emission matrix')
    t.same([m.states, m.symbols], [labels, symbols], 'source labels')
    t.cover('restricted')


def restrict_bad(t):
    P, E = t.stochastic(3, supp=[[0, 1, 2]] * 3), t.stochastic(3, 3, 'E', supp=[[0, 1, 2]] * 3)
    m = t.hmm(P, E, NAMES[3][-1], SY[3])
    t.rejects(m.restrict, None, None, msg='nothing to restrict to')
    bad = t.pick([[0], [0, 3], [0, 0], ['nope', 'a'], [0, True], [-1, 1], [], 'ab'])
    t.rejects(m.restrict, bad, None, msg=f'states {bad}')
    t.rejects(m.restrict, None, bad, msg=f'symbols {bad}')
    t.rejects(m.restrict, [0, 1], bad, msg=f'states and symbols {bad}')


HARNESSES = [
    Harness('estimate', estimate, quick=[{'n': 2, 'k': 2, 'f': 2}, {'n': 2, 'k': 2, 'f': 4}, {'n': 3, 'k': 2, 'f': 3}, {'n': 2, 'k': 3, 'f': 3}], thorough=[{'n': 2, 'k': 2, 'f': f} for f in (2, 3, 4, 5)] + [{'n': 3, 'k': 2, 'f': 4}, {'n': 3, 'k': 3, 'f': 3}], must_cover=('estimated',)),
    Harness('estimate_bad', estimate_bad),
    Harness('restrict', restrict, quick=[{'n': 3, 'k': 3, 'vary': 'P', 'max_succ': 2}, {'n': 3, 'k': 3, 'vary': 'E', 'max_succ': 2}], thorough=[{'n': 3, 'k': 3, 'vary': 'P'}, {'n': 3, 'k': 3, 'vary': 'E'}, {'n': 4, 'k': 2, 'vary': 'P', 'max_succ': 1}], must_cover=('restricted',)),
    Harness('estimate_long', estimate_long, quick=[{'n': 11, 'k': 10, 'f': 40}], thorough=[{'n': 11, 'k': 12, 'f': 40}, {'n': 20, 'k': 25, 'f': 200}], must_cover=('estimated',)),
    Harness('restrict_long', restrict_long, quick=[{'n': 7, 'k': 5}], thorough=[{'n': 7, 'k': 5}, {'n': 12, 'k': 11}], must_cover=('restricted',)),
    Harness('restrict_bad', restrict_bad),
]
