"""C18 HMM prediction returns a most probable explanation"""
import itertools
import math
from fractions import Fraction

from engine import spec as sp
from engine import sym as S
from engine.run import Harness
from props.C17 import model, initial, alphas, betas
from props.common import NAMES, HMM_KINDS, structured_hmm

BOUNDS = 'every hidden Markov model with 2 states and 2 symbols with sequences of length 2 (thorough: 3, and 3 symbols), 3-state models on selected zero patterns with sequences of length 2, every initial state, the default and every initial distribution without zeros; exact real arithmetic; structured models with 4 states, 3 symbols and sequences of length 5 (thorough 12 states, length 10)'
OUTSIDE = 'other longer sequences and larger models; near ties (log-probabilities closer than 1e-12, which the code rounds together)'
ASSUMPTIONS = ['rounding of log-probabilities at 1e-12 is taken as exact']


def at_least(t, a, b):
    """a >= b (up to rounding when replayed)"""
    if t.symbolic:
        return t.const(0) + a >= b
    return a >= b * (1 - 1e-9) - 1e-300


def log_is(t, lp, w):
    if t.symbolic:
        d = t.exp_(lp) - w
        return S.mkb(S.form(d == 0))
    return w > 0 and abs(lp - math.log(w)) <= 1e-6 * (1 + abs(lp))


def arg(s, ys, symbols):
    return [symbols[y] for y in ys] if sum(ys) % 2 else list(ys)


def map_(t, n, k, f, max_succ=None, ring=False, forms=None):
    P, E, m, labels, symbols = model(t, n, k, max_succ, ring=ring)
    status, d = initial(t, n, labels, forms, 'w')
    ys = t.pick(list(itertools.product(range(k), repeat=f)))
    map_verdict(t, m, P, E, d, ys, arg(m, ys, symbols), status, labels)


def status_of(t, n, labels, s, forms=3):
    i = t.choose(forms)
    one, zero = t.const(1), t.const(0)
    if i == 0:
        return labels[s], [one if j == s else zero for j in range(n)]
    if i == 1:
        return None, [one / n] * n
    d = [t.const(Fraction(2 * j + 1, n * n)) for j in range(n)]
    return t.arr(d), d


def map_long(t, n, k, f, kinds=HMM_KINDS, seqs=1):
    P, E, m, labels, symbols, ys, s = structured_hmm(t, n, k, f, kinds, seqs=seqs)
    status, d = status_of(t, n, labels, s)
    map_verdict(t, m, P, E, d, ys, [symbols[y] for y in ys], status, labels)


def map_verdict(t, m, P, E, d, ys, seq, status, labels):
    n, f = len(P), len(ys)
    r = m.predict('map', seq, status, output_indices=True)
    a, b = alphas(t, P, E, d, ys), betas(t, P, E, ys)
    prob = sp.total(a[-1])
    if not t.boolean(prob > 0):
        t.same(r, None, 'impossible sequence')
        t.cover('impossible')
        return
    t.same(r is None, False, 'possible sequence')
    lp, xs = r
    xs = [int(x) for x in xs]
    t.same(len(xs), f, 'one state per symbol')
    t.check(log_is(t, lp, prob), 'log-probability of the symbols')
    for s, x in enumerate(xs):
        t.same(0 <= x < n, True, 'state index')
        for j in range(n):
            if j != x:
                t.check(at_least(t, a[s + 1][x] * b[s + 1][x], a[s + 1][j] * b[s + 1][j]), f'state {x} at {s} has maximal posterior (against {j})')
    r = m.predict('map', seq, status)
    t.same(list(r[1]), [labels[x] for x in xs], 'labels')
    t.cover('possible')


def viterbi(t, n, k, f, max_succ=None, ring=False, forms=None, known=False):
    P, E, m, labels, symbols = model(t, n, k, max_succ, ring=ring)
    status, d = initial(t, n, labels, forms, 'w')
    ys = t.pick(list(itertools.product(range(k), repeat=f)))
    viterbi_verdict(t, m, P, E, d, ys, arg(m, ys, symbols), status, labels, known)


def paths_of(P, E, first, ys):
    """{path: probability} of the possible state paths, the state before the first symbol included"""
    n = len(P)
    out = {(i,): first[i] for i in range(n) if not sp.zero(first[i])}
    for y in ys:
        new = {}
        for p, w in out.items():
            for j in range(n):
                if not sp.zero(P[p[-1]][j]) and not sp.zero(E[j][y]):
                    new[p + (j,)] = w * P[p[-1]][j] * E[j][y]
        out = new
    return out


def viterbi_long(t, n, k, f, kinds=('stay', 'tight', 'sole'), seqs=1, forms=3):
    P, E, m, labels, symbols, ys, s = structured_hmm(t, n, k, f, kinds, seqs=seqs)
    status, d = status_of(t, n, labels, s, forms)
    viterbi_verdict(t, m, P, E, d, ys, [symbols[y] for y in ys], status, labels, False)


def viterbi_verdict(t, m, P, E, d, ys, seq, status, labels, known):
    n, f = len(P), len(ys)
    r = m.predict('viterbi' if sum(ys) % 2 else 'mle', seq, status, output_indices=True)
    # the recorded defect weighs the state before the first symbol by the emission of that symbol
    ref, alt = list(d), [d[i] * E[i][ys[0]] for i in range(n)]
    wr, wa = paths_of(P, E, ref, ys), paths_of(P, E, alt, ys)
    pr, pa = list(wr.values()), list(wa.values())
    if known:
        # the documented result, on the inputs where the recorded defect shows
        t.known_tag = 'viterbi-first-emission'
        t.same(r is None, not pr, 'None exactly for impossible sequences')
        if r is not None:
            t.check(t.either([log_is(t, r[0], w) for w in pr]), 'the log-probability is that of a path')
        t.cover('possible')
        return
    if r is None:
        t.same(not pr or not pa, True, 'None only for impossible sequences')
        t.cover('impossible')
        return
    lp, xs = r
    xs = [int(x) for x in xs]
    t.same(len(xs), f, 'one state per symbol')
    t.same(all(0 <= x < n for x in xs), True, 'state indices')
    opts = []
    for ws in (wa, wr):
        for p, w in ws.items():
            # any state before the first symbol
            if list(p[1:]) == xs:
                c = [log_is(t, lp, w)] + [at_least(t, w, v) for v in ws.values() if v is not w]
                if t.symbolic:
                    c = [S.form(x) for x in c]
                    if False in c:
                        continue
                    opts.append(S.mkb(S.f_and([x for x in c if x is not True])))
                else:
                    opts.append(all(c))
    t.check(t.either(opts), f'the path {xs} maximises the joint probability and comes with its logarithm')
    r = m.predict('viterbi', seq, status)
    t.same(list(r[1]), [labels[x] for x in xs], 'labels')
    t.cover('possible')


HARNESSES = [
    Harness('map', map_, quick=[{'n': 2, 'k': 2, 'f': 2}], thorough=[{'n': 2, 'k': 2, 'f': 3}, {'n': 2, 'k': 3, 'f': 2}, {'n': 3, 'k': 2, 'f': 2, 'ring': True, 'max_succ': 2, 'forms': [0, 5]}], must_cover=('possible', 'impossible'), path_s=8.0),
    Harness('viterbi', viterbi, quick=[{'n': 2, 'k': 2, 'f': 2}, {'n': 3, 'k': 2, 'f': 2, 'ring': True, 'max_succ': 2, 'forms': [0]}], thorough=[{'n': 2, 'k': 2, 'f': 3}, {'n': 3, 'k': 2, 'f': 2, 'ring': True, 'max_succ': 2, 'forms': [0, 5]}], must_cover=('possible', 'impossible'), path_s=8.0),
    Harness('map_long', map_long, quick=[{'n': 4, 'k': 3, 'f': 5}], thorough=[{'n': 4, 'k': 3, 'f': 10}, {'n': 6, 'k': 5, 'f': 6}], must_cover=('possible',), path_s=20.0),
    Harness('viterbi_long', viterbi_long, quick=[{'n': 4, 'k': 3, 'f': 5}], thorough=[{'n': 4, 'k': 3, 'f': 8}, {'n': 6, 'k': 5, 'f': 8}, {'n': 12, 'k': 11, 'f': 4}], must_cover=('possible',), path_s=20.0),
    Harness('viterbi_reference', viterbi, quick=[{'n': 2, 'k': 2, 'f': 2, 'max_succ': 1, 'known': True, 'forms': [2]}], must_cover=('possible',)),
]
