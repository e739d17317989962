"""C17 HMM decoding returns the exact filter, posterior and likelihood"""
import itertools
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, HMM_KINDS, structured_hmm

BOUNDS = 'every hidden Markov model with 2 states and 2 symbols and every symbol sequence of length 2..3 (quick: 2; selected zero patterns 3), models with 2 states/3 symbols and 3 states/2 symbols with sequences of length 2 (selected zero patterns), every initial state, the default and every initial distribution without zeros (n=3: also with one zero); exact real arithmetic; structured models with 4..6 states, 3..5 symbols and sequences of length 6..8 (thorough 12 states, length 20), decided against forward-backward recursions'
OUTSIDE = 'other longer sequences and larger models, probabilities below 1e-300 (treated as zero by the code), floating-point rounding'
SY = {2: ['y', 'x'], 3: ['z', 'x', 'y']}


def model(t, n, k, max_succ=None, esupp=None, psupp=None, ring=False, param='w'):
    labels, symbols = NAMES[n][-1], SY[k]
    P = t.stochastic(n, max_succ=max_succ, param=param, supp=None if psupp is None else [list(range(n))] * n,
                     allowed=(lambda i, s, rows: (i + 1) % n in s) if ring else None)
    if ring:
        esupp = [[0], [0, 1], [k - 1]]
    E = t.stochastic(n, k, 'E', param=param, max_succ=max_succ, supp=esupp)
    return P, E, t.hmm(P, E, labels, symbols), labels, symbols


def initial(t, n, labels, forms=None, param='p'):
    """(argument, distribution)"""
    i = t.pick(forms if forms is not None else range(n + 2 if n == 2 else n + 3))
    one, zero = t.const(1), t.const(0)
    if i < n:
        d = [one if j == i else zero for j in range(n)]
        return (i if i % 2 else labels[i]), d
    if i == n:
        return None, [one / n] * n
    d = t.distribution(n, list(range(n)) if i == n + 1 else [0, n - 1], 'd', param)
    return t.arr(d), d


def alphas(t, P, E, d, ys):
    """P(y_1..y_t, x_t = i) for t = 0..f, with the initial distribution one step before the first symbol"""
    n = len(P)
    out = [list(d)]
    for y in ys:
        a = out[-1]
        out.append([sp.total([a[i] * P[i][j] for i in range(n)]) * E[j][y] for j in range(n)])
    return out


def betas(t, P, E, ys):
    n = len(P)
    out = [[t.const(1)] * n]
    for y in reversed(ys):
        b = out[0]
        out.insert(0, [sp.total([P[i][j] * E[j][y] * b[j] for j in range(n)]) for i in range(n)])
    return out


def decode(t, n, k, f, max_succ=None, full=False, forms=None, ring=False):
    esupp = None
    if full:
        # transition matrix without zeros, one emission missing
        esupp = [list(range(k))] * (n - 1) + [list(range(1, k))]
    P, E, m, labels, symbols = model(t, n, k, max_succ, esupp, True if full else None, ring)
    status, d = initial(t, n, labels, forms)
    ys = t.pick(list(itertools.product(range(k), repeat=f)))
    seq = [symbols[y] for y in ys] if sum(ys) % 2 else list(ys)
    verdict(t, m, P, E, d, ys, seq, status)


def long(t, n, k, f, kinds=HMM_KINDS, seqs=1):
    """many states and symbols, a long sequence, one symbolic probability"""
    P, E, m, labels, symbols, ys, s = structured_hmm(t, n, k, f, kinds, Fraction(1, 10 ** 14), seqs)
    i = t.choose(3)
    one, zero = t.const(1), t.const(0)
    if i == 0:
        status, d = None, [one / n] * n
    elif i == 1:
        status, d = labels[s], [one if j == s else zero for j in range(n)]
    else:
        d = [t.const(Fraction(2 * j + 1, n * n)) for j in range(n)]
        status = t.arr(d)
    verdict(t, m, P, E, d, ys, [symbols[y] for y in ys] if i != 1 else list(ys), status)


def verdict(t, m, P, E, d, ys, seq, status):
    n, f = len(P), len(ys)
    r = m.decode(seq, status, True)
    a, b = alphas(t, P, E, d, ys), betas(t, P, E, ys)
    prob = sp.total(a[-1])
    if not t.boolean(prob > 0):
        t.same(r, None, 'a sequence of probability zero')
        t.same(m.decode(seq, status, False), None, 'a sequence of probability zero')
        t.cover('impossible')
        return
    t.cover('possible')
    t.same(r is None, False, 'the sequence is possible')
    lp, post, back, forw, scale = r
    t.close(t.exp_(lp), prob, 'log-likelihood')
    t.closem(post, [[a[s][i] * b[s][i] / prob for s in range(1, f + 1)] for i in range(n)], 'posterior')
    for s in range(f):
        t.close(sp.total([post[i][s] for i in range(n)]), t.const(1), 'posterior column')
    tot = [sp.total(x) for x in a]
    tot[0] = t.const(1)
    t.closem(forw, [[a[s][i] / tot[s] for s in range(f + 1)] for i in range(n)], 'scaled forward (filter)')
    t.closem(scale, [t.const(1)] + [tot[s] / tot[s - 1] for s in range(1, f + 1)], 'scaling factors')
    t.closem(back, [[b[s][i] * tot[s] / prob for s in range(f + 1)] for i in range(n)], 'scaled backward')
    r = m.decode(seq, status, use_scaling=False)
    t.same(r is None, False, 'the sequence is possible')
    lp, post, back, forw, scale = r
    t.same(scale, None, 'no scaling factors')
    t.close(t.exp_(lp), prob, 'unscaled log-likelihood')
    t.closem(post, [[a[s][i] * b[s][i] / prob for s in range(1, f + 1)] for i in range(n)], 'unscaled posterior')
    t.closem(forw, [[a[s][i] for s in range(f + 1)] for i in range(n)], 'forward')
    t.closem(back, [[b[s][i] for s in range(f + 1)] for i in range(n)], 'backward')


HARNESSES = [
    Harness('decode', decode,
            quick=[{'n': 2, 'k': 2, 'f': 2}, {'n': 2, 'k': 2, 'f': 3, 'full': True}, {'n': 2, 'k': 3, 'f': 2, 'full': True}, {'n': 3, 'k': 2, 'f': 2, 'ring': True, 'max_succ': 2, 'forms': [0, 5]}],
            thorough=[{'n': 2, 'k': 2, 'f': 3}, {'n': 2, 'k': 3, 'f': 2}, {'n': 3, 'k': 2, 'f': 2, 'ring': True}, {'n': 2, 'k': 2, 'f': 4, 'full': True}],
            must_cover=('possible', 'impossible'), path_s=8.0),
    Harness('long', long,
            quick=[{'n': 3, 'k': 3, 'f': 4, 'kinds': ('sole',)}, {'n': 4, 'k': 3, 'f': 8}, {'n': 6, 'k': 5, 'f': 6, 'kinds': ('tight',)}],
            thorough=[{'n': 4, 'k': 3, 'f': 20, 'seqs': 3}, {'n': 8, 'k': 6, 'f': 10}, {'n': 12, 'k': 11, 'f': 6}],
            must_cover=('possible',), path_s=20.0),
]
