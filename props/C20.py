"""C20 Sequence fitting returns the estimator it names"""
import itertools
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, long_sequence, many_labels

BOUNDS = 'every sequence of length 2..6 over 2 states, 2..4 over 3 states and 2..3 over 4 states, by labels and by indices; every matrix of integer hyperparameters between 1 and 50 (symbolic); sequences of length 30 over 11 states (thorough up to 100, 25 states); one transition observed 150 times (thorough 20000) over 3 states'
OUTSIDE = 'other longer sequences, more states'


def counts(n, xs):
    c = [[0] * n for _ in range(n)]
    for a, b in zip(xs, xs[1:]):
        c[a][b] += 1
    return c


def seq(t, n, f):
    xs = t.pick(list(itertools.product(range(n), repeat=f)))
    labels = NAMES[n][-1]
    return xs, (list(xs) if sum(xs) % 2 else [labels[x] for x in xs]), labels


def valid(t, mc, labels, n):
    t.same([mc.states, mc.size], [labels, n], 'labels')
    for i in range(n):
        t.close(sp.total([mc.p[i, j] for j in range(n)]), t.const(1), 'row sum')


def mle(t, n, f):
    mle_verdict(t, n, *seq(t, n, f))


def long(t, n, f, fit):
    """many states, one of them never seen, any state at one position"""
    xs = long_sequence(t, n, f, 1, skip=(n // 2,), seed=f)
    labels = many_labels(n)
    arg = xs if xs[f // 2] % 2 else [labels[x] for x in xs]
    if fit == 'mle':
        mle_verdict(t, n, xs, arg, labels)
    else:
        map_verdict(t, n, xs, arg, labels, fit == 'default', [xs[0], n // 2], [xs[1], n - 1])


def often(t, fit, times):
    """the same transition again and again"""
    a, b = t.pick([(0, 0), (0, 1), (1, 0), (2, 2)])
    xs = ([a, b] * times)[:2 * times - t.choose(2)] + [2]
    labels = NAMES[3][-1]
    arg = xs if a else [labels[x] for x in xs]
    if fit == 'mle':
        mle_verdict(t, 3, xs, arg, labels)
    else:
        map_verdict(t, 3, xs, arg, labels, fit == 'default', [a, 2], [b])


def mle_verdict(t, n, xs, arg, labels):
    smooth = t.pick([False, True])
    mc = t.api.MarkovChain.fit_sequence('mle', labels, arg, smooth)
    c = [[t.const(x) + (t.const(Fraction(1, 1000)) if smooth else 0) for x in r] for r in counts(n, xs)]
    want = []
    for r, k in zip(c, counts(n, xs)):
        s = sp.total(r)
        want.append([x / s for x in r] if smooth or sum(k) else [t.const(1) / n] * n)
    t.closem(mc.p, want, 'relative frequencies', 1e-9)
    valid(t, mc, labels, n)
    t.cover('fit')


def map_(t, n, f, default=False, rows=None):
    map_verdict(t, n, *seq(t, n, f), default, range(n) if rows is None else range(rows))


def map_verdict(t, n, xs, arg, labels, default, free, cols=range(100)):
    c = counts(n, xs)
    if default:
        A = [[t.const(1)] * n for _ in range(n)]
        mc = t.api.MarkovChain.fit_sequence('map', labels, arg)
    else:
        A = [[t.integer(f'a{i}_{j}', 1, 50) if i in free and j in cols else t.const(1 + (i + j) % 2) for j in range(n)] for i in range(n)]
        mc = t.api.MarkovChain.fit_sequence('map', labels, arg, t.arr(A))
    want = []
    for i in range(n):
        w = [t.const(c[i][j] - 1) + A[i][j] for j in range(n)]
        s = sp.total(w)
        if t.boolean(s > 0):
            want.append([x / s for x in w])
            t.cover('posterior')
        else:
            want.append([t.const(1) / n] * n)
            t.cover('uniform')
    t.closem(mc.p, want, 'posterior mode')
    valid(t, mc, labels, n)


def bad(t):
    F = t.api.MarkovChain.fit_sequence
    L = NAMES[2][-1]
    k = t.choose(12)
    if k == 0:
        t.rejects(F, 'map', L, [0, 1], [[1, 1], [1, 0]], msg='hyperparameter below one')
    elif k == 1:
        x = t.real('x', 0, 5)
        t.assume_or(x < 1, x > 4)
        t.assume_or(x < Fraction(99, 100), x < Fraction(45, 10))
        t.assume(x > 0)
        t.assume_or(x < 1, x > Fraction(41, 10))
        t.rejects(F, 'map', L, [0, 1], t.arr([[x, t.const(1)], [t.const(1), t.const(2)]]), msg='hyperparameter not a positive integer')
    elif k == 2:
        t.rejects(F, 'map', L, [0, 1], [[1, 1, 1], [1, 1, 1]], msg='hyperparameter of the wrong shape')
    elif k == 3:
        t.rejects(F, 'mle', L, [0, 1], 1, msg='smoothing not a boolean')
    elif k == 4:
        t.rejects(F, 'other', L, [0, 1], msg='unknown fit')
    elif k == 5:
        t.rejects(F, 'mle', L, [0], msg='too short')
    elif k == 6:
        t.rejects(F, 'mle', L, [0, 2], msg='unknown state')
    elif k == 7:
        t.rejects(F, 'mle', L, ['a', 'c'], msg='unknown state')
    elif k == 8:
        t.rejects(F, 'mle', ['a', 'a'], [0, 1], msg='repeated labels')
    elif k == 9:
        t.rejects(F, 'mle', L, ['a', 1], msg='mixed sequence')
    elif k == 10:
        t.rejects(F, 'mle', ['a'], [0, 0], msg='one state')
    else:
        t.rejects(F, 'mle', L, [-1, 0], msg='negative index')


HARNESSES = [
    Harness('mle', mle, quick=[{'n': 2, 'f': 2}, {'n': 2, 'f': 5}, {'n': 3, 'f': 4}, {'n': 4, 'f': 3}], thorough=[{'n': 2, 'f': f} for f in range(2, 8)] + [{'n': 3, 'f': f} for f in (2, 3, 4, 5)] + [{'n': 4, 'f': 4}], must_cover=('fit',)),
    Harness('map', map_, quick=[{'n': 2, 'f': 2}, {'n': 2, 'f': 5}, {'n': 3, 'f': 3, 'rows': 1}, {'n': 3, 'f': 4, 'default': True}], thorough=[{'n': 2, 'f': f} for f in range(2, 7)] + [{'n': 3, 'f': 4}, {'n': 4, 'f': 3}, {'n': 3, 'f': 4, 'default': True}, {'n': 4, 'f': 3, 'default': True}], must_cover=('posterior', 'uniform')),
    Harness('long', long, quick=[{'n': 11, 'f': 30, 'fit': x} for x in ('mle', 'default', 'map')], thorough=[{'n': n, 'f': f, 'fit': x} for x in ('mle', 'default', 'map') for n, f in ((11, 30), (6, 100), (25, 60))], must_cover=('fit', 'posterior', 'uniform')),
    Harness('often', often, quick=[{'fit': x, 'times': 150} for x in ('mle', 'default', 'map')], thorough=[{'fit': x, 'times': 20000} for x in ('mle', 'default', 'map')], must_cover=('fit', 'posterior')),
    Harness('bad', bad),
]
