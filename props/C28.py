"""C28 Statistical assessments compute the stated statistics"""
import itertools
import math
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, long_sequence, many_labels, structured

BOUNDS = 'theoretical compatibility: every chain with 2 and 3 states (zero patterns within the parameters, symbolic entries), sequences up to length 5 (2 states) and 4 (3 states); homogeneity: pairs and triples of short sequences over 2 and 3 states; first order, Markov property and stationarity: every sequence of the given lengths (up to 11, 10 and 8 over 2 states, 6 over 3 states), 1..3 blocks; every significance level in (0, 0.2] (symbolic); long sequences (up to 90 steps) over 3..11 states'
OUTSIDE = 'the chi-square distribution function itself (taken from scipy); significance levels within 1e-9 of the p-value; longer sequences; p-values with zero degrees of freedom'

F = Fraction
nan = float('nan')


def special(x):
    return isinstance(x, float) and (x != x or x in (math.inf, -math.inf))


def cdf(t, x, dof):
    if t.symbolic:
        from engine import npshim as N
        return N._chi(x, dof)
    import scipy.stats
    return float(scipy.stats.chi2.cdf(float(x), float(dof)))


def level(t, dflt):
    """the significance level: default or any valid value"""
    if dflt:
        return t.const(F(1, 20)), ()
    s = t.real('s', F(1, 10 ** 6), F(1, 5))
    return s, (t.val(s),)


def verdict(t, r, stat, dof, s, known=None):
    """result r against the statistic (None: undefined)"""
    t.same(len(r), 3, 'result')
    t.same(sorted(r[2]), ['chi2', 'dof'], 'details')
    if stat is None:
        t.same(r[0], None, 'undefined test')
        t.check(special(r[1]) and r[1] != r[1], 'undefined p-value')
        return
    if known is not None:
        t.close_known(r[2]['chi2'], stat, known[0], known[1], 'statistic')
    else:
        t.close(r[2]['chi2'], stat, 'statistic')
    t.same(int(r[2]['dof']), dof, 'degrees of freedom')
    x = r[2]['chi2']
    if dof > 0:
        c = t.const(1) if special(x) else cdf(t, x, dof)
        t.close(r[1], 1 - c, 'p-value')
        p = r[1]
        m = F(1, 10 ** 9)
        t.assume_or(p < s - m, p > s + m)
    t.same(bool(r[0]), bool(r[1] < s), 'rejection')
    t.cover('rejected' if bool(r[0]) else 'accepted')


def counts(n, xs):
    c = [[0] * n for _ in range(n)]
    for a, b in zip(xs, xs[1:]):
        c[a][b] += 1
    return c


def arg(xs, labels):
    return list(xs) if sum(xs) % 2 else [labels[x] for x in xs]


def theoretical(t, n, f, supps=None):
    labels = NAMES[n][1]
    supp = t.supports(n) if supps is None else t.pick(supps)
    P = t.stochastic(n, supp=supp)
    mc = t.mc(P, labels)
    xs = t.pick(list(itertools.product(range(n), repeat=f)))
    theoretical_verdict(t, n, P, mc, labels, supp, xs)


def theoretical_long(t, n, f):
    """a walk of a chain with many states, but for one position"""
    P, mc, labels, kind = structured(t, n, ('lazy', 'star', 'blocks', 'line'))
    supp = sp.supp(P)
    i, g, xs = n // 2, 5, []
    for _ in range(f):
        xs.append(i)
        g = (g * 75 + 74) % 65537
        i = supp[i][g // 7 % len(supp[i])]
    if t.flag():
        xs[t.pick([0, f // 2, f - 1])] = t.choose(n)
    theoretical_verdict(t, n, P, mc, labels, supp, tuple(xs))


def theoretical_verdict(t, n, P, mc, labels, supp, xs):
    s, extra = level(t, sum(xs) % 3 == 0)
    r = t.api.assess_theoretical_compatibility(mc, arg(xs, labels), *extra)
    c = counts(n, xs)
    if any(c[i][j] and j not in supp[i] for i in range(n) for j in range(n)):
        t.same(bool(r[0]), True, 'impossible transition')
        t.close(r[1], t.const(0), 'p-value of an impossible transition')
        t.cover('impossible')
        return
    stats = []
    for tot in ([sum(x) for x in c], [sum(x) for x in zip(*c)]):
        v = t.const(0)
        for i in range(n):
            for j in range(n):
                if c[i][j]:
                    if tot[i] == 0:
                        v = math.inf
                    elif not special(v):
                        v = v + t.const(2 * c[i][j]) * t.log_(t.const(c[i][j]) / (t.const(tot[i]) * P[i][j]))
        stats.append(v)
    dof = sum(len(x) for x in supp) - n
    if dof == 0:
        t.close_known(r[2]['chi2'], stats[0], stats[1], 'compatibility-columns', 'statistic')
        t.same(int(r[2]['dof']), 0, 'degrees of freedom')
        return
    verdict(t, r, stats[0], dof, s, (stats[1], 'compatibility-columns'))


def homogeneity(t, n, lens):
    labels = NAMES[n][1]
    seqs = [t.pick(list(itertools.product(range(n), repeat=f))) for f in lens]
    homogeneity_verdict(t, n, seqs, labels)


def homogeneity_long(t, n, lens):
    seqs = [tuple(long_sequence(t, n, f, int(k == 0), skip=(k,) if k else (), seed=k)) for k, f in enumerate(lens)]
    homogeneity_verdict(t, n, seqs, many_labels(n))


def homogeneity_verdict(t, n, seqs, labels):
    k = len(seqs)
    s, extra = level(t, sum(map(sum, seqs)) % 3 == 0)
    r = t.api.assess_homogeneity(labels, [arg(x, labels) if sum(seqs[0]) % 2 == 0 else list(x) for x in seqs] if sum(seqs[0]) % 2 else [[labels[y] for y in x] for x in seqs], *extra)
    if not any(set(a) & set(b) for a, b in itertools.combinations(seqs, 2)):
        verdict(t, r, None, None, s)
        t.cover('disjoint')
        return
    cs = [counts(n, x) for x in seqs]
    tot = [[sum(c[i][j] for c in cs) for j in range(n)] for i in range(n)]
    N = sum(map(sum, tot))
    v = t.const(0)
    for c in cs:
        Nk = sum(map(sum, c))
        for i in range(n):
            for j in range(n):
                if c[i][j]:
                    v = v + t.const(2 * c[i][j]) * t.log_(t.const(F(c[i][j] * N, Nk * tot[i][j])))
    verdict(t, r, v, n * (n - 1) * (k - 1), s)


def contingency(ct, correction=True):
    """Pearson statistic of a table (Yates correction with one degree of freedom), None if undefined"""
    R = [sum(x) for x in ct]
    C = [sum(x) for x in zip(*ct)]
    N = sum(R)
    if not all(R) or not all(C):
        return None
    v = F(0)
    for i, row in enumerate(ct):
        for j, o in enumerate(row):
            e = F(R[i]) * C[j] / N
            d = abs(F(o) - e)
            if len(R) == 2 and len(C) == 2 and correction:
                d -= min(F(1, 2), d)
            v += d * d / e
    return v


def first_order(t, n, f):
    labels = NAMES[n][-1]
    xs = t.pick(list(itertools.product(range(n), repeat=f)))
    first_order_verdict(t, n, xs, labels)


def long(t, n, f, what, skip=(), **kw):
    xs = tuple(long_sequence(t, n, f, 1, skip, kw.pop('seed', 3)))
    {'first_order': first_order_verdict, 'markov': markov_verdict, 'stationarity': stationarity_verdict}[what](t, n, xs, many_labels(n), **kw)


def first_order_verdict(t, n, xs, labels):
    s, extra = level(t, sum(xs) % 3 == 0)
    r = t.api.assess_first_order(labels, arg(xs, labels), *extra)
    v = F(0)
    for m in range(n):
        ct = [[sum(1 for a, b, c in zip(xs, xs[1:], xs[2:]) if (a, b, c) == (i, m, j)) for j in range(n)] for i in range(n)]
        x = contingency(ct)
        v = None if x is None or v is None else v + x
    verdict(t, r, None if v is None else t.const(v), n * (n - 1) ** 2, s)
    t.cover('undefined' if v is None else 'defined')


def markov(t, n, f, labels=None):
    labels = labels or NAMES[n][-1]
    xs = t.pick(list(itertools.product(range(n), repeat=f)))
    markov_verdict(t, n, xs, labels)


def markov_verdict(t, n, xs, labels):
    f = len(xs)
    s, extra = level(t, sum(xs) % 3 == 0)
    r = t.api.assess_markov_property(labels, arg(xs, labels), *extra)
    c = counts(n, xs)
    sample = xs[:f - f % 3]
    tri = list(zip(sample, sample[1:], sample[2:]))
    v = F(0)
    for a, b, d in sorted(set(tri)):
        o = tri.count((a, b, d))
        e = F(sum(1 for x in tri if x[:2] == (a, b)) * c[b][d], sum(c[b]))
        v += (o - e) ** 2 / e
    dof = len(set(zip(xs, xs[1:], xs[2:]))) - len(set(zip(xs, xs[1:]))) + len(set(xs)) - 1
    verdict(t, r, t.const(v), dof, s)


def stationarity(t, n, f, blocks):
    labels = NAMES[n][-1]
    xs = t.pick(list(itertools.product(range(n), repeat=f)))
    stationarity_verdict(t, n, xs, labels, blocks)


def stationarity_verdict(t, n, xs, labels, blocks):
    f = len(xs)
    dflt = sum(xs) % 3 == 0
    s, extra = level(t, dflt)
    r = t.api.assess_stationarity(labels, arg(xs, labels), blocks, *extra)
    v = F(0)
    for m in range(n):
        ct = [[F(0)] * n for _ in range(blocks)]
        for i in range(f - 1):
            if xs[i] == m:
                ct[((i + 1) * blocks + f - 1) // f - 1][xs[i + 1]] += 1
        ct = [[x / sum(row) for x in row] if sum(row) else [F(1, n)] * n for row in ct]
        if blocks == 1:
            x = sum(((y - F(1, n)) ** 2 * n for y in ct[0]), F(0))
        else:
            x = contingency(ct)
        v = None if x is None or v is None else v + x
    verdict(t, r, None if v is None else t.const(v), n * (n - 1) * (blocks - 1), s)
    t.cover('undefined' if v is None else 'defined')


def bad(t):
    A = t.api
    mc = t.mc([[t.const(F(1, 2))] * 2] * 2, ['a', 'b'])
    L, X = ['a', 'b'], [0, 1, 0, 1, 1, 0]
    fs = [(A.assess_first_order, (L, X)), (A.assess_markov_property, (L, X)), (A.assess_stationarity, (L, X, 2)), (A.assess_homogeneity, (L, [X, X])), (A.assess_theoretical_compatibility, (mc, X))]
    f, a = t.pick(fs)
    k = t.choose(3)
    if k == 0:
        s = t.real('s', -1, 1)
        t.assume_or(s < F(1, 5) - F(1, 10 ** 9), s > F(1, 5) + F(1, 10 ** 9))
        valid = t.boolean(s > 0) and t.boolean(s <= F(1, 5))
        if valid:
            f(*a, t.val(s))
            t.cover('valid')
        else:
            t.rejects(f, *a, t.val(s), msg=f'{f.__name__}: significance')
    elif k == 1:
        t.rejects(f, *a, t.pick(['0.05', None, nan, [0.05]]), msg=f'{f.__name__}: significance')
    elif f is A.assess_theoretical_compatibility:
        t.rejects(f, *t.pick([(L, X), (mc, [0, 2]), (mc, ['a', 'c']), (mc, [0]), (None, X)]), msg='compatibility')
    elif f is A.assess_homogeneity:
        t.rejects(f, *t.pick([(L, X), (L, [X]), (L, [X, [0, 2]]), (['a', 'a'], [X, X]), (L, [X, [0]])]), msg='homogeneity')
    else:
        t.rejects(f, *t.pick([(['a'], X), (L, [0, 2]), (L, [0]), (L, None), (['a', 'a'], X)]), msg=f.__name__)


S3 = [[[0, 1, 2], [0, 1, 2], [0, 1, 2]], [[0, 1], [1, 2], [0, 2]], [[1], [0, 1, 2], [0, 1]]]
HARNESSES = [
    Harness('theoretical', theoretical, quick=[{'n': 2, 'f': f} for f in (2, 3, 4, 5)] + [{'n': 3, 'f': f, 'supps': S3} for f in (2, 3, 4)], thorough=[{'n': 2, 'f': f} for f in (2, 3, 4, 5, 6, 7)] + [{'n': 3, 'f': 3}, {'n': 3, 'f': 5, 'supps': S3}], must_cover=('impossible', 'rejected', 'accepted')),
    Harness('homogeneity', homogeneity, quick=[{'n': 2, 'lens': (2, 3)}, {'n': 2, 'lens': (5, 4)}, {'n': 2, 'lens': (2, 3, 3)}, {'n': 3, 'lens': (3, 2)}, {'n': 3, 'lens': (2, 4)}, {'n': 3, 'lens': (2, 2, 2)}, {'n': 2, 'lens': (2, 3, 2, 3)}], thorough=[{'n': 2, 'lens': (6, 5)}, {'n': 2, 'lens': (3, 3, 4)}, {'n': 3, 'lens': (4, 4)}, {'n': 3, 'lens': (2, 3, 3)}, {'n': 2, 'lens': (2, 3, 2, 3)}], must_cover=('disjoint', 'accepted')),
    Harness('first_order', first_order, quick=[{'n': 2, 'f': f} for f in (3, 6, 7, 10, 11)] + [{'n': 3, 'f': 4}], thorough=[{'n': 2, 'f': f} for f in range(3, 14)] + [{'n': 3, 'f': 7}], must_cover=('undefined', 'defined', 'accepted')),
    Harness('markov', markov, quick=[{'n': 2, 'f': f} for f in (3, 4, 5, 7, 8, 10)] + [{'n': 3, 'f': 5}, {'n': 3, 'f': 6}, {'n': 2, 'f': 6, 'labels': ['a', 'aa']}], thorough=[{'n': 2, 'f': f} for f in range(3, 13)] + [{'n': 3, 'f': 8}, {'n': 3, 'f': 5, 'labels': ['a', 'aa', 'aaa']}, {'n': 2, 'f': 6, 'labels': ['a', 'aa']}, {'n': 4, 'f': 6}], must_cover=('rejected', 'accepted')),
    Harness('stationarity', stationarity, quick=[{'n': 2, 'f': f, 'blocks': b} for f in (4, 6, 7, 8) for b in (1, 2, 3)] + [{'n': 3, 'f': 5, 'blocks': 2}, {'n': 3, 'f': 6, 'blocks': 2}], thorough=[{'n': 2, 'f': f, 'blocks': b} for f in range(2, 11) for b in range(1, 6)] + [{'n': 3, 'f': 8, 'blocks': 2}], must_cover=('undefined', 'defined', 'accepted')),
    Harness('theoretical_long', theoretical_long, quick=[{'n': 6, 'f': 20}], thorough=[{'n': 6, 'f': 20}, {'n': 12, 'f': 60}], must_cover=('impossible', 'rejected', 'accepted')),
    Harness('homogeneity_long', homogeneity_long, quick=[{'n': 5, 'lens': (30, 20, 25)}], thorough=[{'n': 5, 'lens': (30, 20, 25)}, {'n': 11, 'lens': (100, 80)}], must_cover=('accepted',)),
    Harness('long', long, quick=[{'n': 3, 'f': 90, 'what': 'first_order'}, {'n': 4, 'f': 41, 'what': 'markov', 'skip': (1,)}, {'n': 11, 'f': 60, 'what': 'markov'}, {'n': 11, 'f': 30, 'what': 'markov', 'skip': tuple(range(1, 10))}, {'n': 12, 'f': 45, 'what': 'markov', 'skip': tuple(range(2, 10))}, {'n': 3, 'f': 50, 'what': 'stationarity', 'blocks': 3}, {'n': 4, 'f': 64, 'what': 'stationarity', 'blocks': 2}],
            thorough=[{'n': n, 'f': f, 'what': 'first_order'} for n, f in ((3, 90), (3, 130), (4, 300))] + [{'n': n, 'f': f, 'what': 'markov', 'skip': k} for n, f, k in ((4, 41, (1,)), (11, 60, ()), (12, 100, (0, 11)), (25, 60, ()))] + [{'n': n, 'f': f, 'what': 'stationarity', 'blocks': b} for n, f in ((3, 50), (4, 64), (5, 150)) for b in (1, 2, 3, 5, 7)], must_cover=('defined', 'accepted')),
    Harness('bad', bad, must_cover=('valid',)),
]
