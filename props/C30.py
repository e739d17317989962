"""C30 Spectral quantities and entropies match the spectrum and the stationary law that define them"""
import functools
import math
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import chain, family, structured, many_labels, TINY

BOUNDS = 'all zero patterns of chains with n=2,3 states (entropies also n=4 with at most 2 successors per state); every positive value of the entries with weights in [1e-9,100] (n=2) or ratios in [1/100,100]; entropies of structured chains with 6 and 9 states (thorough 5..12); spectra of parametric families with 4..6 (thorough 8) states: independent two-state chains observed together, chains that start anew, carousels (complex eigenvalues), lazy Ehrenfest walks, all parameters in [1e-9, 1-1e-9]; exact real arithmetic; numpy.linalg.eigvals is taken at its contract (the roots of the characteristic polynomial with multiplicity; for the families, eigenvalues whose characteristic polynomial is checked to be that of the matrix), log is an uninterpreted function'
OUTSIDE = 'three-state chains whose other two eigenvalues are real with equal moduli; spectra of other chains with more than three states; floating-point error of the eigenvalue solver; numerical rank of nearly singular matrices'

KINDS = ('line', 'drain', 'ring', 'cycle', 'lasso', 'walk', 'lazy', 'star', 'blocks', 'slow', 'trap')


def det(M):
    if len(M) == 1:
        return M[0][0]
    s = M[0][0] * 0
    for j in range(len(M)):
        s = s + (-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]])
    return s


def radius(A):
    """spectral radius of a 0/1 matrix: the largest Perron root of its classes (power iteration on I + A with exact integers)"""
    best = 0
    for c in sp.classes([{j for j, x in enumerate(r) if x} for r in A]):
        v = [1] * len(c)
        for _ in range(400):
            w = [v[a] + sum(v[b] for b, j in enumerate(c) if A[i][j]) for a, i in enumerate(c)]
            if _ == 399:
                best = max(best, Fraction(sum(w), sum(v)) - 1)
            v = w
    return best


def moduli(t, P):
    """moduli of the eigenvalues other than the Perron root, largest first"""
    if len(P) == 2:
        x = P[0][0] - P[1][0]
        return [x if t.boolean(x >= 0) else -x]
    tr = P[0][0] + P[1][1] + P[2][2] - 1
    d = det(P)
    disc = tr * tr - d * 4
    if t.boolean(disc >= 0):
        t.cover('real')
        r = t.sqrt_(disc)
        xs = [(tr + r) / 2, (tr - r) / 2]
        xs = [x if t.boolean(x >= 0) else -x for x in xs]
        if t.boolean(xs[0] > xs[1]):
            return xs
        t.assume(xs[0] < xs[1])  # equal moduli: the limit of both sides
        return xs[::-1]
    t.cover('complex')
    m = t.sqrt_(d)
    return [m, m]


def spectrum(t, n, max_succ=None):
    P, mc, labels = chain(t, n, False, max_succ, names=False, **({'lo': TINY} if n == 2 else {}))
    S = sp.supp(P)
    t.close(mc.determinant, det(P), 'determinant')
    d, eps = det(P), t.const('1/1000')
    # the smallest singular value is far above the resolution of doubles
    few = t.const('1/1000000000') if n == 2 else t.const('1/1000000')
    if t.boolean(d > few) or t.boolean(d < -few):
        t.same(int(mc.rank), n, 'rank')
    elif t.boolean(d == 0):
        full = any(t.boolean(P[i][a] * P[j][b] - P[i][b] * P[j][a] > eps) for i in range(n) for j in range(n) for a in range(n) for b in range(n)) if n == 3 else False
        if full:
            t.same(int(mc.rank), 2, 'rank')
        elif n == 2:
            t.same(int(mc.rank), 1, 'rank')
    names = ('spectral_gap', 'mixing_rate', 'relaxation_rate', 'implied_timescales')
    if not (len(sp.classes(S)) == 1 and sp.period(S, list(range(n))) == 1):
        for a in names:
            t.same(getattr(mc, a), None, a)
        t.cover('none')
        return
    ms = moduli(t, P)
    top = ms[0]
    t.assume(top < 1)  # Perron-Frobenius: the chain is irreducible and aperiodic
    g = mc.spectral_gap
    if g is None:
        t.check(top <= t.const('1/10000000'), 'spectral_gap is None although the SLEM is positive')
        for a in names[1:3]:
            t.same(getattr(mc, a), None, a)
        t.cover('zero')
    else:
        t.close(g, 1 - top, 'spectral_gap')
        if n == 2:
            t.check(t.val(g) > 0, 'spectral_gap > 0')
        t.close(mc.relaxation_rate, t.const(1) / (1 - top), 'relaxation_rate')
        if t.boolean(top > eps):
            t.close(mc.mixing_rate, t.const(-1) / t.log_(top), 'mixing_rate')
        t.cover('value')
    it = mc.implied_timescales
    t.same(len(it), n, 'number of timescales')
    t.same(float(it[0]), math.inf, 'timescale of the Perron root')
    for k, m in enumerate(ms):
        # values next to zero are dominated by the rounding of the eigenvalue solver
        if t.boolean(m > eps):
            t.close(it[k + 1], t.const(-1) / t.log_(m), f'implied_timescales[{k + 1}]')


def entropies(t, n, max_succ=None, kinds=None):
    if kinds:
        P, mc, labels, _ = structured(t, n, kinds)
    else:
        P, mc, labels = chain(t, n, False, max_succ, names=False, **({'lo': TINY} if n == 2 else {}))
    S = sp.supp(P)
    A = [[int(j in S[i]) for j in range(n)] for i in range(n)]
    t.closem(mc.adjacency_matrix, A, 'adjacency_matrix')
    te = math.log(radius(A))
    t.close(mc.topological_entropy, t.const(Fraction(te)), 'topological_entropy')
    pis = sp.stationaries(P)
    if len(pis) > 1:
        t.same(mc.entropy_rate, None, 'entropy_rate')
        t.same(mc.entropy_rate_normalized, None, 'entropy_rate_normalized')
        t.cover('none')
        return
    h = t.const(0)
    for i in range(n):
        for j in S[i]:
            if len(S[i]) > 1:
                h = h - pis[0][i] * P[i][j] * t.log_(P[i][j])
    t.close(mc.entropy_rate, h, 'entropy_rate')
    hn = mc.entropy_rate_normalized
    if te == 0:
        t.close(hn, 0, 'entropy_rate_normalized (deterministic)')
    else:
        x = h / t.const(Fraction(te))
        t.close(hn, 0 if t.boolean(x < 0) else 1 if t.boolean(x > 1) else x, 'entropy_rate_normalized')
    t.cover('value')


def many(t, kind, n):
    P, ev, _ = family(t, kind, n)
    mc = t.mc(P, many_labels(n))
    if kind != 'kron' or n == 4:
        t.close(mc.determinant, det(P) if n <= 4 else functools.reduce(lambda a, b: a * b, [x if not isinstance(x, tuple) else x[0] for x in ev]), 'determinant')
    ms = [x[0] if isinstance(x, tuple) else x if t.boolean(x >= 0) else -x for x in ev]
    # decreasing order
    xs = []
    for m in ms:
        k = 0
        while k < len(xs) and t.boolean(xs[k] >= m):
            k += 1
        xs.insert(k, m)
    top, eps = xs[0], t.const('1/1000')
    t.assume(top < 1)
    g = mc.spectral_gap
    if g is None:
        t.check(top <= t.const('1/10000000'), 'spectral_gap is None although the SLEM is positive')
        return
    t.close(g, 1 - top, 'spectral_gap')
    t.close(mc.relaxation_rate, t.const(1) / (1 - top), 'relaxation_rate')
    if t.boolean(top > eps):
        t.close(mc.mixing_rate, t.const(-1) / t.log_(top), 'mixing_rate')
    it = mc.implied_timescales
    t.same(len(it), n, 'number of timescales')
    t.same(float(it[0]), math.inf, 'timescale of the Perron root')
    for k, m in enumerate(xs):
        if t.boolean(m > eps):
            t.close(it[k + 1], t.const(-1) / t.log_(m), f'implied_timescales[{k + 1}]')
    t.cover('value')


HARNESSES = [
    Harness('spectrum', spectrum, quick=[{'n': 2}, {'n': 3, 'max_succ': 2}], thorough=[{'n': 2}, {'n': 3}], must_cover=('real', 'complex', 'none', 'value')),
    Harness('many', many, quick=[{'kind': 'kron', 'n': 4}, {'kind': 'reset', 'n': 4}, {'kind': 'carousel', 'n': 4}, {'kind': 'carousel', 'n': 5}, {'kind': 'walk', 'n': 6}],
            thorough=[{'kind': k, 'n': n} for k, n in (('kron', 4), ('kron', 8), ('reset', 4), ('reset', 6), ('carousel', 4), ('carousel', 5), ('carousel', 6), ('walk', 4), ('walk', 6), ('walk', 8))], must_cover=('value',), path_s=20.0),
    Harness('entropies', entropies, quick=[{'n': 2}, {'n': 3, 'max_succ': 2}, {'n': 6, 'kinds': KINDS}, {'n': 9, 'kinds': KINDS}], thorough=[{'n': n, 'kinds': KINDS} for n in (5, 7, 8, 10, 12)] + [{'n': 2}, {'n': 3}, {'n': 4, 'max_succ': 2}], must_cover=('none', 'value')),
]
