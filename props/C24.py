"""C24 Equal models are equal to each other and hash alike"""
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, TINY, structured, structured_hmm

BOUNDS = 'every pair of chains with n=2 states and every pair of hidden Markov models with 2 states and 2 symbols (entries zero or at least 1e-9, zero pattern left to the solver); for n=3 (and 3 symbols) every zero pattern against the same matrix with any two entries of one row shifted by any amount of at least 1e-12; every pattern of signs of the zeros (n=2; one pattern per matrix for n=3); label lists that differ in one label, in case, in order, in white space or in length; exact real arithmetic; different contents are assumed to have different hashes; structured chains and hidden Markov models with 7..11 states and up to 10 symbols (thorough up to 25)'
OUTSIDE = 'other larger models; hash collisions'
SY = {2: ['y', 'x'], 3: ['z', 'x', 'y']}
OTHER = {'same': lambda L: list(L), 'one differs': lambda L: L[:-1] + ['zz'], 'case': lambda L: [L[0].upper()] + L[1:], 'order': lambda L: L[::-1], 'blank': lambda L: [L[0] + ' '] + L[1:]}


def hash_(m):
    return type(m).__hash__(m)


def differ(t, A, B):
    c = [x != y for r, s in zip(A, B) for x, y in zip(r, s)]
    c = [x for x in c if not (x is False)]
    return t.either(c) if c else False


def compare(t, m, k, pairs, labels_equal, msg):
    """the comparisons of m and k agree with the equality of their contents"""
    r = m == k
    t.same([type(r) is bool or type(r).__name__ == 'bool_', k == m, m != k, k != m], [True, r, not r, not r], f'{msg}: symmetric, and != is the negation')
    if r:
        t.same(labels_equal, True, f'{msg}: equal models have equal labels')
        for A, B in pairs:
            t.closem(A, B, f'{msg}: equal models have equal entries', 0)
        t.same(hash_(m) == hash_(k), True, f'{msg}: equal models have equal hashes')
        t.cover('equal')
    elif labels_equal:
        t.check(t.either([x for x in (differ(t, A, B) for A, B in pairs) if x is not False]) if any(differ(t, A, B) is not False for A, B in pairs) else False, f'{msg}: unequal models differ somewhere')
        t.cover('different')
    return r


def mc2(t):
    which = t.pick(list(OTHER))
    L = NAMES[2][1]
    K = OTHER[which](L)
    A, B = t.stochastic(2, param='free', lo=TINY), t.stochastic(2, name='Q', param='free', lo=TINY)
    m, k = t.mc(A, L), t.mc(B, K)
    compare(t, m, k, [(A, B)], K == L, which)
    t.same([m == m, hash_(m) == hash_(m)], [True, True], 'a model equals itself')
    m2 = t.mc(A, list(L))
    t.same([m == m2, hash_(m) == hash_(m2)], [True, True], 'a model equals a copy')


def hmm2(t):
    """the matrices agree everywhere except possibly in one row"""
    which = t.pick([(a, b) for a in OTHER for b in OTHER if 'same' in (a, b)])
    L, Y = NAMES[2][1], SY[2]
    K, Z = OTHER[which[0]](L), OTHER[which[1]](Y)
    i = t.choose(4)
    S = [[[0, 1], [1]], [[0], [0, 1]]]
    A, E = t.stochastic(2, supp=S[i % 2], param='p', lo=TINY), t.stochastic(2, 2, 'E', supp=S[1 - i % 2] if i < 2 else S[i % 2], param='p', lo=TINY)
    B, F = list(A), list(E)
    row = t.stochastic(2, name='Q', param='free', lo=TINY)[0]
    (B if i < 2 else F)[i % 2] = row
    m, k = t.hmm(A, E, L, Y), t.hmm(B, F, K, Z)
    compare(t, m, k, [(A, B), (E, F)], K == L and Z == Y, f'{which}')
    t.same([m == m, hash_(m) == hash_(t.hmm(A, E, list(L), list(Y)))], [True, True], 'a model equals a copy')


def shift(t, A, i, j, k, name='d'):
    d = t.real(name, -1, 1)
    t.assume_or(d >= Fraction(1, 10 ** 12), d <= -Fraction(1, 10 ** 12))
    B = [list(r) for r in A]
    B[i][j], B[i][k] = A[i][j] + d, A[i][k] - d
    for x in (B[i][j], B[i][k]):
        t.assume(x >= 0)
        t.assume(x <= 1)
    return B


def mc3(t, n, max_succ=None):
    A = t.stochastic(n, max_succ=max_succ, param='p', lo=TINY)
    i = t.choose(n)
    j = t.choose(n)
    B = shift(t, A, i, j, (j + 1) % n)
    L = NAMES[n][1]
    m, k = t.mc(A, L), t.mc(B, L)
    t.same([m == k, k == m, m != k], [False, False, True], 'one row differs')
    t.same([m == t.mc(A, L), hash_(m) == hash_(t.mc(A, L))], [True, True], 'same')
    t.cover('different')


def hmm3(t, n, k):
    A = t.stochastic(n, max_succ=1 if n > 2 else 2, param='p')
    E = t.stochastic(n, k, 'E', supp=[[0, 1], [1], [0, 1]][:n])
    L, Y = NAMES[n][1], SY[k]
    m = t.hmm(A, E, L, Y)
    i = t.choose(n)
    if t.flag():
        B = shift(t, A, i, i, (i + 1) % n)
        m2 = t.hmm(B, E, L, Y)
    else:
        F = shift(t, E, i, 0, 1)
        m2 = t.hmm(A, F, L, Y)
    t.same([m == m2, m2 == m, m != m2], [False, False, True], 'one row differs')
    t.cover('different')


def signs(t, n, hmm, max_succ=None):
    """zeros of either sign"""
    A = t.stochastic(n, max_succ=max_succ)
    z = [(i, j) for i in range(n) for j in range(n) if sp.zero(A[i][j])]
    if not z:
        t.infeasible()
    s1, s2 = (t.choose(1 << len(z)), t.choose(1 << len(z))) if n == 2 else (0, 1 + t.choose(min((1 << len(z)) - 1, 8)))
    A1, A2 = [list(r) for r in A], [list(r) for r in A]
    for k, (i, j) in enumerate(z):
        if s1 >> k & 1:
            A1[i][j] = -0.0
        if s2 >> k & 1:
            A2[i][j] = -0.0
    L = NAMES[n][1]
    if hmm:
        a, b = t.hmm(A1, A2, L, SY[n]), t.hmm(A2, A1, L, SY[n])
    else:
        a, b = t.mc(A1, L), t.mc(A2, L)
    t.same([a == b, b == a, a != b], [True, True, False], 'the sign of a zero does not matter')
    t.same(hash_(a) == hash_(b), True, 'equal models have equal hashes whatever the sign of their zeros')
    t.closem(a.p, A, 'entries', 0)
    t.cover('signs')


SEPS = [',', '', ' ', ', ', '|', '_', '-', ';', '\n', '\t', '.', ':', "', '", '/', '\x00', '+', '&', '=', '#']


def joined(t):
    """label lists that differ but whose elements, joined with a separator, give the same text"""
    x = t.pick(SEPS)
    L, K = ['a' + x + 'b', 'c'], ['a', 'b' + x + 'c']
    A = t.stochastic(2)
    m, k = t.mc(A, L), t.mc(A, K)
    t.same([m == k, k == m, m != k], [False, False, True], f'labels {L} and {K}')
    Y = SY[2]
    for u, v in (((L, Y), (K, Y)), ((Y, L), (Y, K))):
        m, k = t.hmm(A, A, *u), t.hmm(A, A, *v)
        t.same([m == k, k == m, m != k], [False, False, True], f'labels {u} and {v}')
    t.cover('joined')


def large(t, n, hmm):
    """many states: one row differs, or none, or two labels are exchanged, or one is another"""
    if hmm:
        P, E, m, labels, symbols, _, _ = structured_hmm(t, n, n - 1, 1, seqs=1)
    else:
        P, m, labels, _ = structured(t, n, ('line', 'star', 'blocks'))
    make = (lambda P, L: t.hmm(P, E, L, symbols)) if hmm else t.mc
    k = make([list(r) for r in P], list(labels))
    t.same([m == k, k == m, m != k, hash_(m) == hash_(k)], [True, True, False, True], 'a copy')
    i = t.pick([0, n // 2, n - 1])
    L = list(labels)
    if t.flag():
        L[i], L[i - 1] = L[i - 1], L[i]
    else:
        L[i] = L[i] + '0'
    k = make(P, L)
    t.same([m == k, k == m, m != k], [False, False, True], f'labels {labels} and {L}')
    a, b = [j for j, x in enumerate(P[i]) if not sp.zero(x)][:2] if len(sp.supp([P[i]])[0]) > 1 else (i, (i + 1) % n)
    k = make(shift(t, P, i, a, b), labels)
    t.same([m == k, k == m, m != k], [False, False, True], 'one row differs')
    if hmm:
        a, b = [j for j, x in enumerate(E[i]) if not sp.zero(x)][:2]
        k = t.hmm(P, shift(t, E, i, a, b, 'e'), labels, symbols)
        t.same([m == k, k == m, m != k], [False, False, True], 'one row of the emissions differs')
    t.cover('large')


def others(t):
    A = t.stochastic(2)
    B = t.stochastic(3, name='B', supp=[[0, 1], [1, 2], [0]])
    L = NAMES[2][1]
    m = t.mc(A, L)
    h = t.hmm(A, A, L, ['y', 'x'])
    for x in (m, h):
        for y in (None, 0, 'MarkovChain', L, t.arr(A), A, {}, object, m.to_dictionary(), h if x is m else m, t.mc(B), t.hmm(B, [[t.const(1), t.const(0)]] * 3)):
            r = x == y
            if hasattr(r, 'shape') and getattr(r, 'shape', ()) != ():
                t.fail('comparison with an array')
            t.same(bool(r), False, f'{type(x).__name__} and {type(y).__name__}')
    t.cover('others')


HARNESSES = [
    Harness('mc2', mc2, must_cover=('equal', 'different')),
    Harness('hmm2', hmm2, must_cover=('equal', 'different')),
    Harness('mc3', mc3, quick=[{'n': 3, 'max_succ': 2}, {'n': 2}], thorough=[{'n': 3}, {'n': 4, 'max_succ': 2}], must_cover=('different',)),
    Harness('hmm3', hmm3, quick=[{'n': 2, 'k': 3}, {'n': 3, 'k': 2}], must_cover=('different',)),
    Harness('signs', signs, quick=[{'n': 2, 'hmm': 0}, {'n': 2, 'hmm': 1}, {'n': 3, 'hmm': 0, 'max_succ': 2}, {'n': 3, 'hmm': 1, 'max_succ': 1}], must_cover=('signs',)),
    Harness('joined', joined, must_cover=('joined',)),
    Harness('large', large, quick=[{'n': 9, 'hmm': 0}, {'n': 7, 'hmm': 1}], thorough=[{'n': 9, 'hmm': 0}, {'n': 7, 'hmm': 1}, {'n': 15, 'hmm': 0}, {'n': 15, 'hmm': 1}], must_cover=('large',)),
    Harness('others', others, must_cover=('others',)),
]
