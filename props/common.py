"""shared pieces of the property modules"""
import functools
import math
from fractions import Fraction

from engine import spec as sp

TINY = Fraction(1, 10 ** 9)
HUGE = 10 ** 9
NAMES = {2: [['1', '2'], ['b', 'a']], 3: [['1', '2', '3'], ['c', 'a', 'b'], ['b', 'c', 'a']],
         4: [['1', '2', '3', '4'], ['d', 'b', 'c', 'a']], 5: [['1', '2', '3', '4', '5'], ['e', 'b', 'd', 'a', 'c']]}


def chain(t, n, free=False, max_succ=None, names=True, param='w', ring=False, lo=None, hi=None):
    """a chain with its matrix (entries that vanish on this path are literally 0) and labels;
    ring: only patterns that contain the cycle 0 -> 1 -> ... -> 0 (irreducible chains)"""
    labels = t.pick(NAMES[n]) if names else NAMES[n][1]
    if free:
        P = t.stochastic(n, param='free')
        mc = t.mc(P, labels)
        mc.communicating_classes
        P = t.resolve(P)
    else:
        P = t.stochastic(n, max_succ=max_succ, param=param, lo=lo, hi=hi,
                         allowed=(lambda i, s, rows: (i + 1) % n in s) if ring else None)
        mc = t.mc(P, labels)
    return P, mc, labels


def ind(labels, xs):
    return [labels.index(x) for x in xs]


KINDS = ('line', 'ring', 'walk', 'blocks', 'star', 'slow', 'trap')


def structured(t, n, kinds=KINDS, lo=TINY, where=None, name='x'):
    """a chain with many states whose pattern is fixed: every row is a list of fixed fractions but one, which depends on
    a symbolic probability; the states are shuffled so that their order follows no pattern"""
    kind = t.pick(list(kinds))
    F = lambda a, b: t.const(Fraction(a, b))
    rows = [dict() for _ in range(n)]
    if kind == 'line':                                   # both ends absorbing
        for i in range(1, n - 1):
            rows[i] = {i - 1: F(i + 1, 2 * n), i: F(1, 7), i + 1: None}
        rows[0], rows[n - 1] = {0: None}, {n - 1: None}
    elif kind == 'drain':                                # three absorbing states, the others lead to each of them
        for i in range(n):
            rows[i] = {i: None} if i < 3 else {i % 3: F(1, 5), i: F(1, 3 + i), 3 + (i - 2) % (n - 3): None, (i + 1) % 3: F(1, 50)}
    elif kind == 'ring':                                 # ergodic, far from reversible
        for i in range(n):
            rows[i] = {i: F(1, 3 + i), (i + 1) % n: None, (i + 2) % n: F(1, 11)}
    elif kind == 'cycle':                                # irreducible with period n
        for i in range(n):
            rows[i] = {(i + 1) % n: None}
    elif kind == 'lasso':                                # one choice in a long cycle
        for i in range(n):
            rows[i] = {(i + 1) % n: None}
        rows[n - 2][n // 2] = F(1, 3)
    elif kind == 'fork':                                 # irreducible with period n - 1, the way parts once
        for i in range(n):
            rows[i] = {(i + 1) % n: None}
        rows[n - 3], rows[n - 2] = {n - 2: F(1, 3), n - 1: None}, {0: None}
    elif kind == 'leak':                                 # a cycle of transient states, one of them (any) with a way out
        for i in range(n - 1):
            rows[i] = {(i + 1) % (n - 1): None}
        rows[n - 1] = {n - 1: None}
        rows[t.choose(n - 1)][n - 1] = F(1, 3)
    elif kind == 'pairs':                                # many recurrent classes, each with transient states of its own
        for i in range(n):
            rows[i] = {i: F(1, 2 + i), min(i + 1, n - 1): None} if i % 3 < 2 and i < n - 1 else {i: None}
    elif kind == 'walk':                                 # reflecting walk: irreducible with period 2, reversible
        for i in range(1, n - 1):
            rows[i] = {i - 1: F(i, n + i), i + 1: None}
        rows[0], rows[n - 1] = {1: None}, {n - 2: None}
    elif kind == 'lazy':                                 # ergodic and reversible
        for i in range(n):
            rows[i] = {i: None}
            if i:
                rows[i][i - 1] = F(1, 4 + i)
            if i < n - 1:
                rows[i][i + 1] = F(1, 5)
    elif kind == 'star':                                 # ergodic, one hub
        rows[0] = {j: F(1, n + j) for j in range(1, n)}
        rows[0][0] = None
        for j in range(1, n):
            rows[j] = {0: None, j: F(j, 2 * n)}
    elif kind == 'blocks':                               # two recurrent classes of different sizes and transient states
        a, b = max(2, n // 3), max(2, n // 3) + 1
        for i in range(n):
            if i < a:
                rows[i] = {i: F(1, 4), (i + 1) % a: None}
            elif i < a + b:
                rows[i] = {a + (i + 1 - a) % b: None, a + (i + 2 - a) % b: F(2, 9 + i)}
            else:
                rows[i] = {0: F(1, 8), a: F(1, 16), i: F(1, 3), min(i + 1, n - 1) if i < n - 1 else a + b: None}
    elif kind == 'slow':                                 # ergodic and nearly decomposable: two groups that hardly communicate
        h = n // 2
        for i in range(n):
            g = range(h) if i < h else range(h, n)
            rows[i] = {i: F(1, 3 + i), g[(i - g[0] + 1) % len(g)]: None}
        rows[h - 1][n - 1] = F(1, 10000019)
        rows[n - 2][0] = F(1, 5000011)
    elif kind == 'trap':                                 # absorbing, only after many thousands of steps
        for i in range(2, n):
            rows[i] = {i: F(1, 2 + i), 2 + (i - 1) % (n - 2): None}
        rows[0], rows[1] = {0: None}, {1: None}
        rows[2][0], rows[n - 1][1] = F(1, 7000003), F(1, 3000017)
    # the symbolic row: its two largest entries share their mass in any proportion
    cand = [i for i in range(n) if len(rows[i]) > 1]
    for r in rows:
        k = [j for j in r if r[j] is None]
        s = t.const(1)
        for j in r:
            if r[j] is not None:
                s = s - r[j]
        r[k[0]] = s
    if cand:
        i = cand[(len(cand) // 2 if where is None else where) % len(cand)]
        a, b = sorted(rows[i])[:2]
        x = t.real(name, lo, 1 - lo)
        m = rows[i][a] + rows[i][b]
        rows[i][a], rows[i][b] = m * x, m * (1 - x)
    step = next(s for s in (3, 5, 7, 11, 2) if n % s) if n > 3 else 1
    where_ = [(i * step + 1) % n for i in range(n)]      # state i of the pattern is put at where_[i]
    P = [[t.const(0)] * n for _ in range(n)]
    for i in range(n):
        for j, v in rows[i].items():
            P[where_[i]][where_[j]] = v
    labels = ['s%d' % ((i * step + 2) % n + 5) for i in range(n)]
    return P, t.mc(P, labels), labels, kind


HMM_KINDS = ('stay', 'dense', 'tight', 'sole')


def structured_hmm(t, n, k, f, kinds=HMM_KINDS, lo=TINY, seqs=2):
    """a hidden Markov model with more states and symbols and a long symbol sequence: everything is a fixed fraction but
    one row of the transition or of the emission matrix, which depends on a symbolic probability"""
    kind = t.pick(list(kinds))
    F = lambda a, b: t.const(Fraction(a, b))
    P, E = [], []
    for i in range(n):
        if kind == 'dense':
            w = [1 + (i * 5 + j * j * 3 + 1) % (2 * n + 1) for j in range(n)]
            e = [2 + (i * 3 + j * 7) % (n + k) for j in range(k)]
        else:                                            # stay or move on; two symbols per state
            w, e = [0] * n, [0] * k
            w[i], w[(i + 1) % n] = 3 + i, 2 + (i * 2) % 5
            e[i % k] = 5
            e[(i + 1) % k] = 2 + i
            if kind == 'sole':                           # one symbol comes from one state alone, and that state from one alone
                e = [0] * k
                e[i % (k - 1)], e[(i + 1) % (k - 1)] = 5, 2 + i
                if i == n - 2:
                    e = [3] + [0] * (k - 2) + [1]
            elif kind == 'tight':                          # rare moves, the last state cannot repeat
                w[(i + 2) % n] += 1
                w[n - 1] = w[n - 1] if i < n - 1 else 0
        P.append([F(x, sum(w)) for x in w])
        E.append([F(x, sum(e)) for x in e])
    m = t.pick(['P', 'E'])
    M, r = (P, n - 3 if kind == 'sole' else n // 2) if m == 'P' else (E, n - 2)
    a, b = [j for j, x in enumerate(M[r]) if not sp.zero(x)][:2]
    x = t.real('x', lo, 1 - lo)
    s = M[r][a] + M[r][b]
    M[r][a], M[r][b] = s * x, s * (1 - x)
    # a walk of the model, so that the sequence is possible
    q = t.choose(seqs)
    state, ys, g = q % n, [], 7 + 13 * q
    for _ in range(f):
        g = (g * 75 + 74) % 65537
        nxt = [j for j in range(n) if not sp.zero(P[state][j])]
        state = nxt[g // 7 % len(nxt)] if kind != 'sole' or state >= n - 2 else state + 1
        nxt = [j for j in range(k) if not sp.zero(E[state][j])]
        ys.append(nxt[g // 11 % len(nxt)] if kind != 'sole' or state != n - 2 else k - 1)
    labels, symbols = ['s%d' % ((i * 7 + 9) % 16) for i in range(n)], ['y%d' % ((i * 5 + 10) % 16) for i in range(k)]
    return P, E, t.hmm(P, E, labels, symbols), labels, symbols, ys, q % n


def long_sequence(t, n, f, free=1, skip=(), seed=3):
    """a fixed sequence over range(n) that never visits the states in skip, but for `free` positions, which are any state"""
    g, out = 7 + 13 * seed, []
    ok = [i for i in range(n) if i not in skip]
    for _ in range(f):
        g = (g * 75 + 74) % 65537
        out.append(ok[g // 7 % len(ok)])
    for q in range(free):
        out[(q * 7 + f // 2) % f] = t.choose(n)
    return out


def many_labels(n, prefix='s'):
    """labels whose alphabetical order is not their order, some of which contain one another"""
    step = next(s for s in (3, 5, 7, 11, 2) if n % s) if n > 3 else 1
    return [prefix + str((i * step + 2) % n + 5) for i in range(n)]


def family(t, kind, n, free=2):
    """a chain with many states and a known spectrum: the matrix, the eigenvalues but the first one (a tuple: only the modulus)
    and the right eigenvectors, where they are real"""
    c = t.const
    V = None
    prod = lambda xs: functools.reduce(lambda a, b: a * b, xs)
    if kind == 'kron':                                   # independent two-state chains observed together
        m = n.bit_length() - 1
        P, ev, V = [[c(1)]], [c(1)], [[c(1)]]
        for k in range(m):
            # the last factors are fixed
            p, q = (t.real(f'p{k}', TINY, 1 - TINY), t.real(f'q{k}', TINY, 1 - TINY)) if k < free else (c(Fraction(1, 3)), c(Fraction(1, 5 + k)))
            Q = [[1 - p, p], [q, 1 - q]]
            P = [[P[i // 2][j // 2] * Q[i % 2][j % 2] for j in range(2 * len(P))] for i in range(2 * len(P))]
            ev = [e * f for e in ev for f in (1, 1 - p - q)]
            W = [[c(1), p], [c(1), -q]]
            V = [[V[i // 2][j // 2] * W[i % 2][j % 2] for j in range(2 * len(V))] for i in range(2 * len(V))]
        ev, char = ev[1:], lambda x: prod([x - e for e in ev])
    elif kind == 'reset':                                # stay with probability a, otherwise start anew
        a = t.real('a', TINY, 1 - TINY)
        w = [t.real(f'w{i}', Fraction(1, 100), 100) if i < 2 else c(i) for i in range(n)]
        s = sum(w[1:], w[0])
        P = [[(1 - a) * w[j] / s + (a if i == j else 0) for j in range(n)] for i in range(n)]
        V = [[c(1)] + [(-w[j] if i == 0 else w[0] if i == j else c(0)) for j in range(1, n)] for i in range(n)]
        ev, char = [a] * (n - 1), lambda x: (x - 1) * prod([x - a] * (n - 1))
    elif kind == 'carousel':                             # move on with probability a, otherwise anywhere: complex eigenvalues
        a = t.real('a', TINY, 1 - TINY)
        P = [[(1 - a) / n + (a if j == (i + 1) % n else 0) for j in range(n)] for i in range(n)]
        ev = [-a if n % 2 == 0 and k == n // 2 else (a,) for k in range(1, n)]
        char = lambda x: (x - 1) * sum((prod([x] * k + [a] * (n - 1 - k)) for k in range(1, n)), prod([a] * (n - 1)))
    elif kind == 'walk':                                 # a random walk on 0..n-1 that holds with probability a
        a = t.real('a', TINY, 1 - TINY)
        P = [[c(0)] * n for _ in range(n)]
        # Ehrenfest urn: eigenvalues 1 - 2k/(n-1)
        for i in range(n):
            P[i][i] = a + 0
            if i:
                P[i][i - 1] = (1 - a) * Fraction(i, n - 1)
            if i < n - 1:
                P[i][i + 1] = (1 - a) * Fraction(n - 1 - i, n - 1)
        ev = [a + (1 - a) * Fraction(n - 1 - 2 * k, n - 1) for k in range(1, n)]
        char = lambda x: (x - 1) * prod([x - e for e in ev])
        # Krawtchouk polynomials: coefficients of (1 - z)^i (1 + z)^(m - i)
        m = n - 1
        V = [[c(sum((-1) ** k * math.comb(i, k) * math.comb(m - i, j - k) for k in range(j + 1))) for j in range(n)] for i in range(n)]
    if kind == 'kron':
        full = char
        char = lambda x: (x - 1) * full(x)
    t.spectrum(char, [c(1)] + ev)
    # states in an order that follows no pattern
    o = sorted(range(n), key=lambda i: (i * 5 + 3) % (n + 1 if n % 5 == 0 else n))
    if V is not None:
        t.eigensystem([c(1)] + ev, [V[i] for i in o])
    return [[P[i][j] for j in o] for i in o], ev, V
