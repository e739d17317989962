"""Reference definitions, written from the mathematics (not from pydtmc), over exact numbers.

Matrices are lists of lists of `Num` (symbolic run) or `Fraction` (concrete run); the
support (which entries are zero) is always known.
"""
import math
from fractions import Fraction

import numpy as np

from . import npshim as N
from . import sym as S
from .sym import Num


def zero(x):
    """is the entry identically zero"""
    if isinstance(x, Num):
        return not x.n
    return x == 0


def supp(P):
    return [[j for j, x in enumerate(r) if not zero(x)] for r in P]


def reach(sp, n=None):
    """R[i] = states reachable from i in >= 0 steps"""
    n = len(sp)
    R = []
    for i in range(n):
        seen, todo = {i}, [i]
        while todo:
            k = todo.pop()
            for j in sp[k]:
                if j not in seen:
                    seen.add(j)
                    todo.append(j)
        R.append(seen)
    return R


def classes(sp):
    """communicating classes, by decreasing size then first state"""
    R = reach(sp)
    n = len(sp)
    out, done = [], set()
    for i in range(n):
        if i in done:
            continue
        c = [j for j in range(n) if j in R[i] and i in R[j]]
        done.update(c)
        out.append(c)
    return sorted(out, key=lambda c: (-len(c), c[0]))


def closed(sp, c):
    s = set(c)
    return all(set(sp[i]) <= s for i in c)


def recurrent(sp):
    return [c for c in classes(sp) if closed(sp, c)]


def transient(sp):
    return [c for c in classes(sp) if not closed(sp, c)]


def irreducible(sp):
    return len(classes(sp)) == 1


def period(sp, c):
    """gcd of the return times of a class (0 when it has no cycle)"""
    s = set(c)
    g = 0
    root = c[0]
    dist = {root: 0}
    todo = [root]
    while todo:
        k = todo.pop()
        for j in sp[k]:
            if j in s and j not in dist:
                dist[j] = dist[k] + 1
                todo.append(j)
    for k in c:
        for j in sp[k]:
            if j in s:
                g = math.gcd(g, dist[k] + 1 - dist[j])
    return abs(g)


def regular(sp):
    n = len(sp)
    A = [set(x) for x in sp]
    B = [set(x) for x in sp]
    for _ in range(n * n - 2 * n + 2):
        if all(len(x) == n for x in B):
            return True
        B = [set().union(*[A[k] for k in x]) if x else set() for x in B]
    return all(len(x) == n for x in B)


def ergodic(sp):
    return irreducible(sp) and period(sp, list(range(len(sp)))) == 1


def absorbing_states(P):
    sp = supp(P)
    return [i for i in range(len(P)) if sp[i] == [i]]


def is_absorbing(P):
    sp = supp(P)
    a = set(absorbing_states(P))
    R = reach(sp)
    return bool(a) and all(R[i] & a for i in range(len(P)))


# ------------------------------------------------------------- linear algebra
def eye(n):
    return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]


def sub(A, B):
    return [[a - b for a, b in zip(x, y)] for x, y in zip(A, B)]


def mul(A, B):
    return [[dot(r, [B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for r in A]


def dot(a, b):
    t = None
    for x, y in zip(a, b):
        if zero(x) or zero(y):
            continue
        t = x * y if t is None else t + x * y
    return Fraction(0) if t is None else t


def mv(A, v):
    return [dot(r, v) for r in A]


def vm(v, A):
    return [dot(v, [A[k][j] for k in range(len(A))]) for j in range(len(A[0]))]


def total(xs):
    t = Fraction(0)
    for x in xs:
        t = x + t
    return t


def power(A, k):
    n = len(A)
    R = [[Num.const(1) if i == j else Num.const(0) for j in range(n)] for i in range(n)] if isinstance(A[0][0], Num) else eye(n)
    for _ in range(k):
        R = mul(R, A)
    return R


def isnum(A):
    return any(isinstance(x, Num) for r in A for x in (r if isinstance(r, list) else [r]))


def solve(A, B):
    """unique solution X of A X = B (B: matrix as list of rows, or vector)"""
    vec = not isinstance(B[0], (list, tuple))
    Bm = [[b] for b in B] if vec else B
    if isnum(A) or isnum(Bm):
        a = np.empty((len(A), len(A)), dtype=object)
        for i, r in enumerate(A):
            for j, x in enumerate(r):
                a[i, j] = N.num(x)
        b = np.empty((len(Bm), len(Bm[0])), dtype=object)
        for i, r in enumerate(Bm):
            for j, x in enumerate(r):
                b[i, j] = N.num(x)
        X = N.solve_exact(a, b)
        X = [[X[i, j] for j in range(len(Bm[0]))] for i in range(len(Bm))]
    else:
        X = fsolve([list(map(Fraction, r)) for r in A], [list(map(Fraction, r)) for r in Bm])
    return [r[0] for r in X] if vec else X


def fsolve(A, B):
    n = len(A)
    M = [list(A[i]) + list(B[i]) for i in range(n)]
    for c in range(n):
        p = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        iv = 1 / M[c][c]
        M[c] = [x * iv for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[n:] for r in M]


def transpose(A):
    return [list(r) for r in zip(*A)]


def stationary_class(P, c):
    """stationary distribution of the closed class c, on all n states"""
    n = len(P)
    m = len(c)
    if m == 1:
        sub_ = [Fraction(1)]
    else:
        Q = [[P[i][j] for j in c] for i in c]
        # sum_i pi_i (Q_ij - d_ij) = 0 for j < m-1 ; sum pi = 1
        A = [[Q[i][j] - (1 if i == j else 0) for i in range(m)] for j in range(m - 1)] + [[one_like(P)] * m]
        sub_ = solve(A, [Fraction(0)] * (m - 1) + [Fraction(1)])
    pi = [Fraction(0)] * n
    for k, i in enumerate(c):
        pi[i] = sub_[k]
    return pi


def one_like(P):
    return Num.const(1) if isnum(P) else Fraction(1)


def stationaries(P):
    return [stationary_class(P, c) for c in recurrent(supp(P))]


# ------------------------------------------------------------- hitting
def hitting_probabilities(P, A):
    n = len(P)
    sp = supp(P)
    A = set(A)
    R = reach(sp)
    can = {i for i in range(n) if R[i] & A}
    h = [None] * n
    unk = []
    for i in range(n):
        if i in A:
            h[i] = Fraction(1)
        elif i not in can:
            h[i] = Fraction(0)
        else:
            unk.append(i)
    if unk:
        M = [[(1 if i == j else 0) - P[i][j] for j in unk] for i in unk]
        b = [total([P[i][j] * h[j] for j in range(n) if h[j] is not None and not zero(P[i][j])]) for i in unk]
        x = solve(M, b)
        for i, v in zip(unk, x):
            h[i] = v
    return h


def sure(P, A):
    """states from which A is hit with probability one"""
    n = len(P)
    sp = supp(P)
    A = set(A)
    spA = [[] if i in A else sp[i] for i in range(n)]
    R = reach(spA)
    R0 = reach(sp)
    bad = {i for i in range(n) if not (R0[i] & A)}
    return {i for i in range(n) if not (R[i] & bad)}


def hitting_times(P, A):
    n = len(P)
    A = set(A)
    ok = sure(P, A)
    t = [Fraction(0) if i in A else (None if i in ok else math.inf) for i in range(n)]
    unk = [i for i in range(n) if t[i] is None]
    if unk:
        M = [[(1 if i == j else 0) - P[i][j] for j in unk] for i in unk]
        x = solve(M, [Fraction(1)] * len(unk))
        for i, v in zip(unk, x):
            t[i] = v
    return t
