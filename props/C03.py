"""C03 Chain transformations compute the chain they name"""
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, NAMES, ind, TINY

F = Fraction
BOUNDS = 'all zero patterns of chains with n=2,3 states (and n=4 with at most 2 successors per state for the canonical form and subchains), every positive value of the entries down to 1e-9, every weight and boundary probability in [0,1], every gamma in (0,1), orders 2..4 (5 thorough), every admissible set of states by label and by index; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6 and 11 states (thorough 5..14)'
OUTSIDE = 'other larger chains and orders'


def result(t, res, M, labels, msg, src=None, mc=None, names=None):
    """res is a valid chain with matrix M and the given labels; the source is as before"""
    n = len(M)
    t.same(tuple(res.p.shape), (n, n), f'{msg}: shape')
    t.same(res.size, n, f'{msg}: size')
    t.same(list(res.states), labels, f'{msg}: labels')
    t.closem(res.p, M, f'{msg}: matrix', 1e-9)
    for i in range(n):
        s = t.const(0)
        for j in range(n):
            s = s + res.p[i][j]
        t.close(s, 1, f'{msg}: row {i} sums to 1', 1e-9)
    if mc is not None:
        t.closem(mc.p, src, f'{msg}: the source chain is unchanged')
        t.same(list(mc.states), names, f'{msg}: the labels of the source chain are unchanged')


def structure(t, res, S, labels, msg):
    """what the new chain says about itself is about the new matrix"""
    t.same(res.communicating_classes, [[labels[i] for i in c] for c in sp.classes(S)], f'{msg}: communicating classes')
    t.same(res.recurrent_classes, [[labels[i] for i in c] for c in sp.recurrent(S)], f'{msg}: recurrent classes')


def lazy(t, n, max_succ=None):
    P, mc, labels = chain(t, n, False, max_succ, n == 2, lo=TINY)
    kind = t.pick(['default', 'scalar', 'vector', 'ends'])
    if kind == 'default':
        w = [t.const(F(1, 2))] * n
        res = mc.to_lazy_chain()
    elif kind == 'scalar':
        x = t.real('w', 0, 1)
        w = [x] * n
        res = mc.to_lazy(t.val(x))
    elif kind == 'vector':
        w = [t.real(f'w{i}', 0, 1) for i in range(n)]
        res = mc.to_lazy_chain(t.arr(w))
    else:
        k = t.choose(n)
        w = [t.const(1 if i == k else 0) for i in range(n)]
        res = mc.to_lazy_chain(t.arr(w))
    M = [[(1 - w[i]) * P[i][j] + (w[i] if i == j else 0) for j in range(n)] for i in range(n)]
    result(t, res, M, labels, 'to_lazy_chain', P, mc, labels)
    if kind == 'default':
        S = sp.supp(P)
        structure(t, res, [sorted(set(S[i]) | {i}) for i in range(n)], labels, 'to_lazy_chain')
        t.same(bool(res.is_aperiodic), True, 'a lazy chain is aperiodic')
    t.cover(kind)


def bounded(t, n, max_succ=None):
    P, mc, labels = chain(t, n, False, max_succ, n == 2, lo=TINY)
    kind = t.pick(['absorbing', 'reflecting', 'number', 'end'])
    first, last = [t.const(0)] * n, [t.const(0)] * n
    if kind == 'absorbing':
        arg = kind
        first[0] = last[n - 1] = t.const(1)
    elif kind == 'reflecting':
        arg = kind
        first[1] = last[n - 2] = t.const(1)
    else:
        b = t.real('b', 0, 1) if kind == 'number' else t.const(t.choose(2))
        arg = int(b if not t.symbolic else b.cval()) if kind == 'end' else t.val(b)
        first[0], first[1] = 1 - b, b
        last[n - 1], last[n - 2] = b, 1 - b
    res = mc.to_bounded_chain(arg) if len(kind) % 2 else mc.to_bounded(arg)
    M = [first] + [list(P[i]) for i in range(1, n - 1)] + [last]
    result(t, res, M, labels, 'to_bounded_chain', P, mc, labels)
    if kind in ('absorbing', 'reflecting'):
        structure(t, res, sp.supp(M), labels, 'to_bounded_chain')
    t.cover(kind)


def merge(t, n, max_succ=None):
    P, mc, labels = chain(t, n, False, max_succ, n == 2, lo=TINY)
    if n == 2:
        Q = t.stochastic(n, name='q')
    else:
        # a shifted copy of the pattern with its own values
        Q = t.stochastic(n, name='q', max_succ=1)
    other = t.mc(Q, [x + 'x' for x in labels])
    g = t.real('g', F(1, 10 ** 6), 1 - F(1, 10 ** 6))
    res = mc.merge_with(other, t.val(g))
    M = [[(1 - g) * P[i][j] + g * Q[i][j] for j in range(n)] for i in range(n)]
    names = [f'M{i}' for i in range(1, n + 1)]
    result(t, res, M, names, 'merge_with', P, mc, labels)
    t.closem(other.p, Q, 'the other chain is unchanged')
    structure(t, res, [sorted(set(a) | set(b)) for a, b in zip(sp.supp(P), sp.supp(Q))], names, 'merge_with')
    t.cover('merge')


def nth(t, n, orders, max_succ=None):
    P, mc, labels = chain(t, n, False, max_succ, n == 2)
    k = t.pick(orders)
    if k == 2:
        res = mc.to_nth_order()
    else:
        res = mc.to_nth(k) if k % 2 else mc.to_nth_order(k)
    result(t, res, sp.power(P, k), labels, f'order {k}', P, mc, labels)
    S = T = sp.supp(P)
    for _ in range(k - 1):
        T = [sorted({x for y in a for x in S[y]}) for a in T]
    structure(t, res, T, labels, f'order {k}')
    t.cover('nth')


def canonical(t, n, max_succ=None):
    P, mc, labels = chain(t, n, False, max_succ, n < 4, lo=TINY)
    S = sp.supp(P)
    tr = sorted(i for c in sp.transient(S) for i in c)
    rc = sorted(i for c in sp.recurrent(S) for i in c)
    res = mc.to_canonical_form() if len(tr) % 2 else mc.to_canonical()
    o = tr + rc
    M = [[P[i][j] for j in o] for i in o]
    result(t, res, M, [labels[i] for i in o], 'to_canonical_form', P, mc, labels)
    t.same(bool(res.is_canonical), True, 'the canonical form is canonical')
    t.same(bool(mc.is_canonical), not tr or not rc or max(tr) < min(rc), 'is_canonical')
    t.cover('mixed' if tr and o != list(range(n)) else 'plain')


def sub(t, n, max_succ=None, by=None):
    P, mc, labels = chain(t, n, False, max_succ, False, lo=TINY)
    S = sp.supp(P)
    R = sp.reach(S)
    X = t.subset(n)
    if len(X) == n:
        t.infeasible()
    form = (sum(X) + sum(len(s) for s in S)) % 3
    arg = list(X)[::-1]
    if form == 0:
        arg = [labels[i] for i in arg]
    elif form == 1 and len(arg) == 1:
        arg = labels[arg[0]]
    C = sorted(set(X) | {j for i in X for j in R[i]})
    r = t.call(mc.to_subchain if form else mc.to_sub, arg)
    if len(C) == 1:
        t.same(r[0] != 'ok' and r[1], 'ValueError', f'a subchain of one state is not a chain: {r[:2]}')
        t.cover('single')
        return
    if r[0] != 'ok':
        t.fail(f'to_subchain({arg}) raised {r[1]}: {r[2]}')
    M = [[P[i][j] for j in C] for i in C]
    result(t, r[1], M, [labels[i] for i in C], 'to_subchain', P, mc, labels)
    t.cover('grown' if len(C) > len(X) else 'closed')


def bad(t, n):
    P = t.stochastic(n, max_succ=2)
    labels = NAMES[n][1]
    mc = t.mc(P, labels)
    e = F(1, 10 ** 6)
    c = t.choose(11)
    low, high = t.real('low', -10, -e), t.real('high', 1 + e, 10)
    w = [t.real(f'w{i}', 0, 1) for i in range(n)]
    out = low if t.flag() else high
    if c == 0:
        t.rejects(mc.to_lazy_chain, t.val(out), msg='inertial weight out of range')
    elif c == 1:
        w[t.choose(n)] = out
        t.rejects(mc.to_lazy_chain, t.arr(w), msg='inertial weights out of range')
    elif c == 2:
        t.rejects(mc.to_lazy_chain, t.arr(w + [t.const(0)]), msg='too many inertial weights')
    elif c == 3:
        t.rejects(mc.to_bounded_chain, t.val(out), msg='boundary probability out of range')
    elif c == 4:
        t.rejects(mc.to_bounded_chain, 'periodic', msg='unknown boundary condition')
    elif c == 5:
        t.rejects(mc.merge_with, mc, t.val(out), msg='gamma out of range')
    elif c == 6:
        other = t.mc([[t.const(F(1, n + 1))] * (n + 1)] * (n + 1))
        t.rejects(mc.merge_with, other, t.val(t.const(F(1, 2))), msg='sizes differ')
    elif c == 7:
        t.rejects(mc.to_nth_order, t.integer('k', -3, 1), msg='order below 2')
    elif c == 8:
        t.rejects(mc.to_subchain, t.pick([list(range(n)), [0, 0], [], ['?'], [n], [-1], n, None]), msg='bad states')
    elif c == 9:
        t.rejects(mc.to_lazy_chain, t.pick([float('nan'), float('inf'), None, 'x']), msg='bad weight')
    else:
        t.rejects(mc.merge_with, mc, t.pick([0.0, 1.0, float('nan'), 'x']), msg='gamma must be strictly inside')
    t.closem(mc.p, P, 'the chain is unchanged by a rejected request')
    t.cover('bad')


def large(t, n, kinds=('line', 'drain', 'ring', 'blocks', 'star', 'cycle', 'pairs')):
    """more states, one symbolic row"""
    P, mc, labels, kind = structured(t, n, kinds)
    S = sp.supp(P)
    what = t.choose(5)
    if what == 0:
        w = t.real('w', 0, 1)
        M = [[(1 - w) * P[i][j] + (w if i == j else 0) for j in range(n)] for i in range(n)]
        result(t, mc.to_lazy_chain(t.val(w)), M, labels, 'to_lazy_chain', P, mc, labels)
    elif what == 1:
        b = t.real('b', 0, 1)
        M = [[1 - b, b] + [t.const(0)] * (n - 2)] + [list(P[i]) for i in range(1, n - 1)] + [[t.const(0)] * (n - 2) + [1 - b, b]]
        result(t, mc.to_bounded_chain(t.val(b)), M, labels, 'to_bounded_chain', P, mc, labels)
    elif what == 2:
        k = t.pick([2, 3, 5, 8, 13])
        result(t, mc.to_nth_order(k), sp.power(P, k), labels, f'order {k}', P, mc, labels)
    elif what == 3:
        tr = sorted(i for c in sp.transient(S) for i in c)
        o = tr + [i for i in range(n) if i not in tr]
        res = mc.to_canonical_form()
        result(t, res, [[P[i][j] for j in o] for i in o], [labels[i] for i in o], 'to_canonical_form', P, mc, labels)
        t.same(bool(res.is_canonical), True, 'the canonical form is canonical')
    else:
        R = sp.reach(S)
        X = t.pick([[0], [n - 1], [2, 4], [1, n - 2], list(range(0, n, 2)), list(range(n // 2))])
        C = sorted(set(X) | {j for i in X for j in R[i]})
        r = t.call(mc.to_subchain, [labels[i] for i in X])
        if len(C) == 1:
            t.same(r[0] != 'ok' and r[1], 'ValueError', f'a subchain of one state is not a chain: {r[:2]}')
        elif r[0] != 'ok':
            t.fail(f'to_subchain({X}) raised {r[1]}: {r[2]}')
        else:
            result(t, r[1], [[P[i][j] for j in C] for i in C], [labels[i] for i in C], 'to_subchain', P, mc, labels)
    t.cover(f'large {what}')


HARNESSES = [
    Harness('lazy', lazy, quick=[{'n': 2}, {'n': 3, 'max_succ': 2}], thorough=[{'n': 3}, {'n': 4, 'max_succ': 2}], must_cover=['default', 'scalar', 'vector', 'ends']),
    Harness('bounded', bounded, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 4, 'max_succ': 2}], must_cover=['absorbing', 'reflecting', 'number', 'end']),
    Harness('merge', merge, quick=[{'n': 2}, {'n': 3, 'max_succ': 1}], thorough=[{'n': 3, 'max_succ': 2}], must_cover=['merge']),
    Harness('nth', nth, quick=[{'n': 2, 'orders': [2, 3, 4]}, {'n': 3, 'orders': [2, 3]}], thorough=[{'n': 2, 'orders': [5, 6]}, {'n': 3, 'orders': [4]}, {'n': 4, 'orders': [2, 3], 'max_succ': 2}], must_cover=['nth'], weight=2),
    Harness('canonical', canonical, quick=[{'n': 2}, {'n': 3}, {'n': 4, 'max_succ': 1}], thorough=[{'n': 4, 'max_succ': 2}], must_cover=['mixed', 'plain']),
    Harness('sub', sub, quick=[{'n': 3}, {'n': 4, 'max_succ': 1}], thorough=[{'n': 4, 'max_succ': 2}], must_cover=['grown', 'closed', 'single']),
    Harness('large', large, quick=[{'n': 6}, {'n': 11}], thorough=[{'n': n} for n in (5, 6, 7, 8, 10, 11, 14)], must_cover=[f'large {k}' for k in range(5)]),
    Harness('bad', bad, quick=[{'n': 2}], thorough=[{'n': 3}], must_cover=['bad']),
]
