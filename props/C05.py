"""C05 State classification matches the reachability structure"""
from engine import spec as sp
from engine.run import Harness
from props.common import chain, NAMES, TINY, HUGE

BOUNDS = 'all zero patterns of chains with n=2,3 states (n=4 with at most 2 successors per state quick, all patterns thorough); every positive value of the entries with ratios in [1/100,100]; all label orders for n=2,3; cycles of 1 to 4 states joined in a chain, fork, join or diamond (n=5..8); complete, ring, line and block patterns with 18 and 20 states (thorough up to 33)'
OUTSIDE = 'other chains with more states'


SHAPES = {2: [{0: [1]}, {1: [0]}, {}], 3: [{0: [1], 1: [2]}, {2: [1], 1: [0]}, {0: [2], 1: [2]}, {1: [0, 2]}, {2: [0], 0: [1]}, {0: [1]}],
          4: [{0: [1], 1: [2], 2: [3]}, {3: [2], 2: [1], 1: [0]}, {0: [1, 2], 1: [3], 2: [3]}, {3: [1, 2]}, {1: [3], 3: [0], 0: [2]}, {2: [0], 3: [1]}]}


def condensed(t, sizes):
    """communicating classes of the given sizes (cycles) joined in every listed way, in two orders of the states"""
    n = sum(sizes)
    cl, k = [], 0
    for m in sizes:
        cl.append(list(range(k, k + m)))
        k += m
    order = t.pick([list(range(n)), [(i * (n - 2) + 1) % n for i in range(n)] if n % 2 else [(n - i) % n for i in range(n)]])
    at = lambda i: order.index(i)
    rows = [set() for _ in range(n)]
    for c in cl:
        for a, b in zip(c, c[1:] + c[:1]):
            rows[at(a)].add(at(b))
    for a, bs in t.pick(SHAPES[len(sizes)]).items():
        for b in bs:
            rows[at(cl[a][-1])].add(at(cl[b][0]))
            if len(cl[a]) == 1 and len(bs) == 1:
                rows[at(cl[a][0])].discard(at(cl[a][0]))
    P = t.stochastic(n, supp=[sorted(r) for r in rows], lo=TINY, hi=HUGE)
    labels = t.pick([[str(i + 1) for i in range(n)], [chr(ord('a') + n - i) for i in range(n)]])
    return P, t.mc(P, labels), labels


def classification(t, n=None, max_succ=None, names=True, free=False, sizes=None):
    if sizes is None:
        P, mc, labels = chain(t, n, free, max_succ, names, lo=TINY, hi=HUGE)
    else:
        P, mc, labels = condensed(t, t.pick(list(sizes)))
        n = len(P)
    S = sp.supp(P)
    R = sp.reach(S)
    L = lambda c: [labels[i] for i in c]
    cl = sp.classes(S)
    rec, tra = sp.recurrent(S), sp.transient(S)
    t.same(mc.communicating_classes, [L(c) for c in cl], 'communicating classes')
    t.same(mc.recurrent_classes, [L(c) for c in rec], 'recurrent classes')
    t.same(mc.transient_classes, [L(c) for c in tra], 'transient classes')
    t.same(mc.recurrent_states, [labels[i] for i in sorted(i for c in rec for i in c)], 'recurrent states')
    t.same(mc.transient_states, [labels[i] for i in sorted(i for c in tra for i in c)], 'transient states')
    ab = sp.absorbing_states(P)
    t.same(mc.absorbing_states, L(ab), 'absorbing states')
    t.same(bool(mc.is_absorbing), sp.is_absorbing(P), 'is_absorbing')
    t.same(bool(mc.is_irreducible), len(cl) == 1, 'is_irreducible')
    acc = [[int(j in R[i]) for j in range(n)] for i in range(n)]
    com = [[int(j in R[i] and i in R[j]) for j in range(n)] for i in range(n)]
    t.closem(mc.accessibility_matrix, acc, 'accessibility matrix')
    t.closem(mc.communication_matrix, com, 'communication matrix')
    t.same(mc.n, n, 'n')
    t.same(mc.size, n, 'size')
    for i in range(n):
        for j in range(n):
            t.same(bool(mc.is_accessible(j, i)), bool(acc[i][j]), f'is_accessible({j},{i})')
            t.same(bool(mc.are_communicating(labels[i], labels[j])), bool(com[i][j]), f'are_communicating({i},{j})')
        s = t.api.MarkovChain.is_absorbing_state(mc, labels[i])
        t.same(bool(s), i in ab, 'is_absorbing_state')
        t.same(bool(mc.is_recurrent_state(i)), any(i in c for c in rec), 'is_recurrent_state')
        t.same(bool(mc.is_transient_state(i)), any(i in c for c in tra), 'is_transient_state')
    if len(cl) == 1:
        t.cover('irreducible')
    if len(rec) > 1 and tra:
        t.cover('two recurrent classes and transient states')
    if sp.is_absorbing(P) and tra:
        t.cover('absorbing with transient states')


def large(t, n, kinds=('complete', 'triangular', 'blocks')):
    """structured chains with many states: every entry of the pattern is symbolic"""
    kind = t.pick(list(kinds))
    k = n // 3
    rows = {'complete': [list(range(n))] * n, 'triangular': [list(range(i, n)) for i in range(n)],
            'blocks': [list(range(k)) if i < k else list(range(k, 2 * k)) if i < 2 * k else list(range(n)) for i in range(n)],
            'ring': [[i, (i + 1) % n] for i in range(n)], 'line': [[i, min(i + 1, n - 1)] for i in range(n)]}[kind]
    rows = [sorted(set(r)) for r in rows]
    P = [[t.const(0)] * n for _ in range(n)]
    for i, r in enumerate(rows):
        P[i] = list(P[i])
        if len(r) == 1:
            P[i][r[0]] = t.const(1)
            continue
        x = t.real(f'x{i}', TINY, 1 - TINY * n)
        for j in r[1:]:
            P[i][j] = (1 - x) / (len(r) - 1)
        P[i][r[0]] = x
    mc = t.mc(P)
    labels = [str(i + 1) for i in range(n)]
    R = sp.reach([set(r) for r in rows])
    cl = {'complete': [list(range(n))], 'ring': [list(range(n))], 'triangular': [[i] for i in range(n)], 'line': [[i] for i in range(n)],
          'blocks': [list(range(k)), list(range(k, 2 * k)), list(range(2 * k, n))]}[kind]
    L = lambda c: [labels[i] for i in c]
    t.same(sorted(sorted(labels.index(x) for x in c) for c in mc.communicating_classes), cl, 'communicating classes')
    t.same(sorted(labels.index(x) for x in mc.recurrent_states), {'blocks': list(range(2 * k)), 'triangular': [n - 1], 'line': [n - 1]}.get(kind, list(range(n))), 'recurrent states')
    acc = [[int(j in R[i]) for j in range(n)] for i in range(n)]
    com = [[int(j in R[i] and i in R[j]) for j in range(n)] for i in range(n)]
    t.closem(mc.accessibility_matrix, acc, 'accessibility matrix')
    t.closem(mc.communication_matrix, com, 'communication matrix')
    for i, j in ((0, n - 1), (n - 1, 0), (1, 2), (n - 2, n - 3)):
        t.same(bool(mc.is_accessible(j, i)), bool(acc[i][j]), f'is_accessible({j},{i})')
        t.same(bool(mc.are_communicating(i, j)), bool(com[i][j]), f'are_communicating({i},{j})')
    t.same(bool(mc.is_irreducible), len(cl) == 1, 'is_irreducible')
    t.same(bool(mc.is_absorbing), kind in ('triangular', 'line'), 'is_absorbing')
    t.cover(kind)


SIZES = ((3, 1, 1), (1, 3, 1), (1, 1, 3), (2, 2, 1), (3, 3, 1), (2, 3, 2), (1, 4, 2), (3, 4), (1, 1, 3, 1), (2, 1, 2, 2), (3, 1, 1, 3), (1, 1, 1, 2))

HARNESSES = [
    Harness('classification', classification, quick=[{'n': 2, 'free': True}, {'n': 3, 'free': True}, {'n': 4, 'max_succ': 2, 'names': False}, {'sizes': SIZES}],
            thorough=[{'n': 2, 'free': True}, {'n': 3, 'free': True}, {'n': 4, 'names': False}, {'sizes': SIZES}], must_cover=('irreducible', 'two recurrent classes and transient states', 'absorbing with transient states')),
    Harness('large', large, quick=[{'n': 18}, {'n': 20, 'kinds': ('complete', 'ring', 'line')}],
            thorough=[{'n': n, 'kinds': ('complete', 'triangular', 'blocks', 'ring', 'line')} for n in (17, 18, 20, 30, 33)], must_cover=('complete', 'ring', 'blocks')),
]
