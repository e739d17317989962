"""C06 Periods, cyclic classes, aperiodicity, regularity"""
import math

from engine import spec as sp
from engine.run import Harness
from props.common import chain, many_labels, structured, TINY, HUGE

BOUNDS = 'all zero patterns of chains with n=2,3 states (n=4 with at most 2 successors per state quick, all patterns thorough; n=5 irreducible with at most one or two successors), every positive value of the entries with ratios in [1/100,100]; several label orders; several closed classes with periods up to 15 and transient states; cycles, lazy and Wielandt chains with up to 41 (thorough 60) states; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 7 states (thorough 5..15)'
OUTSIDE = 'other chains with more states'


def periodicity(t, n, free=False, max_succ=None, names=True):
    P, mc, labels = chain(t, n, free, max_succ, names, **({"lo": TINY, "hi": HUGE} if n < 4 and not free else {}))
    verdict(t, P, mc, labels, not free)


def layered(t, spec):
    """recurrent classes of the given (period, states per layer), every layer leading to the next one, and a transient state"""
    x = t.real('x', TINY, 1 - TINY)
    rows, base = [], 0
    for p, w in spec:
        for i in range(p * w):
            nxt = [base + (i // w + 1) % p * w + k for k in range(w)]
            rows.append({nxt[0]: t.const(1)} if w == 1 else dict([(nxt[0], x / (w - 1) if w > 2 else x)] + [(j, (1 - x if w == 2 else (1 - x / (w - 1)) / (w - 1))) for j in nxt[1:]]))
        base += p * w
    if len(spec) > 1:
        last = base - spec[-1][0] * spec[-1][1]
        rows.append({0: x, last: 1 - x})
    n = len(rows)
    step = next(k for k in (3, 5, 7, 11, 2) if n % k)
    at = [(i * step + 1) % n for i in range(n)]
    P = [[t.const(0)] * n for _ in range(n)]
    for i, r in enumerate(rows):
        for j, v in r.items():
            P[at[i]][at[j]] = v
    labels = many_labels(n)
    return P, t.mc(P, labels), labels


def several(t, specs):
    verdict(t, *layered(t, t.pick(specs)), True)
    t.cover('several')


def structured_(t, n, kinds):
    verdict(t, *structured(t, n, kinds)[:3], True)
    t.cover('structured')


def verdict(t, P, mc, labels, regular):
    n = len(P)
    S = sp.supp(P)
    L = lambda c: [labels[i] for i in c]
    cl, rec = sp.classes(S), sp.recurrent(S)
    per = {tuple(c): sp.period(S, c) for c in rec}
    got = mc.periods
    t.same(len(got), len(cl), 'number of periods')
    for k, c in enumerate(cl):
        if c in rec:
            t.same(got[k], per[tuple(c)], f'period of class {c}')
    ps = list(per.values())
    lcm = 1
    for p in ps:
        lcm = lcm * p // math.gcd(lcm, p)
    aper = lcm == 1
    mixed = len(cl) > 1 and not aper and math.gcd(*ps) == 1
    t.same_known(bool(mc.is_aperiodic), aper, True if mixed else aper, 'aperiodic-mixed-classes', 'is_aperiodic')
    t.same_known(mc.period, lcm, 1 if mixed else lcm, 'aperiodic-mixed-classes', 'period')
    irr = len(cl) == 1
    t.same(bool(mc.is_ergodic), irr and aper, 'is_ergodic')
    if regular:
        t.same(bool(mc.is_regular), sp.regular(S), 'is_regular')
    if irr:
        d = lcm
        R = {0: 0}
        todo = [0]
        while todo:
            k = todo.pop()
            for j in S[k]:
                if j not in R:
                    R[j] = R[k] + 1
                    todo.append(j)
        cyc = sorted([[i for i in range(n) if R[i] % d == k] for k in range(d)], key=lambda c: (-len(c), c[0]))
        t.cover(f'irreducible period {d}')
    else:
        cyc = []
    t.same(mc.cyclic_classes, [L(c) for c in cyc], 'cyclic classes')
    cs = sorted(i for c in cyc for i in c)
    t.same(mc.cyclic_states, L(cs), 'cyclic states')
    for i in range(n):
        t.same(bool(mc.is_cyclic_state(labels[i])), i in cs, 'is_cyclic_state')
    if len(rec) > 1 and not aper:
        t.cover('reducible periodic')


def large(t, ns):
    """cycles through many states, with or without a chord"""
    n = t.pick(list(ns))
    kind = t.pick(['cycle', 'wielandt', 'lazy', 'chord'])
    x = t.real('x', TINY, 1 - TINY) if n < 20 else t.const('1/10000')
    P = [[t.const(1) if j == (i + 1) % n else t.const(0) for j in range(n)] for i in range(n)]
    extra = {'wielandt': (n - 1, 1), 'lazy': (n // 2, n // 2), 'chord': (n - 1, 2)}.get(kind)
    if extra:
        i, j = extra
        P[i][(i + 1) % n] = 1 - x
        P[i][j] = x
    d = {'cycle': n, 'wielandt': 1, 'lazy': 1, 'chord': 1 if n % 2 else 2}[kind]
    mc = t.mc(P)
    t.same(bool(mc.is_regular), d == 1, 'is_regular')
    t.same(mc.period, d, 'period')
    t.same(bool(mc.is_aperiodic), d == 1, 'is_aperiodic')
    t.same(bool(mc.is_ergodic), d == 1, 'is_ergodic')
    t.same(mc.cyclic_classes, [[str(i + 1) for i in range(n) if i % d == k] for k in range(d)], 'cyclic classes')
    t.cover(kind)


HARNESSES = [
    Harness('periodicity', periodicity, quick=[{'n': 2, 'free': True}, {'n': 3, 'free': True}, {'n': 2}, {'n': 3}, {'n': 4, 'max_succ': 2, 'names': False}],
            thorough=[{'n': 2, 'free': True}, {'n': 3, 'free': True}, {'n': 2}, {'n': 3}, {'n': 4, 'names': False}, {'n': 5, 'max_succ': 2, 'names': False}],
            must_cover=('irreducible period 1', 'irreducible period 2', 'irreducible period 3', 'reducible periodic')),
    Harness('several', several, quick=[{'specs': [((4, 1), (6, 1)), ((2, 2), (4, 1)), ((6, 1), (3, 2)), ((4, 2),), ((3, 3),), ((6, 1), (6, 1)), ((1, 3), (4, 1)), ((4, 1), (6, 1), (10, 1)), ((6, 2),)]}],
            thorough=[{'specs': [((a, u), (b, v)) for a, u in ((1, 2), (2, 1), (3, 2), (4, 1), (6, 1), (9, 1)) for b, v in ((1, 3), (2, 3), (4, 2), (6, 1), (10, 1), (15, 1))] + [((p, w),) for p in range(1, 9) for w in (2, 3)] + [((4, 1), (6, 1), (10, 1))]}], must_cover=('several',)),
    Harness('structured', structured_, quick=[{'n': 7, 'kinds': ('line', 'drain', 'ring', 'cycle', 'lasso', 'walk', 'lazy', 'star', 'blocks', 'fork', 'leak', 'pairs')}], thorough=[{'n': n, 'kinds': ('line', 'drain', 'ring', 'cycle', 'lasso', 'walk', 'lazy', 'star', 'blocks', 'fork', 'leak', 'pairs')} for n in (5, 6, 7, 8, 9, 10, 12, 15)], must_cover=('structured',)),
    Harness('large', large, quick=[{'ns': (4, 5, 6, 7, 41)}], thorough=[{'ns': (4, 5, 6, 7, 8, 9, 10, 11, 12, 25, 41, 60)}], must_cover=('cycle', 'wielandt', 'lazy', 'chord')),
]
