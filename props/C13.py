"""C13 Time correlations and relaxations follow the matrix powers"""
from engine import spec as sp
from engine.run import Harness
from props.common import family, many_labels, chain, structured, NAMES, TINY, HUGE
from props.C12 import dist

BOUNDS = 'all zero patterns of chains with n=2,3 states, observation sequences of up to 3 states, time points up to n+2 (relaxations: up to n, beyond only for 2-state chains); every positive value of the entries with weight ratios in [1/100,100]; exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 5..9 states and times up to 101 (thorough 4..11 states, times up to 200); relaxations beyond n steps of families with a known eigensystem (independent two-state chains observed together, lazy Ehrenfest walks; up to 6, thorough 9, states)'
OUTSIDE = 'relaxations beyond n steps for chains with more than two states (eigendecomposition not encoded; complex or repeated eigenvalues are a listed finding)'


def counts(n, s):
    return [sum(1 for x in s if x == i) for i in range(n)]


def times(t, top):
    """a time point or an increasing list of them"""
    if t.flag():
        k = t.choose(top + 1)
        return k, [k]
    m = t.pick([m for m in range(1, 1 << (top + 1)) if bin(m).count('1') in (2, 3)])
    ts = [i for i in range(top + 1) if m >> i & 1]
    return ts, ts


def sequences(t, n):
    return t.pick([([0, n - 1], None), ([n - 1, 0, n - 1], [0, 1]), ([0, 0], [1, 1, n - 1])])


def correlations(t, n, top, ring=False):
    P, mc, labels = chain(t, n, names=False, ring=ring)
    S = sp.supp(P)
    s1, s2 = sequences(t, n)
    arg, ts = times(t, top)
    lab = lambda s: None if s is None else ([labels[i] for i in s] if isinstance(arg, int) else s)
    got = (mc.tc if len(s1) % 2 else mc.time_correlations)(lab(s1), lab(s2), arg)
    if len(sp.recurrent(S)) > 1:
        t.same(got, None, 'time_correlations')
        t.cover('none')
        return
    pi = sp.stationaries(P)[0]
    a, b = counts(n, s1), counts(n, s1 if s2 is None else s2)
    cur, want = [t.const(x) for x in b], []
    for k in range(max(ts) + 1):
        if k in ts:
            want.append(sp.dot([pi[i] * a[i] for i in range(n)], cur))
        cur = sp.mv(P, cur)
    if isinstance(arg, int):
        t.close(got, want[0], f'time_correlations at {arg}')
    else:
        t.closem(got, want, f'time_correlations at {arg}')
    t.cover('value')


def relaxations(t, n, top, ring=False, max_succ=None):
    P, mc, labels = chain(t, n, names=False, ring=ring, max_succ=max_succ)
    S = sp.supp(P)
    s, _ = sequences(t, n) if n == 2 else ([n - 1, 0, n - 1], None)
    arg, ts = times(t, top)
    default = t.flag()
    d = [t.const(1) / n] * n if default else dist(t, n)
    lab = [labels[i] for i in s] if isinstance(arg, int) else s
    got = (mc.tr if default else mc.time_relaxations)(lab, None if default else t.arr(d), arg)
    if len(sp.recurrent(S)) > 1:
        t.same(got, None, 'time_relaxations')
        t.cover('none')
        return
    a = [t.const(x) for x in counts(n, s)]
    cur, want = list(d), []
    for k in range(max(ts) + 1):
        if k in ts:
            want.append(sp.dot(cur, a))
        cur = sp.vm(cur, P)
    if isinstance(arg, int):
        t.close(got, want[0], f'time_relaxations at {arg}')
    else:
        t.closem(got, want, f'time_relaxations at {arg}')
    t.cover('value')


def relaxations_long(t, shape):
    """time points beyond the number of states: the implementation switches to the eigendecomposition"""
    n = 3
    if shape == 'cycle':
        a = t.pick([t.const(0), t.const('1/8')])
        P = [[a if j == i else (1 - a if j == (i + 1) % n else t.const(0)) for j in range(n)] for i in range(n)]
        t.known_tag = 'rdl-complex'
    else:
        h, z = t.const('1/2'), t.const(0)
        P = [[h, h, z], [z, h, h], [z, z, t.const(1)]]
        t.known_tag = 'rdl-defective'
    mc = t.mc(P, NAMES[n][-1])
    k = 4 + t.choose(2)
    got = mc.time_relaxations([0, 0, 2], None, [1, k])
    cur, want = [t.const(1) / n] * n, []
    for j in range(k + 1):
        if j in (1, k):
            want.append(cur[0] * 2 + cur[2])
        cur = sp.vm(cur, P)
    t.closem(got, want, f'time_relaxations at {[1, k]}')


def spectral(t, kind, n, tops):
    """time points beyond the number of states on families with many states and a known eigensystem"""
    P, ev, _ = family(t, kind, n, 1)
    for i in range(len(ev)):
        for x in ev[:i] + [t.const(1)]:
            t.assume_or(ev[i] - x >= t.const('1/50'), x - ev[i] >= t.const('1/50'))
    mc = t.mc(P, many_labels(n))
    ts = t.pick(list(tops))
    s = [(3 * i + 1) % n for i in range(2 * n - 3)]
    w = t.choose(3)
    d = [t.const(1) / n] * n if w == 2 else [t.const(1 if i == w * (n - 1) else 0) for i in range(n)]
    got = mc.time_relaxations(s, None if w == 2 else t.arr(d), ts)
    a = [t.const(x) for x in counts(n, s)]
    cur, want = list(d), []
    for k in range(max(ts) + 1):
        if k in ts:
            want.append(sp.dot(cur, a))
        cur = sp.vm(cur, P)
    t.closem(got, want, f'time_relaxations at {ts}')
    t.cover('spectral')


def large(t, n, tops, kinds=('ring', 'star', 'walk', 'line', 'blocks')):
    """more states, longer observation sequences, later time points"""
    P, mc, labels, kind = structured(t, n, kinds)
    S = sp.supp(P)
    s1 = [(3 * i + 1) % n for i in range(2 * n - 3)]
    s2 = None if t.flag() else [(i * i) % n for i in range(n + 4)]
    ts = t.pick(list(tops))
    got = mc.time_correlations(s1, s2, ts)
    if len(sp.recurrent(S)) > 1:
        t.same(got, None, 'time_correlations')
        t.same(mc.time_relaxations(s1, None, ts), None, 'time_relaxations')
        t.cover('none')
        return
    pi = sp.stationaries(P)[0]
    a, b = counts(n, s1), counts(n, s1 if s2 is None else s2)
    cur, want = [t.const(x) for x in b], {}
    for k in range(max(ts) + 1):
        want[k] = sp.dot([pi[i] * a[i] for i in range(n)], cur)
        cur = sp.mv(P, cur)
    t.closem(got, [want[k] for k in ts], f'time_correlations at {ts}')
    t.close(mc.time_correlations(s1, s2, ts[-1]), want[ts[-1]], f'time_correlations at {ts[-1]}')
    ts = [k for k in ts if k <= n]
    if ts:
        cur, want = [t.const(1) / n] * n, {}
        for k in range(max(ts) + 1):
            want[k] = sp.dot(cur, a)
            cur = sp.vm(cur, P)
        t.closem(mc.time_relaxations(s1, None, ts if len(ts) > 1 else ts[0]), [want[k] for k in ts] if len(ts) > 1 else want[ts[0]], f'time_relaxations at {ts}')
    t.cover('value')


HARNESSES = [
    Harness('correlations', correlations, quick=[{'n': 2, 'top': 4}, {'n': 3, 'top': 2}], thorough=[{'n': 2, 'top': 6}, {'n': 3, 'top': 5}], must_cover=('none', 'value')),
    Harness('relaxations', relaxations, quick=[{'n': 2, 'top': 4}, {'n': 3, 'top': 3, 'ring': True, 'max_succ': 2}], thorough=[{'n': 2, 'top': 6}, {'n': 3, 'top': 3}], must_cover=('none', 'value')),
    Harness('large', large, quick=[{'n': 6, 'tops': ([0, 3, 4], [2, 15])}, {'n': 9, 'tops': ([1, 9], [5, 6, 12])}, {'n': 5, 'tops': ([3, 64], [100, 101]), 'kinds': ('cycle', 'lasso', 'walk')}],
            thorough=[{'n': n, 'tops': ([0, 3, 4], [2, 15], [1, n], [n - 1, n, 2 * n], [30, 40])} for n in (5, 6, 8, 9, 11)] + [{'n': n, 'tops': ([3, 64], [100, 101], [127, 200]), 'kinds': ('cycle', 'lasso', 'walk', 'ring')} for n in (4, 5, 7)], must_cover=('none', 'value')),
    Harness('spectral', spectral, quick=[{'kind': 'kron', 'n': 4, 'tops': ([1, 6], [0, 4, 5])}, {'kind': 'walk', 'n': 4, 'tops': ([5, 9], [2, 3, 7])}, {'kind': 'walk', 'n': 6, 'tops': ([0, 5, 7], [12])}],
            thorough=[{'kind': 'kron', 'n': 4, 'tops': ([1, 6], [0, 4, 5], [8, 9])}, {'kind': 'walk', 'n': 6, 'tops': ([0, 5, 7], [12], [20, 25])}, {'kind': 'walk', 'n': 9, 'tops': ([3, 10], [18])}], must_cover=('spectral',), path_s=30.0),
    Harness('relaxations_long', relaxations_long, quick=[{'shape': 'cycle'}, {'shape': 'defective'}], thorough=[{'shape': 'cycle'}, {'shape': 'defective'}]),
]
