"""C12 Finite-horizon measures equal the path sums that define them"""
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness
from props.common import family, many_labels, chain, structured, NAMES, TINY

BOUNDS = 'chains with n=2,3,4 states, horizons up to 4 (n=2: 5) for rewards, redistribution and first passage; expected transitions up to n steps for every chain and up to n+2 steps for 2-state and triangular chains; every stochastic matrix, distribution and reward vector in range; exact real arithmetic; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 6 and 10 states, horizons up to 25 (thorough 5..12 states, 40 steps); expected transitions of 2-state and triangular chains up to 3001 steps; rare transitions with large rewards; expected transitions beyond n steps of families with a known eigensystem (independent two-state chains observed together, lazy Ehrenfest walks) with separated eigenvalues'
OUTSIDE = 'other longer horizons; expected transitions beyond n steps for chains whose eigendecomposition is not rational (complex or repeated eigenvalues are a listed finding)'


def dist(t, n, name='d'):
    """any distribution, zeros included"""
    xs = [t.real(f'{name}{i}', 0, 1) for i in range(n - 1)]
    r = t.const(1)
    for x in xs:
        r = r - x
    t.assume(r >= 0)
    return xs + [r]


def horizons(n, steps, free):
    # with all zero patterns of 3-state chains, only the longest horizon
    return [steps] if n > 2 and free else range(1, steps + 1)


def matrix(t, n, free=True):
    if free:
        P = t.stochastic(n, param='free')
        return P, t.mc(P, NAMES[n][-1]), NAMES[n][-1]
    # every entry positive; the measures do not look at the zero pattern
    P = t.stochastic(n, supp=[list(range(n))] * n, param='p')
    return P, t.mc(P, NAMES[n][-1]), NAMES[n][-1]


def rewards(t, n, steps, free=True):
    P, mc, labels = matrix(t, n, free)
    r = t.weights(n, 'r', -5, 5)
    k = t.pick(horizons(n, steps, free))
    got = mc.expected_rewards(k, t.arr(r))
    tot, cur = list(r), list(r)
    for _ in range(k):
        cur = sp.mv(P, cur)
        tot = [a + b for a, b in zip(tot, cur)]
    t.closem(got, tot, f'expected rewards {k} steps')
    t.closem(mc.er(k, [x for x in t.arr(r)]), tot, f'expected rewards {k} steps (list)')


def transitions(t, n, steps, free=True):
    P, mc, labels = matrix(t, n, free)
    k = t.pick(horizons(n, steps, free))
    default = t.flag() if n == 2 or not free else False
    d = [t.const(1) / n] * n if default else dist(t, n)
    got = mc.et(k) if default else mc.expected_transitions(k, t.arr(d))
    tot, cur = list(d), list(d)
    for _ in range(k - 1):
        cur = sp.vm(cur, P)
        tot = [a + b for a, b in zip(tot, cur)]
    t.closem(got, [[tot[i] * P[i][j] for j in range(n)] for i in range(n)], f'expected transitions {k} steps')


def long_transitions(t, n, extra, shape):
    """more steps than states: the implementation switches to the eigendecomposition"""
    k = n + 1 + t.choose(extra)
    if shape == 'two':
        P = t.stochastic(2, param='free')
        if not t.boolean(P[0][1] + P[1][0] > t.const(0)):
            t.cover('identity')
    elif shape == 'upper':
        P = t.stochastic(n, allowed=lambda i, s, rows: min(s) >= i)
        # well separated eigenvalues (repeated ones are the listed finding 'rdl-defective')
        for i in range(n):
            for j in range(i):
                t.assume_or(P[i][i] - P[j][j] >= t.const('1/20'), P[j][j] - P[i][i] >= t.const('1/20'))
    elif shape == 'cycle':
        a = t.pick([t.const(0), t.const('1/8'), t.const('1/2')])
        P = [[a if j == i else (1 - a if j == (i + 1) % n else t.const(0)) for j in range(n)] for i in range(n)]
        t.known_tag = 'rdl-complex'
    elif shape == 'defective':
        h = t.const('1/2')
        z = t.const(0)
        P = [[h, h, z], [z, h, h], [z, z, t.const(1)]]
        t.known_tag = 'rdl-defective'
    mc = t.mc(P, NAMES[n][-1])
    d = [t.const(1)] + [t.const(0)] * (n - 1)
    if t.flag():
        d = d[::-1]
    got = mc.expected_transitions(k, t.arr(d))
    tot, cur = list(d), list(d)
    for _ in range(k - 1):
        cur = sp.vm(cur, P)
        tot = [a + b for a, b in zip(tot, cur)]
    t.closem(got, [[tot[i] * P[i][j] for j in range(n)] for i in range(n)], f'expected transitions {k} steps')
    t.cover(shape)


def spectral(t, kind, n, ks):
    """more steps than states on families with many states and a known eigensystem"""
    P, ev, _ = family(t, kind, n)
    # separated eigenvalues: repeated ones may come out as complex pairs (listed finding 'rdl-complex')
    for i in range(len(ev)):
        for x in ev[:i] + [t.const(1)]:
            t.assume_or(ev[i] - x >= t.const('1/50'), x - ev[i] >= t.const('1/50'))
    mc = t.mc(P, many_labels(n))
    k = t.pick(list(ks))
    w = t.choose(3)
    d = [t.const(Fraction(i + 1, n * (n + 1) // 2)) for i in range(n)] if w == 2 else [t.const(1 if i == w * (n - 1) else 0) for i in range(n)]
    got = mc.expected_transitions(k, t.arr(d))
    tot, cur = list(d), list(d)
    for _ in range(k - 1):
        cur = sp.vm(cur, P)
        tot = [a + b for a, b in zip(tot, cur)]
    t.closem(got, [[tot[i] * P[i][j] for j in range(n)] for i in range(n)], f'expected transitions {k} steps')
    t.cover('spectral')


def far_transitions(t, ks, kinds=('two', 'upper')):
    """many more steps than states, an eigenvalue very close to one, any initial distribution"""
    kind, k = t.pick(list(kinds)), t.pick(list(ks))
    if kind == 'two':
        a, b = Fraction(1, 2 ** 18), Fraction(3, 2 ** 20)
        M = [[1 - a, a], [b, 1 - b]]
    else:
        M = [[1 - Fraction(1, 2 ** 17), Fraction(1, 2 ** 18), Fraction(1, 2 ** 18)], [0, Fraction(1, 4), Fraction(3, 4)], [0, 0, 1]]
    n = len(M)
    P = [[t.const(x) for x in r] for r in M]
    mc = t.mc(P, NAMES[n][-1])
    d = dist(t, n)
    got = mc.expected_transitions(k, t.arr(d))
    # 1 + P + ... + P^(k-1), by doubling
    mul = lambda A, B: [[sum((A[i][m] * B[m][j] for m in range(n)), Fraction(0)) for j in range(n)] for i in range(n)]
    one = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    if not t.symbolic:
        one, M = [[float(x) for x in r] for r in one], [[float(x) for x in r] for r in M]
    tot, pw = one, M
    for bit in bin(k)[3:]:
        tot = [[x + y for x, y in zip(r, s)] for r, s in zip(tot, mul(tot, pw))]
        pw = mul(pw, pw)
        if bit == '1':
            tot = [[x + y for x, y in zip(r, s)] for r, s in zip(tot, pw)]
            pw = mul(pw, M)
    t.closem(got, [[sp.total([d[m] * t.const(tot[m][i]) for m in range(n)]) * P[i][j] for j in range(n)] for i in range(n)], f'expected transitions {k} steps')
    t.cover('far')


def first_passage(t, n, steps, free=True):
    P, mc, labels = matrix(t, n, free)
    k = t.pick(horizons(n, steps, free))
    i = t.choose(n)
    arg_i = i if k % 2 else labels[i]
    form = t.choose(2 if n > 3 else 3)
    if form == 0:
        got = mc.first_passage_probabilities(k, arg_i)
        sets = [[j] for j in range(n)]
    else:
        A = [t.choose(n)] if form == 1 else t.pick([s for s in ([a for a in range(n) if m >> a & 1] for m in range(1 << n)) if len(s) > 1])
        got = mc.first_passage_probabilities(k, arg_i, A if i % 2 else [labels[a] for a in A])
        sets = [A]

    def fp(A, wrong=False):
        out = []
        if wrong:
            # the recorded defect: one power keeping only the diagonal out, summed over the set
            g = [list(r) for r in P]
            out.append(sp.total([g[i][a] for a in A]))
            for _ in range(k - 1):
                g = sp.mul(P, [[t.const(0) if a == b else g[a][b] for b in range(n)] for a in range(n)])
                out.append(sp.total([g[i][a] for a in A]))
            return out
        cur = [P[i][j] for j in range(n)]
        out.append(sp.total([cur[a] for a in A]))
        for _ in range(k - 1):
            cur = sp.vm([t.const(0) if j in A else cur[j] for j in range(n)], P)
            out.append(sp.total([cur[a] for a in A]))
        return out
    if form == 0:
        want = sp.transpose([fp(A) for A in sets])
        t.closem(got, want, f'first passage probabilities {k} steps')
    elif form == 1:
        t.closem(got, fp(sets[0]), f'first passage probabilities to {sets[0]}, {k} steps')
    else:
        t.closem_known(got, fp(sets[0]), fp(sets[0], True), 'fpp-set', f'first passage probabilities to {sets[0]}, {k} steps')


def passage_reward(t, n, steps, free=True):
    P, mc, labels = matrix(t, n, free)
    k = t.pick(horizons(n, steps, free))
    i = t.choose(n)
    A = t.pick([s for s in ([a for a in range(n) if m >> a & 1] for m in range(1, 1 << n)) if i not in s and len(s) < n - 1])
    r = t.weights(n, 'r', -5, 5)
    got = (mc.fpr if k % 3 else mc.first_passage_reward)(k, i if k % 2 else labels[i], A if k % 2 == 0 else [labels[a] for a in reversed(A)], t.arr(r))
    cur = [t.const(int(j == i)) for j in range(n)]
    tot = t.const(0)
    for _ in range(k):
        cur = sp.vm(cur, P)
        cur = [t.const(0) if j in A else cur[j] for j in range(n)]
        tot = tot + sp.dot(cur, r)
    t.close(got, tot, f'first passage reward from {i} to {A}, {k} steps')


def passage_reward_errors(t):
    P, mc, labels = matrix(t, 3, False)
    i = t.choose(3)
    m = t.choose(7) + 1
    A = [a for a in range(3) if m >> a & 1]
    if i in A or len(A) == 2:
        t.rejects(mc.first_passage_reward, 2, i, A, t.arr([t.const(1)] * 3), msg=f'targets {A} from {i}')
        t.cover('rejected')
    Q, mc2, _ = matrix(t, 2, False)
    t.rejects(mc2.first_passage_reward, 2, 0, [1], t.arr([t.const(1)] * 2), msg='two states', kind=('ValueError', 'ValidationError'))


def redistribute(t, n, steps, free=True):
    P, mc, labels = matrix(t, n, free)
    k = t.pick(horizons(n, steps, free))
    form = t.choose(3) if n == 2 or not free else 1
    if form == 0:
        d, arg = [t.const(1) / n] * n, None
    elif form == 1:
        d = dist(t, n)
        arg = t.arr(d)
    else:
        i = t.choose(n)
        d, arg = [t.const(int(j == i)) for j in range(n)], (i if i % 2 else labels[i])
    want = [list(d)]
    for _ in range(k):
        want.append(sp.vm(want[-1], P))
    t.closem(mc.redistribute(k, arg), want[-1], f'last of {k} steps')
    t.closem(mc.redistribute(k, arg, output_last=False), want, f'all {k} steps')


def sequence(t, n, length, free=True):
    P, mc, labels = matrix(t, n, free)
    k = t.pick(range(2, length + 1))
    s = [t.choose(n) for _ in range(k)]
    want = t.const(1)
    for a, b in zip(s, s[1:]):
        want = want * P[a][b]
    t.close(mc.sequence_probability(s if s[0] else [labels[a] for a in s]), want, f'probability of {s}')


KINDS = ('line', 'ring', 'blocks', 'star', 'slow', 'fork')


def large(t, n, ks, kinds=KINDS):
    """more states and longer horizons, one symbolic row"""
    P, mc, labels, kind = structured(t, n, kinds)
    what = t.choose(6)
    k = t.pick([k for k in ks if what != 1 or k <= n] or [n])
    i = (k + 1) % n
    if what == 0:
        u = t.pick([Fraction(1), Fraction(1, 10 ** 9)])
        r = [t.const(u * Fraction(7 * j % n, 3)) for j in range(n)]
        tot, cur = list(r), list(r)
        for _ in range(k):
            cur = sp.mv(P, cur)
            tot = [a + b for a, b in zip(tot, cur)]
        # in units of the rewards, however small these are
        got = [t.val(x) / u for x in mc.expected_rewards(k, t.arr(r))] if t.symbolic else [float(x) / float(u) for x in mc.expected_rewards(k, t.arr(r))]
        t.closem(got, [x / u for x in tot] if t.symbolic else [float(x) / float(u) for x in tot], f'expected rewards {k} steps')
    elif what == 1:
        d = [t.const(int(j == i)) for j in range(n)]
        tot, cur = list(d), list(d)
        for _ in range(k - 1):
            cur = sp.vm(cur, P)
            tot = [a + b for a, b in zip(tot, cur)]
        t.closem(mc.expected_transitions(k, t.arr(d)), [[tot[a] * P[a][b] for b in range(n)] for a in range(n)], f'expected transitions {k} steps')
    elif what == 2:
        j = (i + 2) % n
        got = mc.first_passage_probabilities(k, i, j)
        cur, want = [P[i][b] for b in range(n)], []
        for s in range(k):
            want.append(cur[j])
            cur = sp.vm([t.const(0) if b == j else cur[b] for b in range(n)], P)
        t.closem(got, want, f'first passage probabilities {i}->{j} {k} steps')
        t.closem([x[j] for x in mc.fpp(k, labels[i])], want, f'first passage probabilities {i} {k} steps')
    elif what == 3:
        A = sorted([(i + 1) % n, (i + 3) % n])
        r = [t.const(Fraction(5 * j % n, 2)) for j in range(n)]
        cur, tot = [t.const(int(j == i)) for j in range(n)], t.const(0)
        for _ in range(k):
            cur = sp.vm(cur, P)
            cur = [t.const(0) if j in A else cur[j] for j in range(n)]
            tot = tot + sp.dot(cur, r)
        t.close(mc.first_passage_reward(k, i, A, t.arr(r)), tot, f'first passage reward from {i} to {A}, {k} steps')
    elif what == 4:
        d = [t.const(int(j == i)) for j in range(n)]
        want = [list(d)]
        for _ in range(k):
            want.append(sp.vm(want[-1], P))
        t.closem(mc.redistribute(k, i), want[-1], f'last of {k} steps')
        t.closem(mc.redistribute(k, t.arr(d), output_last=False), want, f'all {k} steps')
    else:
        # a walk of k steps along the pattern
        s, p = [i], t.const(1)
        for m in range(k):
            nxt = [j for j in range(n) if not sp.zero(P[s[-1]][j])]
            s.append(nxt[m % len(nxt)])
            p = p * P[s[-2]][s[-1]]
        t.close(t.val(mc.sequence_probability([labels[a] for a in s])) * 10 ** k, p * 10 ** k, f'probability of {k} transitions')
        z = [j for j in range(n) if sp.zero(P[s[-1]][j])]
        if z:
            t.close(mc.sequence_probability(s + [z[0]] + s[:1]), 0, 'probability of a sequence with an impossible transition')
    t.cover(f'large {what}')


def rare(t, n):
    """rare transitions: probabilities down to 1e-9 are not negligible"""
    supp = [list(range(n))] * n
    P = t.stochastic(n, supp=supp, param='p', lo=TINY)
    mc = t.mc(P, NAMES[n][-1])
    what = t.choose(3)
    i, j = t.choose(n), t.choose(n)
    if what == 0:
        s = [i, j, i]
        t.close(mc.sequence_probability(s) * 10 ** 18, P[i][j] * P[j][i] * 10 ** 18, f'probability of {s}')
    elif what == 1:
        got = mc.first_passage_probabilities(3, i, j)
        cur = [P[i][b] for b in range(n)]
        for s in range(3):
            t.close(t.val(got[s]) * 10 ** 9, cur[j] * 10 ** 9, f'first passage probability {i}->{j} at {s + 1}')
            cur = sp.vm([t.const(0) if b == j else cur[b] for b in range(n)], P)
    else:
        got = mc.redistribute(3, i)
        cur = [t.const(int(b == i)) for b in range(n)]
        for s in range(3):
            cur = sp.vm(cur, P)
        for b in range(n):
            t.close(t.val(got[b]) * 10 ** 9, cur[b] * 10 ** 9, f'distribution after 3 steps at {b}')


HARNESSES = [
    Harness('rewards', rewards, quick=[{'n': 2, 'steps': 5}, {'n': 3, 'steps': 2}, {'n': 3, 'steps': 4, 'free': False}, {'n': 4, 'steps': 2, 'free': False}],
            thorough=[{'n': 2, 'steps': 8}, {'n': 3, 'steps': 5}, {'n': 4, 'steps': 3, 'free': False}]),
    Harness('transitions', transitions, quick=[{'n': 2, 'steps': 2}, {'n': 3, 'steps': 2}, {'n': 3, 'steps': 3, 'free': False}, {'n': 4, 'steps': 4, 'free': False}],
            thorough=[{'n': 2, 'steps': 2}, {'n': 3, 'steps': 3}, {'n': 4, 'steps': 4, 'free': False}, {'n': 5, 'steps': 3, 'free': False}]),
    Harness('long_transitions', long_transitions, quick=[{'n': 2, 'extra': 3, 'shape': 'two'}, {'n': 3, 'extra': 2, 'shape': 'upper'}, {'n': 3, 'extra': 2, 'shape': 'cycle'}, {'n': 3, 'extra': 2, 'shape': 'defective'}],
            thorough=[{'n': 2, 'extra': 6, 'shape': 'two'}, {'n': 3, 'extra': 4, 'shape': 'upper'}, {'n': 3, 'extra': 2, 'shape': 'cycle'}, {'n': 3, 'extra': 2, 'shape': 'defective'}]),
    Harness('spectral', spectral, quick=[{'kind': 'kron', 'n': 4, 'ks': (5, 6)}, {'kind': 'walk', 'n': 4, 'ks': (5, 9)}, {'kind': 'walk', 'n': 6, 'ks': (7, 12)}],
            thorough=[{'kind': 'kron', 'n': 4, 'ks': (5, 6, 7, 8)}, {'kind': 'walk', 'n': 4, 'ks': (5, 9, 15)}, {'kind': 'walk', 'n': 6, 'ks': (7, 12, 20)}, {'kind': 'walk', 'n': 9, 'ks': (10, 14)}], must_cover=('spectral',), path_s=30.0),
    Harness('far_transitions', far_transitions, quick=[{'ks': (1000, 3001)}], thorough=[{'ks': (1000, 3001, 20000)}], must_cover=('far',), path_s=30.0),
    Harness('first_passage', first_passage, quick=[{'n': 2, 'steps': 5}, {'n': 3, 'steps': 4, 'free': False}, {'n': 4, 'steps': 3, 'free': False}],
            thorough=[{'n': 2, 'steps': 8}, {'n': 3, 'steps': 6}, {'n': 4, 'steps': 4, 'free': False}]),
    Harness('passage_reward', passage_reward, quick=[{'n': 3, 'steps': 4, 'free': False}, {'n': 4, 'steps': 3, 'free': False}],
            thorough=[{'n': 3, 'steps': 6}, {'n': 4, 'steps': 4, 'free': False}]),
    Harness('passage_reward_errors', passage_reward_errors, quick=[{}], thorough=[{}], must_cover=('rejected',)),
    Harness('redistribute', redistribute, quick=[{'n': 2, 'steps': 4}, {'n': 3, 'steps': 2}, {'n': 3, 'steps': 4, 'free': False}, {'n': 4, 'steps': 2, 'free': False}],
            thorough=[{'n': 2, 'steps': 6}, {'n': 3, 'steps': 4}, {'n': 4, 'steps': 3, 'free': False}]),
    Harness('large', large, quick=[{'n': 6, 'ks': (5, 6, 12)}, {'n': 10, 'ks': (9, 25)}],
            thorough=[{'n': n, 'ks': (3, 5, 7, 10, 15, 25, 40)} for n in (5, 6, 7, 8, 10, 12)], must_cover=[f'large {k}' for k in range(6)]),
    Harness('rare', rare, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 2}, {'n': 3}, {'n': 4}]),
    Harness('sequence', sequence, quick=[{'n': 2, 'length': 4}, {'n': 3, 'length': 4, 'free': False}],
            thorough=[{'n': 2, 'length': 7}, {'n': 3, 'length': 5, 'free': False}]),
]
