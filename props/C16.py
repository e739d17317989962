"""C16 Simulated and predicted walks follow the model"""
from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, structured_hmm, NAMES, ind, TINY, HUGE

BOUNDS = 'all zero patterns of chains with n=2,3 states (walks of up to 3 steps) and of hidden Markov models with 2 states and 2 symbols (n=3, k=3: some patterns), every outcome of every draw, every final state and symbol; every positive value of the entries with weight ratios in [1/100,100]; exact real arithmetic; uniform draws range over [0, 1-2^-53]; structured chains (families of props/common: line, drain, ring, cycle, lasso, walk, lazy, star, blocks, slow, trap; shuffled states, rational entries and one fully symbolic row) with 7 states, walks of 20 and predictions of 12 steps (thorough 9 states, 40 steps); structured hidden Markov models with 6 states and 5 symbols, walks of 3 steps (thorough 9 and 7, 4 steps)'
OUTSIDE = 'longer walks; the generator itself (numpy RandomState is taken at its documented law)'


def law(t, P, s0, got, msg):
    """the walk uses the documented law: one draw per step with the row as distribution"""
    for i, (x, ps) in enumerate(t.laws):
        if ps is None or i + 1 >= len(got):
            continue
        row = P[got[i]]
        if x != got[i + 1]:
            continue
        for j in range(len(row)):
            t.close(ps[j], row[j], f'{msg}: probability of moving to {j} at step {i}')


def mc_walk(t, n, steps, max_succ=None, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
    else:
        P, mc, labels = chain(t, n, False, max_succ, False, lo=TINY, hi=HUGE)
    S = sp.supp(P)
    k = steps if n > 2 else t.pick(range(2, steps + 1))
    i0 = t.pick([0, n - 2]) if kinds else t.choose(n + 1)
    fin = t.pick([n, 1, n - 1]) if kinds else t.choose(n + 1)
    start = None if i0 == n else (i0 if (i0 + fin) % 2 else labels[i0])
    final = None if fin == n else (fin if i0 % 2 else labels[fin])
    got = mc.simulate(k, start, final, output_indices=True)
    got = list(got)
    t.same(all(isinstance(x, int) and 0 <= x < n for x in got), True, f'indices {got}')
    if i0 < n:
        t.same(got[0], i0, 'first state')
    for a, b in zip(got, got[1:]):
        t.same(b in S[a], True, f'transition {a}->{b} has positive probability')
    if fin == n:
        t.same(len(got), k + 1, 'length of the walk')
    else:
        t.same(fin in got[1:-1], False, f'walk {got} goes on after reaching {fin}')
        if len(got) < k + 1:
            t.same(got[-1], fin, 'the walk only stops early in the final state')
            t.same(len(got) >= 2, True, 'at least one step')
            t.cover('stopped')
        t.same(len(got) <= k + 1, True, 'length of the walk')
    if i0 < n:
        law(t, P, i0, got, 'simulate')
    t.rewind()
    t.same(mc.simulate(k, start, final), [labels[x] for x in got], 'labels and indices describe the same walk')
    t.cover('walk')


def mc_next(t, n):
    P, mc, labels = chain(t, n)
    S = sp.supp(P)
    i = t.choose(n)
    got = mc.next(i, output_index=True)
    t.same(got in S[i], True, f'move {i}->{got} has positive probability')
    law(t, P, i, [i, got], 'next')
    t.rewind()
    t.same(mc.next(labels[i]), labels[got], 'label of the move')


def ge(t, a, b):
    return t.boolean(a + t.const(0) >= b) if t.symbolic else a >= b


def predict(t, n, steps, free=False, max_succ=None, kinds=None):
    if kinds:
        P, mc, labels, kind = structured(t, n, kinds)
    else:
        P, mc, labels = chain(t, n, free, max_succ, n == 2, param='p')
    k = steps if kinds else t.pick(range(1, steps + 1))
    i = t.choose(n)
    got = mc.predict(k, i if k % 2 else labels[i], output_indices=True)
    cur, want = i, [i]
    for _ in range(k):
        row = P[cur] if t.symbolic else [float(x) for x in P[cur]]
        best = [j for j in range(n) if not sp.zero(row[j]) and all(ge(t, row[j], row[l]) for l in range(n) if l != j)]
        if len(best) != 1:
            want = None
            t.cover('ambiguous')
            break
        cur = best[0]
        want.append(cur)
    t.same(got, want, 'predicted walk')
    t.same(mc.predict(k, i), None if want is None else [labels[x] for x in want], 'labels')
    if want is not None:
        t.cover('unique')


SY = {2: ['y', 'x'], 3: ['z', 'x', 'y']}


def hmm_model(t, n, k, max_succ=None):
    labels, symbols = NAMES[n][-1], SY[k]
    P = t.stochastic(n, max_succ=max_succ)
    E = t.stochastic(n, k, 'E', max_succ=max_succ)
    return P, E, t.hmm(P, E, labels, symbols), labels, symbols


def hmm_walk(t, n, k, steps, max_succ=None, kinds=None):
    if kinds:
        P, E, m, labels, symbols, _, _ = structured_hmm(t, n, k, 1, kinds, seqs=1)
        i0, fin = n // 2, t.pick([(n // 2 + 1) % n, n // 2, n + (n // 2 + 1) % k, n + k, n + k + 1])
    else:
        P, E, m, labels, symbols = hmm_model(t, n, k, max_succ)
        i0 = t.choose(n + 1) if steps > 2 else t.pick([0, n])
        fin = t.choose(n + k + 2) if steps > 2 else t.pick([0, n, n + k, n + k + 1])
    S, Y = sp.supp(P), sp.supp(E)
    start = None if i0 == n else (i0 if (i0 + fin) % 2 else labels[i0])
    fs = fin if fin < n else None
    fy = fin - n if n <= fin < n + k else None
    if fin > n + k:
        # the walk ends at the one or at the other
        fs, fy = t.pick([(0, k - 1), (n - 1, 0)])
        t.cover('both')
    xs, ys = m.simulate(steps, start, None if fs is None else (fs if i0 % 2 else labels[fs]), None if fy is None else (fy if i0 % 2 else symbols[fy]), output_indices=True)
    t.same(len(xs), len(ys), 'as many states as symbols')
    t.same(all(0 <= x < n for x in xs) and all(0 <= y < k for y in ys), True, f'indices {xs} {ys}')
    if i0 < n:
        t.same(xs[0], i0, 'first state')
    for a, b in zip(xs, xs[1:]):
        t.same(b in S[a], True, f'transition {a}->{b} has positive probability')
    for a, y in zip(xs, ys):
        t.same(y in Y[a], True, f'emission of {y} in {a} has positive probability')
    stop = [j for j in range(1, len(xs)) if (fs is not None and xs[j] == fs) or (fy is not None and ys[j] == fy)]
    if len(xs) < steps + 1:
        t.same(stop, [len(xs) - 1], f'stops exactly at the first arrival ({xs} {ys})')
        t.cover('stopped')
    else:
        t.same(len(xs), steps + 1, 'length of the walk')
        t.same([j for j in stop if j < len(xs) - 1], [], f'walk {xs} {ys} goes on after the final state or symbol')
    t.rewind()
    r = m.simulate(steps, start, None if fs is None else fs, None if fy is None else fy)
    t.same([list(r[0]), list(r[1])], [[labels[x] for x in xs], [symbols[y] for y in ys]], 'labels and indices describe the same walk')
    t.cover('walk')


def hmm_next(t, n, k, max_succ=None):
    P, E, m, labels, symbols = hmm_model(t, n, k, max_succ)
    S, Y = sp.supp(P), sp.supp(E)
    i = t.choose(n)
    what = t.pick(['both', 'state', 'symbol'])
    got = m.next(i if what == 'both' else labels[i], what, output_index=True)
    if what == 'both':
        t.same(got[0] in S[i], True, f'move {i}->{got[0]}')
        t.same(got[1] in Y[got[0]], True, f'emission of {got[1]} in {got[0]}')
        # the outcome is the quantile of the draws used for it: the law of the model
        us = [x for kd, x in t.tape if kd == 'u']
        if t.symbolic and len(us) == 2:
            for row, j, u in ((P[i], got[0], us[0]), (E[got[0]], got[1], us[1])):
                lo = sp.total(row[:j])
                t.check(u >= t.const(0) + lo, 'outcome below its quantile')
                t.check(u < t.const(0) + lo + row[j], 'outcome above its quantile')
    elif what == 'state':
        t.same(got in S[i], True, f'move {i}->{got}')
    else:
        t.same(any(got in Y[j] for j in S[i]), True, f'emission of {got}')
    t.rewind()
    r = m.next(i, what)
    want = (labels[got[0]], symbols[got[1]]) if what == 'both' else (labels if what == 'state' else symbols)[got]
    t.same(r, want, 'labels')


KINDS = ('line', 'ring', 'star', 'lasso', 'blocks')

HARNESSES = [
    Harness('mc_walk', mc_walk, quick=[{'n': 7, 'steps': 20, 'kinds': ('lasso', 'cycle')}, {'n': 2, 'steps': 3}, {'n': 3, 'steps': 2, 'max_succ': 2}], thorough=[{'n': 9, 'steps': 40, 'kinds': ('lasso', 'cycle')}, {'n': 5, 'steps': 12, 'kinds': ('lasso', 'ring')}, {'n': 2, 'steps': 5}, {'n': 3, 'steps': 3}], must_cover=('walk', 'stopped')),
    Harness('mc_next', mc_next, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 2}, {'n': 3}]),
    Harness('predict', predict, quick=[{'n': 7, 'steps': 12, 'kinds': KINDS}, {'n': 2, 'steps': 3, 'free': True}, {'n': 3, 'steps': 2, 'max_succ': 2}], thorough=[{'n': 2, 'steps': 4, 'free': True}, {'n': 3, 'steps': 3}], must_cover=('ambiguous', 'unique')),
    Harness('hmm_walk', hmm_walk, quick=[{'n': 2, 'k': 2, 'steps': 2}, {'n': 3, 'k': 2, 'steps': 2, 'max_succ': 1}, {'n': 6, 'k': 5, 'steps': 3, 'kinds': ('tight', 'sole')}], thorough=[{'n': 6, 'k': 5, 'steps': 4, 'kinds': ('tight', 'stay', 'sole')}, {'n': 9, 'k': 7, 'steps': 4, 'kinds': ('tight', 'stay')}, {'n': 2, 'k': 2, 'steps': 3}, {'n': 2, 'k': 3, 'steps': 2}, {'n': 3, 'k': 2, 'steps': 2}], must_cover=('walk', 'stopped', 'both')),
    Harness('hmm_next', hmm_next, quick=[{'n': 2, 'k': 2}, {'n': 2, 'k': 3, 'max_succ': 1}], thorough=[{'n': 2, 'k': 3}, {'n': 3, 'k': 2}]),
]
