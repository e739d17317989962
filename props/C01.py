"""C01 Models accept exactly well-formed input"""
from fractions import Fraction

from engine.run import Harness
from props.common import NAMES

F = Fraction
BOUNDS = 'matrices with 2..3 (Markov chains) and 2x2, 2x3, 3x2 (hidden Markov models) entries, every real value of every entry in [-3,3] at once with the violated condition at any position, NaN and infinities at any position, shapes from 0 to 4 dimensions, labels from a pool that contains blank, repeated, non-string and padded names, callers with any of the names of the instance generators'
OUTSIDE = 'row sums whose distance from 1 lies between 1e-9 and 2e-5 (either side of the numerical tolerance); larger matrices'
NAN, INF = float('nan'), float('inf')
TIGHT, LOOSE = F(1, 10 ** 9), F(2, 10 ** 5)
SPECIAL = [NAN, INF, -INF]


def shaped(t, M, form):
    """the same numbers as an array or as a list of lists"""
    if form:
        return t.arr(M)
    return [[x if isinstance(x, float) else t.val(x) for x in r] for r in M]


def rows(t, n, m, name, lo=0, hi=1):
    return [[t.real(f'{name}{i}{j}', lo, hi) for j in range(m)] for i in range(n)]


def total(r):
    s = r[0]
    for x in r[1:]:
        s = s + x
    return s


def good(t, n, m, name):
    """every matrix with entries in [0,1] and rows that sum to 1 within 1e-9"""
    M = rows(t, n, m, name)
    e = TIGHT * F(9, 10)
    for r in M:
        s = total(r)
        t.assume(s <= 1 + e)
        t.assume(s >= 1 - e)
    return M


def spoiled(t, n, m, name):
    """every matrix that breaks a condition, with the broken condition at a chosen place"""
    c = t.choose(5)
    i = t.choose(n)
    if c < 3:
        j = t.choose(m)
    if c == 0:
        M = rows(t, n, m, name, -3, 3)
        M[i][j] = t.real('bad', -3, -F(1, 10 ** 12))
        what = f'entry ({i},{j}) below 0'
    elif c == 1:
        M = rows(t, n, m, name, -3, 3)
        M[i][j] = t.real('bad', 1 + F(1, 10 ** 12), 3)
        what = f'entry ({i},{j}) above 1'
    elif c == 2:
        M = good(t, n, m, name)
        M[i][j] = t.pick(SPECIAL)
        what = f'entry ({i},{j}) is {M[i][j]}'
    else:
        M = rows(t, n, m, name)
        s = total(M[i])
        t.assume(s >= 1 + LOOSE if c == 3 else s <= 1 - LOOSE)
        what = f'row {i} does not sum to 1'
    return M, what


def negative_compensated(t, n, m, name):
    """rows that sum to 1 (exactly, or well within the tolerance) but contain entries outside [0,1]"""
    M = good(t, n, m, name)
    i = t.choose(n)
    j = t.choose(m)
    c = t.choose(3)
    if c:
        x = t.real('bad', F(1, 10 ** 12), F(1, 10 ** 6))
        for q in range(m):
            M[i][q] = t.const(0)
        M[i][j] = t.const(1) + x if c == 1 else -x
        if c == 2:
            M[i][(j + 1) % m] = t.const(1)
        return M, f'row {i} sums to 1 but for less than 1e-6, with an entry ' + ('above 1' if c == 1 else 'below 0')
    x = t.real('bad', F(1, 10 ** 12), 2)
    k = (j + 1) % m
    M[i][j] = -x
    M[i][k] = t.const(1) + x
    for q in range(m):
        if q not in (j, k):
            M[i][q] = t.const(0)
    return M, f'row {i} sums to 1 with a negative entry'


def same(t, got, M, msg):
    t.same(tuple(got.shape), (len(M), len(M[0])), f'{msg}: shape')
    t.closem(got, M, msg, 1e-12)


def mc_accept(t, n):
    M = good(t, n, n, 'p')
    form = t.choose(2)
    names = NAMES[n][1] if form or (n == 2 and t.flag()) else None
    A = shaped(t, M, form)
    L = list(names) if names else None
    r = t.call(t.api.MarkovChain, A, *([L] if L else []))
    if r[0] != 'ok':
        t.fail(f'a valid matrix was rejected: {r[1]} {r[2]}')
    mc = r[1]
    same(t, mc.p, M, 'matrix')
    t.same(list(mc.states), names or [str(i) for i in range(1, n + 1)], 'states')
    t.same((mc.n, mc.size), (n, n), 'sizes')
    # later changes of the caller's data do not reach the model
    if form:
        A[0][0] = 7.0
    else:
        A[0][0] = 7.0
    if L:
        L[0] = 'changed'
    same(t, mc.p, M, 'the matrix after the caller changed its data')
    t.same(list(mc.states), names or [str(i) for i in range(1, n + 1)], 'states after the caller changed its data')
    t.cover('accepted')


def mc_reject(t, n, comp=False):
    M, what = (negative_compensated if comp else spoiled)(t, n, n, 'p')
    form = t.choose(2)
    t.rejects(t.api.MarkovChain, shaped(t, M, form), *([NAMES[n][1]] if form else []), msg=what)
    t.cover('rejected')


def hmm_accept(t, n, k, both=False):
    c = t.choose(2)
    P = good(t, n, n, 'p') if c or both else [[t.const(F(1, n))] * n for _ in range(n)]
    E = good(t, n, k, 'e') if not c or both else [[t.const(F(1, k))] * k for _ in range(n)]
    form = t.choose(2)
    names = [f's{n - i}' for i in range(n)] if form != c else None
    syms = [f'o{k - i}' for i in range(k)] if form else None
    kw = {}
    if names:
        kw['states'] = names
    if syms:
        kw['symbols'] = syms
    r = t.call(t.api.HiddenMarkovModel, shaped(t, P, form), shaped(t, E, 1 - form if n == 2 else form), **kw)
    if r[0] != 'ok':
        t.fail(f'a valid model was rejected: {r[1]} {r[2]}')
    h = r[1]
    same(t, h.p, P, 'transitions')
    same(t, h.e, E, 'emissions')
    t.same(list(h.states), names or [f'P{i}' for i in range(1, n + 1)], 'states')
    t.same(list(h.symbols), syms or [f'E{i}' for i in range(1, k + 1)], 'symbols')
    t.same((h.n, h.k, tuple(h.size)), (n, k, (n, k)), 'sizes')
    t.cover('accepted')


def hmm_reject(t, n, k, comp=False):
    which = t.choose(2)
    bad = negative_compensated if comp else spoiled
    if which:
        P, what = bad(t, n, n, 'p')
        E = [[t.const(F(1, k))] * k for _ in range(n)]
    else:
        P = [[t.const(F(1, n))] * n for _ in range(n)]
        E, what = bad(t, n, k, 'e')
    t.rejects(t.api.HiddenMarkovModel, t.arr(P), t.arr(E), msg=f'{"transitions" if which else "emissions"}: {what}')
    t.cover('rejected')


SHAPES = [(0, 0), (1, 1), (1, 2), (2, 1), (2, 3), (3, 2), (4, 2), (0, 2)]


def shapes(t):
    """only square matrices with at least two states; emissions need a row per state and two columns"""
    c = t.choose(4)
    u = lambda a, b: t.np.full((a, b), 1.0 / b if b else 0.0, dtype=float)
    if c == 0:
        a, b = t.pick(SHAPES)
        t.rejects(t.api.MarkovChain, u(a, b), msg=f'shape {a}x{b}')
    elif c == 1:
        a, b = t.pick(SHAPES)
        t.rejects(t.api.HiddenMarkovModel, u(a, b), u(a, 2), msg=f'transitions {a}x{b}')
    elif c == 2:
        a, b = t.pick([(0, 2), (1, 2), (2, 1), (3, 2), (2, 0), (4, 2)])
        t.rejects(t.api.HiddenMarkovModel, u(2, 2), u(a, b), msg=f'emissions {a}x{b}')
    else:
        x = t.pick([[0.5, 0.5], [[[0.5, 0.5], [0.5, 0.5]]], 1.0, None, 'ab', [['0.5', '0.5'], ['0.5', '0.5']], {}, (((0.5, 0.5)), (0.5, 0.5)),
                    [[True, False], [False, True]], [[1.0, 1j], [0.0, 1.0]], []])
        if t.flag():
            t.rejects(t.api.MarkovChain, x, msg=f'{x!r}')
        elif t.flag():
            t.rejects(t.api.HiddenMarkovModel, x, u(2, 2), msg=f'transitions {x!r}')
        else:
            t.rejects(t.api.HiddenMarkovModel, u(2, 2), x, msg=f'emissions {x!r}')
    t.cover('shape')


POOL = ['a', 'b', 'a', 'B', ' a', '', '  ', 3, None]


def valid_labels(xs, n):
    return isinstance(xs, list) and all(isinstance(x, str) and x.strip() for x in xs) and len(set(xs)) == len(xs) and len(xs) == n


def labels(t, n, k):
    """names are the right number of distinct non-blank strings"""
    P = [[t.const(F(1, n))] * n for _ in range(n)]
    xs = [t.pick(POOL) for _ in range(k)]
    kind = (sum(POOL.index(x) for x in xs) + k) % 5
    if kind == 4:
        xs = tuple(xs)
    ok = valid_labels(xs, n)
    r = t.call(t.api.MarkovChain, t.arr(P), xs)
    t.same(r[0] == 'ok', ok, f'labels {xs!r}')
    if ok:
        t.same(list(r[1].states), xs, 'labels')
        t.cover('ok')
    else:
        t.same(r[1], 'ValidationError', f'labels {xs!r}')
        t.cover('rejected')


def hmm_labels(t, n, k):
    P = t.arr([[t.const(F(1, n))] * n for _ in range(n)])
    E = t.arr([[t.const(F(1, k))] * k for _ in range(n)])
    xs = t.pick([['a', 'b'], ['a', 'a'], ['b', ''], ['P1', 'E2'], None, ['E1', 'x'], ['a', 'b', 'c'], ['c', 2]])
    ys = t.pick([['c', 'd'], ['b', 'c'], ['d', 'd'], ['d', ' '], None, ['P1', 'y'], ['c'], ['d', 'e', 'f']])
    xn = xs if xs is not None else ['P1', 'P2']
    yn = ys if ys is not None else ['E1', 'E2']
    ok = valid_labels(xn, n) and valid_labels(yn, k) and not set(xn) & set(yn)
    r = t.call(t.api.HiddenMarkovModel, P, E, xs, ys)
    t.same(r[0] == 'ok', ok, f'labels {xs!r} {ys!r}')
    if ok:
        t.same((list(r[1].states), list(r[1].symbols)), (xn, yn), 'labels')
        t.cover('ok')
    else:
        t.same(r[1], 'ValidationError', f'labels {xs!r} {ys!r}')
        t.cover('rejected')


CALLERS = ['random', 'identity', 'birth_death', 'from_matrix', 'from_dictionary', 'fit_sequence', 'to_lazy_chain', 'merge_with', 'restrict', 'estimate', 'fit', 'lump', '__init__', 'gamblers_ruin',
           'dirichlet_process', 'approximation', 'urn_model', 'population_genetics_model', 'from_file', 'from_graph', 'fit_function', 'to_subchain', 'to_canonical_form', 'to_nth_order', 'to_bounded_chain',
           'aggregate', 'closest_reversible', 'to_dictionary', 'main']
FILES = ['model.py', 'markov_chain.py', '/tmp/markov_chain.py', '/home/u/pydtmc/markov_chain.py', 'hidden_markov_model.py', '<stdin>', '/site-packages/pydtmc/generators.py']


def caller(t):
    """validation does not depend on the name or the file of the calling function"""
    name, file = t.pick(CALLERS), t.pick(FILES)
    src = f'def {name}(f, *a):\n    return f(*a)\n'
    if t.flag():
        src = f'class MarkovChain:\n    @staticmethod\n    def {name}(f, *a):\n        return f(*a)\n{name} = MarkovChain.{name}\n'
    ns = {}
    exec(compile(src, file, 'exec'), ns)
    x = t.real('x', F(11, 10), 3)
    M = t.arr([[t.const(1), t.const(0)], [t.const(0), x]])
    good = t.arr([[t.const(F(1, 2))] * 2] * 2)
    c = (CALLERS.index(name) + FILES.index(file)) % 3
    if c == 0:
        t.rejects(ns[name], t.api.MarkovChain, M, msg=f'called from {name} in {file}')
    elif c == 1:
        t.rejects(ns[name], t.api.HiddenMarkovModel, M, good, msg=f'called from {name} in {file}')
    else:
        t.rejects(ns[name], t.api.MarkovChain, good, ['a', 'a'], msg=f'called from {name} in {file}')
    t.cover('caller')


HARNESSES = [
    Harness('mc_accept', mc_accept, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 4}], must_cover=['accepted']),
    Harness('mc_reject', mc_reject, quick=[{'n': 2}, {'n': 2, 'comp': True}, {'n': 3, 'comp': True}], thorough=[{'n': 3}], must_cover=['rejected'], weight=2),
    Harness('hmm_accept', hmm_accept, quick=[{'n': 2, 'k': 2}, {'n': 2, 'k': 3}], thorough=[{'n': 3, 'k': 2}, {'n': 2, 'k': 2, 'both': True}], must_cover=['accepted']),
    Harness('hmm_reject', hmm_reject, quick=[{'n': 2, 'k': 2}, {'n': 2, 'k': 3, 'comp': True}], thorough=[{'n': 3, 'k': 2}, {'n': 2, 'k': 3}], must_cover=['rejected'], weight=2),
    Harness('shapes', shapes, quick=[{}], thorough=[{}], must_cover=['shape']),
    Harness('labels', labels, quick=[{'n': 2, 'k': 2}, {'n': 3, 'k': 3}, {'n': 2, 'k': 3}, {'n': 2, 'k': 1}], thorough=[{'n': 4, 'k': 4}], must_cover=['rejected']),
    Harness('hmm_labels', hmm_labels, quick=[{'n': 2, 'k': 2}], thorough=[{'n': 2, 'k': 3}], must_cover=['ok', 'rejected']),
    Harness('caller', caller, quick=[{}], thorough=[{}], must_cover=['caller']),
]
