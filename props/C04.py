"""C04 Random generation honours masks and zero counts"""
from fractions import Fraction

from engine import spec as sp
from engine.run import Harness

F = Fraction
BOUNDS = 'random chains: 2 states (every mask shape with null, positive and undefined entries, full, partial and overfull rows, every number of zeros, every outcome of the generator including null draws), 3 states (10 kinds of rows and their rotations, positive draws); hidden Markov models with 2 states and 2 or 3 symbols; every positive value of the mask; Dirichlet process with 2 and 3 states, every outcome of the draws; draws of numpy distributions with 2 and 3 states, every finite value of the draws in [-3,3], infinite and undefined draws and draws near the largest double; chains with 6 states and hidden Markov models with 5 states and 7 symbols (thorough up to 9) with three mask layouts (one symbolic entry each) and the numbers of zeros around the limit, where only the first two discrete outcomes of the generator are free and the uniform draws are symbolic'
OUTSIDE = 'larger sizes; mask rows whose sum is within 2e-5 below 1 without reaching it (treated as full by tolerance); the distribution of the generated values; in hidden Markov models requested zeros may fall on undefined entries of full mask rows'

NAN = float('nan')


def masks(t, rows, cols, kinds, name, last=None):
    """a mask: rows of undefined (None), null and positive entries; returns (mask rows, full flags)"""
    M, full = [], []
    for i in range(rows):
        kind = t.pick(last if last is not None and i == rows - 1 else kinds)
        rot, spec, isfull = kind
        r, s = [], t.const(0)
        k = 0
        npos = spec.count('v')
        for c in spec:
            if c == '.':
                r.append(None)
            elif c == '0':
                r.append(t.const(0))
            else:
                k += 1
                if isfull and k == npos:
                    x = 1 - s
                    if npos > 1:
                        t.assume(x >= F(1, 1000))
                else:
                    x = t.real(f'{name}{i}_{k}', F(1, 1000), F(999, 1000))
                s = s + x
                r.append(x)
        if not isfull and npos:
            t.assume(s <= 1 - F(1, 1000))
        r = r[rot:] + r[:rot]
        M.append(r)
        full.append(isfull)
    return M, full


def kinds2():
    out = []
    for a in '.0v':
        for b in '.0v':
            out.append((0, a + b, False))
            if 'v' in a + b:
                out.append((0, a + b, True))
    return out


def kinds3(rotations=(0,)):
    base = [('...', False), ('v..', False), ('.0.', False), ('v.v', False), ('v0.', False), ('v.v', True), ('v..', True), ('vvv', True), ('v0v', False), ('00.', False)]
    return [(r, s, f) for s, f in base for r in rotations]


def check(t, p, M, full, z, what, positive, strict=True):
    n, m = len(M), len(M[0])
    t.same(tuple(p.shape), (n, m), f'{what}: shape')
    nulls, und = 0, 0
    for i in range(n):
        s = t.const(0)
        for j in range(m):
            x = p[i][j]
            s = s + x
            t.check(x >= (0 if t.symbolic else -F(1, 10 ** 12)), f'{what}: entry ({i},{j}) non-negative')
            if M[i][j] is not None:
                t.close(x, M[i][j], f'{what}: the mask fixes entry ({i},{j})')
            elif full[i]:
                t.close(x, 0, f'{what}: row {i} is full, entry ({i},{j})')
                und += 1
            elif t.boolean(t.val(x) == 0):
                nulls += 1
        t.close(s, 1, f'{what}: row {i} sums to 1')
    if strict or not und:
        t.check(nulls >= z, f'{what}: {nulls} null entries, {z} requested')
        if positive:
            t.same(nulls, z, f'{what}: exact number of null entries')
    else:
        t.check(nulls + und >= z, f'{what}: {nulls}+{und} null entries, {z} requested')
        t.check(not positive or nulls <= z, f'{what}: {nulls} null entries, {z} requested')


def limits(M, full):
    """(largest number of zeros, masks with rows that cannot be completed)"""
    free = sum(1 for i, r in enumerate(M) for x in r if x is None and not full[i]) - sum(not f for f in full)
    return free, any(not full[i] and all(x is not None for x in r) for i, r in enumerate(M))


def arr(t, M):
    return t.arr([[NAN if x is None else x for x in r] for r in M])


def random_chain(t, n, kinds, positive, none=True, last=None, cap=False):
    kinds = kinds2() if kinds == 2 else kinds3(tuple(range(kinds - 9)))
    if last is not None:
        last = kinds3()[:last]
    M, full = masks(t, n, n, kinds, 'm', last)
    top, broken = limits(M, full)
    # all counts up to 2, the largest possible one and the first impossible one
    z = t.pick(sorted({c for c in (0, 1, 2, top, top + 1) if c >= 0 and (c <= 2 or c > top or (cap and c < 5))}))
    plain = all(x is None for r in M for x in r)
    names = [f's{n - i}' for i in range(n)] if z % 2 else None
    kw = {}
    if not (plain and none and z % 2):
        kw['mask'] = arr(t, M)
    if z or not plain:
        kw['zeros'] = z
    if names:
        kw['states'] = names
    if z == 1:
        kw['seed'] = 7
    if positive:
        t.u_lo = F(1, 10 ** 6)
    r = t.call(t.api.MarkovChain.random, n, **kw)
    real_top = limits(M, full)[0]
    if broken or z > real_top:
        t.same(r[0] != 'ok' and r[1], 'ValidationError', f'mask {[["." if x is None else "0" if t.boolean(t.val(x) == 0) else "v" for x in q] for q in M]} with {z} zeros must be rejected')
        t.cover('rejected')
        return
    if r[0] != 'ok':
        t.fail(f'random raised {r[1]}: {r[2]}')
    mc = r[1]
    t.same(list(mc.states), names or [str(i) for i in range(1, n + 1)], 'labels')
    pos = positive or all(t.boolean(t.val(x) > 0) for x in uniforms(t))
    check(t, mc.p, M, full, z, 'random', pos)
    t.cover('zeros' if z else 'plain')


def uniforms(t):
    return [x for k, x in t.tape if k == 'u' or (isinstance(k, tuple) and k[0] == 'u')]


def overfull(t, n):
    """masks with a row above one, out of range entries or the wrong shape are rejected"""
    M = [[None] * n for _ in range(n)]
    i = t.choose(n)
    c = t.choose(5)
    e = F(1, 1000)
    hmm = t.flag()
    if c == 0:
        a, b = t.real('a', 0, 1), t.real('b', 0, 1)
        t.assume(a + b >= 1 + e)
        M[i][0], M[i][n - 1] = a, b
    elif c == 1:
        M[i][0] = t.real('a', -10, -e)
    elif c == 2:
        M[i][n - 1] = t.real('a', 1 + e, 10)
    elif c == 3:
        M = M + [M[0]] if i else [r + [None] for r in M]
    kw = {}
    z = 0
    if c == 4:
        z = t.integer('z', -5, -1)
    if hmm:
        which = 'p' if i else 'e'
        t.rejects(t.api.HiddenMarkovModel.random, n, n, msg=f'case {c}', **{f'{which}_mask': arr(t, M), f'{which}_zeros': z})
    else:
        t.rejects(t.api.MarkovChain.random, n, msg=f'case {c}', mask=arr(t, M), zeros=z)
    t.cover('bad')


def random_hmm(t, n, k, pk, ek, positive=True):
    P2, E2 = kinds2(), (kinds2() if k == 2 else kinds3())
    free = lambda c: [(0, '.' * c, False)]
    Mp, fp = masks(t, n, n, P2 if pk else free(n), 'p')
    Me, fe = masks(t, n, k, E2 if ek else free(k), 'e', E2[:3] if ek == 2 else None)
    tp, bp = limits(Mp, fp)
    te, be = limits(Me, fe)
    zp = t.choose(max(tp, 0) + 2) if pk or not ek else 1
    ze = t.choose(max(te, 0) + 2) if ek else min(1, te)
    if positive:
        t.u_lo = F(1, 10 ** 6)
    kw = {}
    if pk:
        kw['p_mask'] = arr(t, Mp)
    if ek:
        kw['e_mask'] = arr(t, Me)
    names = [f's{i}' for i in range(n)] if zp % 2 else None
    syms = [f'o{i}' for i in range(k)] if ze % 2 else None
    if names:
        kw['states'] = names
    if syms:
        kw['symbols'] = syms
    r = t.call(t.api.HiddenMarkovModel.random, n, k, p_zeros=zp, e_zeros=ze, **kw)
    if bp or be or zp > tp or ze > te:
        t.same(r[0] != 'ok' and r[1], 'ValidationError', f'masks with {zp}, {ze} zeros must be rejected')
        t.cover('rejected')
        return
    if r[0] != 'ok':
        t.fail(f'random raised {r[1]}: {r[2]}')
    h = r[1]
    t.same(list(h.states), names or [f'P{i}' for i in range(1, n + 1)], 'states')
    t.same(list(h.symbols), syms or [f'E{i}' for i in range(1, k + 1)], 'symbols')
    pos = positive or all(t.boolean(t.val(x) > 0) for x in uniforms(t))
    check(t, h.p, Mp, fp, zp, 'transitions', pos, False)
    check(t, h.e, Me, fe, ze, 'emissions', pos, False)
    t.cover('hmm')


def shapes(t, n, m, q, name):
    """masks with more columns: undefined, nearly fixed and full rows; (rows, full flags)"""
    if q == 0:
        return [[None] * m for _ in range(n)], [False] * n
    x = t.real(name, F(1, 10 ** 6), F(999, 1000))
    M, full = [], []
    for i in range(n):
        c = (i + q) % 4
        r = [None] * m
        if c == 1:
            r[i % m], r[(i + 2) % m] = x / 2, t.const(F(1, 4))
        elif c == 2:
            r[(i + 1) % m], r[(i + 3) % m] = x, 1 - x
        elif c == 3:
            r = [t.const(0) if (i + j) % 3 else None for j in range(m)]
        M.append(r)
        full.append(c == 2)
    return M, full


def large(t, n, k=0, few=2):
    """more states and symbols; the discrete outcomes of the generator but the first few are fixed"""
    t.few, t.u_lo = few, F(1, 10 ** 6)
    q = t.choose(3)
    M, full = shapes(t, n, n, q, 'x')
    top = limits(M, full)[0]
    z = t.pick([0, n, top - n, top - 1, top, top + 1])
    if k:
        E, fe = shapes(t, n, k, (q + 1) % 3, 'y')
        te = limits(E, fe)[0]
        ze = t.pick([te // 2, te, te + 1])
        r = t.call(t.api.HiddenMarkovModel.random, n, k, p_zeros=z, p_mask=arr(t, M), e_zeros=ze, e_mask=arr(t, E))
    else:
        te = ze = 0
        r = t.call(t.api.MarkovChain.random, n, zeros=z, **({'mask': arr(t, M)} if q else {}))
    if z > top or ze > te:
        t.same(r[0] != 'ok' and r[1], 'ValidationError', f'{z}, {ze} zeros of at most {top}, {te} must be rejected')
        t.cover('rejected')
        return
    if r[0] != 'ok':
        t.fail(f'random raised {r[1]}: {r[2]}')
    if k:
        check(t, r[1].p, M, full, z, 'transitions', True, False)
        check(t, r[1].e, E, fe, ze, 'emissions', True, False)
    else:
        check(t, r[1].p, M, full, z, 'random', True)
    t.cover('zeros' if z else 'plain')


def clash(t):
    """state names and symbol names must differ"""
    c = t.choose(3)
    kw = [{'states': ['a', 'b'], 'symbols': ['b', 'c']}, {'states': ['E1', 'b']}, {'symbols': ['x', 'P2']}][c]
    t.rejects(t.api.HiddenMarkovModel.random, 2, 2, msg='clashing names', **kw)
    t.cover('clash')


def dirichlet(t, n, bias):
    shift = t.flag()
    d = t.pick(range(1, n + 1))
    names = [f's{n - i}' for i in range(n)] if shift else None
    kw = {'states': names} if names else {}
    if bias:
        kw['diagonal_bias_factor'] = t.val(t.real('b', F(1, 100), 100))
    mc = t.api.MarkovChain.dirichlet_process(n, d, shift_concentration=shift, **kw)
    t.same(list(mc.states), names or [str(i) for i in range(1, n + 1)], 'labels')
    p = mc.p
    t.same(tuple(p.shape), (n, n), 'shape')
    for i in range(n):
        s = t.const(0)
        for j in range(n):
            s = s + p[i][j]
            t.check(p[i][j] >= 0, f'entry ({i},{j}) non-negative')
        t.close(s, 1, f'row {i} sums to 1')
        if bias:
            t.check(p[i][i] > 0, 'the bias reaches the diagonal')
    if not bias:
        t.rewind()
        q = t.api.MarkovChain.dirichlet_process(n, d, shift_concentration=not shift).p
        t.closem(q, [[p[i][n - 1 - j] for j in range(n)] for i in range(n)], 'shifting the concentration mirrors the rows')
    t.cover('shifted' if shift else 'plain')


def bad_dirichlet(t):
    M = t.api.MarkovChain.dirichlet_process
    c = t.choose(5)
    if c == 0:
        t.rejects(M, t.integer('n', -3, 1), 1, msg='size')
    elif c == 1:
        t.rejects(M, 3, t.integer('d', -3, 0), msg='diffusion factor too small')
    elif c == 2:
        t.rejects(M, 3, t.integer('d', 4, 9), msg='diffusion factor too large')
    elif c == 3:
        t.rejects(M, 3, 2, None, t.val(t.real('b', -10, 0)), msg='bias factor')
    else:
        t.rejects(M, 3, 2, None, None, 1, msg='shift')
    t.cover('bad')


DRAWS = ['xx', 'ix', 'nm', 'ni', 'xn', 'mx', 'hh', 'ii', 'mn', 'nn', 'hx']
DRAWS3 = ['nnx', 'xxx', 'mxm', 'ixi', 'hhx', 'nxm', 'iii', 'mnm', 'xhx']


def distribution(t, n, kinds, first=None):
    """draws of any numpy distribution: finite values of either sign, infinities, undefined values, values next to the largest double"""
    D, W = [], []
    inf = float('inf')
    for i in range(n):
        kind = t.pick(kinds if i == 0 else kinds[-2:]) if i < 2 else 'x' + 'h' * (n - 1)
        d, w = [], []
        for j, c in enumerate(kind):
            if c == 'x':
                x = t.real(f'x{i}{j}', -3, 3)
                d.append(x)
                w.append(x if t.boolean(x > 0) else t.const(0))
            else:
                # infinite draws stand for some finite number that dwarfs the ordinary ones
                d.append({'i': inf, 'm': -inf, 'n': NAN, 'h': t.const(F(15 * 10 ** 307))}[c])
                w.append(t.const(F(15 * 10 ** 307)) if c in 'ih' else t.const(0))
        D.append(d)
        W.append(w)
    t.outcomes = D
    f = ['pareto', 'normal', 'logistic'][sum(map(sp.zero, W[0] + W[1])) % 3]
    kw = {'pareto': {'a': 0.5}, 'normal': {'loc': 1.0}, 'logistic': {}}[f]
    names = [f's{n - i}' for i in range(n)] if f == 'normal' else None
    if names:
        kw['states'] = names
    mc = t.api.MarkovChain.random_distribution(n, f, seed=1 if f == 'pareto' else None, **kw)
    t.same(list(mc.states), names or [str(i + 1) for i in range(n)], 'labels')
    p = mc.p
    t.same(tuple(p.shape), (n, n), 'shape')
    for i in range(n):
        s = sp.total(W[i])
        want = [x / s for x in W[i]] if t.boolean(s > 0) else [t.const(1) / n] * n
        t.closem(list(p[i]), want, f'draws of row {i}, normalised', 1e-9)
    t.cover('distribution')


def bad_distribution(t):
    M = t.api.MarkovChain.random_distribution
    c = t.choose(4)
    t.outcomes = [[t.const(1)] * 3] * 3
    if c == 0:
        t.rejects(M, t.integer('n', -3, 1), 'normal', msg='size')
    elif c == 1:
        t.rejects(M, 3, t.pick(['nonsense', None, 5, '', max, ['normal'], lambda size: 1.0]), msg='no numpy distribution')
    elif c == 2:
        t.rejects(M, 3, 'normal', t.pick([['a', 'b'], ['a', 'a', 'b'], 'abc', ['', 'a', 'b'], [1, 2, 3]]), msg='labels')
    else:
        t.rejects(M, 3, 'normal', None, t.pick([-1.5, 'x', [1]]), msg='seed')
    t.cover('bad')


HARNESSES = [
    Harness('random', random_chain, quick=[{'n': 2, 'kinds': 2, 'positive': False, 'cap': True}, {'n': 3, 'kinds': 10, 'positive': True, 'last': 1}],
            thorough=[{'n': 3, 'kinds': 10, 'positive': True, 'cap': True}, {'n': 3, 'kinds': 12, 'positive': True, 'last': 2}, {'n': 3, 'kinds': 10, 'positive': False, 'last': 1}], must_cover=['rejected', 'zeros', 'plain'], weight=3),
    Harness('large', large, quick=[{'n': 6}, {'n': 5, 'k': 7}], thorough=[{'n': 6, 'few': 4}, {'n': 9}, {'n': 5, 'k': 7, 'few': 3}, {'n': 7, 'k': 4}, {'n': 3, 'k': 9}], must_cover=['rejected', 'zeros', 'plain']),
    Harness('overfull', overfull, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 4}], must_cover=['bad']),
    Harness('hmm', random_hmm, quick=[{'n': 2, 'k': 2, 'pk': 1, 'ek': 0}, {'n': 2, 'k': 2, 'pk': 0, 'ek': 1}, {'n': 2, 'k': 3, 'pk': 0, 'ek': 2}],
            thorough=[{'n': 2, 'k': 2, 'pk': 1, 'ek': 1}, {'n': 2, 'k': 3, 'pk': 0, 'ek': 1}, {'n': 2, 'k': 2, 'pk': 1, 'ek': 0, 'positive': False}], must_cover=['rejected', 'hmm'], weight=2),
    Harness('clash', clash, quick=[{}], thorough=[{}], must_cover=['clash']),
    Harness('dirichlet', dirichlet, quick=[{'n': 2, 'bias': 0}, {'n': 2, 'bias': 1}, {'n': 3, 'bias': 0}], thorough=[{'n': 3, 'bias': 1}, {'n': 4, 'bias': 0}], must_cover=['shifted', 'plain']),
    Harness('distribution', distribution, quick=[{'n': 2, 'kinds': DRAWS}, {'n': 3, 'kinds': DRAWS3}], thorough=[{'n': 4, 'kinds': ['xxxx', 'ixii', 'hhxh', 'nxmx']}], must_cover=['distribution']),
    Harness('bad_distribution', bad_distribution, quick=[{}], thorough=[{}], must_cover=['bad']),
    Harness('bad_dirichlet', bad_dirichlet, quick=[{}], thorough=[{}], must_cover=['bad']),
]
