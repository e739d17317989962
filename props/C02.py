"""C02 Parametric generators return the documented stochastic matrix"""
import math
from fractions import Fraction

from engine.run import Harness

F = Fraction
BOUNDS = 'gambler\'s ruin: 3..6 states, every w; birth-death: 2..4 states, every vector of creation and annihilation probabilities (entries zero or at least 1e-7); urn models: 1..4 elements; Moran: 2..5 individuals, Wright-Fisher: 2..4 individuals, every selection intensity in the documented range (up to 20 for Wright-Fisher) and all mutation rates; Rouwenhorst: 2..5 states, every rho in [-1,1]; Tauchen: 2..4 states, every rho with |rho| <= 0.9999, sigma in [0.01, 100], alpha and k; tiny but positive probabilities to relative accuracy (ruin with 12, urns with 20, Wright-Fisher and Rouwenhorst with 8 elements)'
OUTSIDE = 'other sizes; the Adda-Cooper and Tauchen-Hussey quadratures (only validity of the matrix at the ends of the rho range and inadmissible parameters; see C31); the normal distribution function itself (taken from scipy)'


def result(t, mc, M, names, msg, tag=None, alt=None, signs=True):
    n = len(M)
    P = mc.p
    t.same(tuple(P.shape), (n, n), f'{msg}: shape')
    t.same(mc.size, n, f'{msg}: size')
    t.same(list(mc.states), names if names else [str(i) for i in range(1, n + 1)], f'{msg}: labels')
    for i in range(n):
        if alt is not None:
            for j in range(n):
                t.close_known(P[i][j], M[i][j], alt[i][j], tag, f'{msg}: entry ({i},{j})')
        else:
            t.closem([P[i]], [M[i]], f'{msg}: row {i}')
        s = t.const(0)
        for j in range(n):
            s = s + P[i][j]
            if signs:
                t.check(P[i][j] >= (0 if t.symbolic else -F(1, 10 ** 12)), f'{msg}: entry ({i},{j}) non-negative')
        t.close(s, 1, f'{msg}: row {i} sums to 1')
    return P


def names_for(t, n):
    """default labels or given ones (not in alphabetical order)"""
    return [chr(97 + n - 1 - i) for i in range(n)] if t.flag() else None


def ruin(t, n):
    nm = names_for(t, n)
    w = t.real('w', F(1, 10 ** 7), 1 - F(1, 10 ** 7))
    mc = t.api.MarkovChain.gamblers_ruin(n, t.val(w), *([nm] if nm else []))
    M = [[t.const(0)] * n for _ in range(n)]
    M[0][0] = M[n - 1][n - 1] = t.const(1)
    for i in range(1, n - 1):
        M[i] = [t.const(0)] * n
        M[i][i + 1] = w
        M[i][i - 1] = 1 - w
    result(t, mc, M, nm, 'gamblers_ruin')
    t.cover('ruin')


def identity(t, n):
    nm = names_for(t, n)
    mc = t.api.MarkovChain.identity(n, *([nm] if nm else []))
    result(t, mc, [[t.const(1 if i == j else 0) for j in range(n)] for i in range(n)], nm, 'identity')
    t.cover('identity')


def birth(t, n):
    nm = names_for(t, n)
    lo = F(1, 10 ** 7)
    p, q = [], []
    for i in range(n):
        zp = i == n - 1 or t.flag()
        zq = i == 0 or t.flag()
        full = not (zp and zq) and t.flag()
        a = t.const(0) if zp else (t.const(1) if zq and full else t.real(f'p{i}', lo, 1 - lo))
        b = t.const(0) if zq else (1 - a if full else t.real(f'q{i}', lo, 1 - lo))
        if not full:
            t.assume(1 - a - b >= lo)
        p.append(a)
        q.append(b)
    mc = t.api.MarkovChain.birth_death(t.arr(p), t.arr(q), *([nm] if nm else []))
    M = []
    for i in range(n):
        r = [t.const(0)] * n
        r[i] = 1 - p[i] - q[i]
        if i + 1 < n:
            r[i + 1] = p[i]
        if i:
            r[i - 1] = q[i]
        M.append(r)
    result(t, mc, M, nm, 'birth_death')
    t.cover('birth')


def urn(t, n):
    nm = names_for(t, 2 * n + 1)
    model = t.pick(['ehrenfest', 'bernoulli-laplace'])
    mc = t.api.MarkovChain.urn_model(model, n, *([nm] if nm else []))
    d = 2 * n
    M = []
    for i in range(d + 1):
        r = [t.const(0)] * (d + 1)
        x = F(i, d)
        if model == 'ehrenfest':
            # a ball is drawn uniformly among all 2n and moved to the other urn
            if i:
                r[i - 1] = t.const(x)
            if i < d:
                r[i + 1] = t.const(1 - x)
        else:
            # a swap of two balls, each drawn uniformly
            if i:
                r[i - 1] = t.const(x * x)
            if i < d:
                r[i + 1] = t.const((1 - x) * (1 - x))
            r[i] = t.const(2 * x * (1 - x))
        M.append(r)
    result(t, mc, M, nm, model)
    t.cover(model)


def moran(t, n):
    nm = names_for(t, n + 1)
    s = t.const(1) if t.flag() else t.real('s', -1, 1)
    u = t.real('u', 0, 1)
    v = t.real('v', 0, 1)
    mc = t.api.MarkovChain.population_genetics_model('moran', n, t.val(s), t.val(u), t.val(v), *([nm] if nm else []))
    M, A = [], []
    for i in range(n + 1):
        row, alt = [t.const(0)] * (n + 1), [t.const(0)] * (n + 1)
        if i in (0, n):
            row[i] = alt[i] = t.const(1)
        else:
            w = (1 - s) * i
            tot = w + (n - i)
            # the replaced individual is drawn uniformly, the parent by fitness, the child mutates with rate u (A to B) or v (B to A)
            childA = (w * (1 - u) + (n - i) * v) / tot
            up = t.const(F(n - i, n)) * childA
            for r, down in ((row, t.const(F(i, n)) * (w * u + (n - i) * (1 - v)) / tot),
                            (alt, t.const(F(i, n)) * (w * v + (n - i) * (1 - v)) / tot)):
                r[i + 1] = up
                r[i - 1] = down
                r[i] = 1 - up - down
        M.append(row)
        A.append(alt)
    result(t, mc, M, nm, 'moran', 'moran-mutation', A)
    t.cover('moran')


def wright(t, n):
    nm = names_for(t, n + 1)
    s = t.const(-1) if t.flag() else t.real('s', -F(999, 1000), 20)
    m = F(1, 4 * n)
    u = t.real('u', 0, m)
    v = t.real('v', 0, m)
    mc = t.api.MarkovChain.population_genetics_model('wright-fisher', n, t.val(s), t.val(u), t.val(v), *([nm] if nm else []))
    M = []
    for i in range(n + 1):
        row = [t.const(0)] * (n + 1)
        if i in (0, n):
            row[i] = t.const(1)
        else:
            k = t.const(F(i, n))
            a = k * (1 - u) + (1 - k) * v
            x = a * (1 + s) / (a * (1 + s) + 1 - a)
            for j in range(n + 1):
                r = t.const(math.comb(n, j))
                for _ in range(j):
                    r = r * x
                for _ in range(n - j):
                    r = r * (1 - x)
                row[j] = r
        M.append(row)
    result(t, mc, M, nm, 'wright-fisher', signs=False)
    t.cover('wright')


def rare(t, n, model):
    """transitions of very small probability in larger models, compared with their own size"""
    G = t.api.MarkovChain
    if model == 'wright-fisher':
        u = t.real('u', F(1, 10 ** 9), F(1, 100 * n))
        s = t.pick([F(0), F(-1, 2), F(7)])
        mc = G.population_genetics_model(model, n, t.val(t.const(s)), t.val(t.const(F(1, 10 ** 6))), t.val(u))
        M = []
        for i in range(n + 1):
            a = t.const(F(i, n)) * (1 - F(1, 10 ** 6)) + (1 - F(i, n)) * u
            x = a * (1 + s) / (a * (1 + s) + 1 - a)
            M.append(powers(t, x, n) if 0 < i < n else [t.const(int(j == i)) for j in range(n + 1)])
    elif model == 'rouwenhorst':
        d = t.real('d', F(1, 10 ** 6), F(1, 1000))
        rho = 1 - d if t.flag() else d - 1
        mc = G.approximation(n, model, t.val(t.const(0)), t.val(t.const(1)), t.val(rho))
        z, m = (1 + rho) / 2, n - 1
        M = []
        for i in range(n):
            a, b = powers(t, z, i), powers(t, 1 - z, m - i)
            row = [t.const(0)] * n
            for x in range(i + 1):
                for y in range(m - i + 1):
                    row[x + y] = row[x + y] + a[x] * b[y]
            M.append(row)
    elif model == 'ruin':
        w = t.real('w', F(1, 10 ** 12), F(1, 1000))
        w = w if t.flag() else 1 - w
        mc = G.gamblers_ruin(n, t.val(w))
        M = [[(w if j == i + 1 else 1 - w if j == i - 1 else t.const(0)) if 0 < i < n - 1 else t.const(int(i == j)) for j in range(n)] for i in range(n)]
    else:
        mc = G.urn_model(model, n)
        d = 2 * n
        M = [[t.const(0)] * (d + 1) for _ in range(d + 1)]
        for i in range(d + 1):
            x = F(i, d)
            e = 1 if model == 'ehrenfest' else 2
            if i:
                M[i][i - 1] = t.const(x ** e)
            if i < d:
                M[i][i + 1] = t.const((1 - x) ** e)
            if e == 2:
                M[i][i] = t.const(2 * x * (1 - x))
    P = mc.p
    t.same(tuple(P.shape), (len(M), len(M)), 'shape')
    for i in range(len(M)):
        for j in range(len(M)):
            if t.boolean(M[i][j] == 0):
                t.same(bool(P[i][j] == 0), True, f'{model}: impossible transition ({i},{j})')
            else:
                t.close(P[i][j] / M[i][j], 1, f'{model}: entry ({i},{j}) in relation to its size')
    t.cover('rare')


def powers(t, x, n):
    out = []
    for j in range(n + 1):
        r = t.const(math.comb(n, j))
        for _ in range(j):
            r = r * x
        for _ in range(n - j):
            r = r * (1 - x)
        out.append(r)
    return out


def defaults(t, n):
    """the mutation rates default to 1e-9 and there is no selection by default"""
    model = t.pick(['moran', 'wright-fisher'])
    nm = names_for(t, n + 1)
    x = F(1e-9)
    kw = {'states': nm} if nm else {}
    a = t.api.MarkovChain.population_genetics_model(model, n, **kw)
    b = t.api.MarkovChain.population_genetics_model(model, n, t.val(t.const(0)), t.val(t.const(x)), t.val(t.const(x)), **kw)
    result(t, a, [list(r) for r in b.p], nm, 'defaults')
    t.cover('defaults')


def rouwenhorst(t, n):
    nm = names_for(t, n)
    rho = t.real('rho', -1, 1)
    al = t.real('alpha', -10, 10)
    sg = t.real('sigma', F(1, 100), 100)
    mc = t.api.MarkovChain.approximation(n, 'rouwenhorst', t.val(al), t.val(sg), t.val(rho), *([nm] if nm else []))
    z = (1 + rho) / 2
    m = n - 1

    def binom(k, p):
        out = []
        for j in range(k + 1):
            r = t.const(math.comb(k, j))
            for _ in range(j):
                r = r * p
            for _ in range(k - j):
                r = r * (1 - p)
            out.append(r)
        return out
    M = []
    for i in range(n):
        # i of the m independent two-state components are up; each keeps its state with probability z
        a, b = binom(i, z), binom(m - i, 1 - z)
        row = [t.const(0)] * n
        for x in range(i + 1):
            for y in range(m - i + 1):
                row[x + y] = row[x + y] + a[x] * b[y]
        M.append(row)
    result(t, mc, M, nm, 'rouwenhorst')
    t.cover('rouwenhorst')


def ncdf(t, x):
    return t.opaque('ncdf', x)


def tauchen(t, n, k='3'):
    nm = names_for(t, n)
    # many states: the cells depend on rho and on the ratio of the grid to sigma alone
    rho = t.const(t.pick([F(3, 5), -F(7, 25), F(4, 5)])) if n > 6 else t.real('rho', -F(9999, 10000), F(9999, 10000))
    al = t.real('alpha', -10, 10)
    sg = t.const(t.pick([F(2, 5), F(3, 100)])) if n > 6 else t.real('sigma', F(1, 100), 100)
    kk = t.const(3) if k == '3' else t.real('k', 1, 10)
    kw = {} if k == '3' else {'k': t.val(kk)}
    if nm:
        kw['states'] = nm
    mc = t.api.MarkovChain.approximation(n, 'tauchen', t.val(al), t.val(sg), t.val(rho), **kw)
    ys = t.sqrt_(sg * sg / (1 - rho * rho))
    top = ys * kk
    x = [-top + top * F(2 * i, n - 1) for i in range(n)]
    half = top / (n - 1)
    M = []
    for i in range(n):
        # cumulative probabilities of the cells around the grid points
        c = [ncdf(t, (x[j] - rho * x[i] + half) / sg) for j in range(n - 1)]
        M.append([c[0]] + [c[j] - c[j - 1] for j in range(1, n - 1)] + [1 - c[n - 2]])
    P = mc.p
    t.same(list(mc.states), nm if nm else [str(i) for i in range(1, n + 1)], 'tauchen: labels')
    for i in range(n):
        s = t.const(0)
        for j in range(n):
            t.close(P[i][j], M[i][j], f'tauchen: entry ({i},{j})')
            s = s + P[i][j]
        t.close(s, 1, f'tauchen: row {i} sums to 1')
    t.cover('tauchen')


def hussey(t, n):
    """at the ends of the rho range the quadrature is degenerate: an error, or a valid matrix"""
    rho = t.pick([-1.0, 1.0, 0.5, -0.5, 0.0])
    mc = t.call(t.api.MarkovChain.approximation, n, 'tauchen-hussey', 0.0, 1.0, rho)
    if mc[0] != 'ok':
        t.same(mc[1], 'ValueError', f'tauchen-hussey at rho={rho}: {mc[2]}')
        t.same(abs(rho), 1.0, 'only degenerate parameters fail')
        t.cover('rejected')
        return
    P = mc[1].p
    for i in range(n):
        for j in range(n):
            x = P[i][j]
            t.same(bool(t.np.isfinite(x)), True, f'tauchen-hussey at rho={rho}: entry ({i},{j}) finite')
            t.check(x >= 0, 'non-negative')
        t.close(sum(P[i][j] for j in range(n)), 1, 'row sum')
    t.cover('hussey')


def bad_ruin(t):
    M = t.api.MarkovChain
    c = t.choose(6)
    if c == 0:
        w = t.real('w', -100, 0)
        t.rejects(M.gamblers_ruin, 3, t.val(w), msg='w <= 0')
    elif c == 1:
        w = t.real('w', 1, 100)
        t.rejects(M.gamblers_ruin, 4, t.val(w), msg='w >= 1')
    elif c == 2:
        w = t.real('w', F(1, 10), F(9, 10))
        n = t.integer('n', -3, 2)
        t.rejects(M.gamblers_ruin, n, t.val(w), msg='size below 3')
    elif c == 3:
        t.rejects(M.gamblers_ruin, 3, t.pick([float('nan'), float('inf'), -float('inf')]), msg='w not finite')
    elif c == 4:
        n = t.integer('n', -3, 1)
        t.rejects(M.identity, n, msg='size below 2')
    else:
        n = t.integer('n', -3, 0)
        t.rejects(M.urn_model, t.pick(['ehrenfest', 'bernoulli-laplace']), n, msg='no elements')
    t.cover('bad')


def bad_birth(t, n):
    M = t.api.MarkovChain
    c = t.choose(6)
    e = F(1, 10 ** 6)
    ps = [t.real(f'p{i}', 0, F(2, 5)) for i in range(n - 1)] + [t.const(0)]
    qs = [t.const(0)] + [t.real(f'q{i}', 0, F(2, 5)) for i in range(1, n)]
    i = t.choose(n)
    if c == 0:
        ps[n - 1] = t.real('x', e, 1)
        qs[n - 1] = t.const(0)
        what = 'creation in the last state'
    elif c == 1:
        qs[0] = t.real('x', e, 1)
        ps[0] = t.const(0)
        what = 'annihilation in the first state'
    elif c == 2:
        ps[i] = t.real('x', -10, -e)
        what = 'negative probability'
    elif c == 3:
        qs[i] = t.real('x', 1 + e, 10)
        what = 'probability above one'
    elif c == 4:
        if i in (0, n - 1):
            t.infeasible()
        x = t.real('x', 0, 1)
        y = t.real('y', 0, 1)
        t.assume(x + y >= 1 + e)
        ps[i], qs[i] = x, y
        what = 'sum above one'
    else:
        if i == 0:
            qs = qs + [t.const(0)]
        elif i == 1:
            ps = [ps[0]] + ps
        else:
            qs[i] = float('nan')
        what = 'lengths differ or entry undefined'
    t.rejects(M.birth_death, t.arr(ps), t.arr(qs), msg=what)
    t.cover('bad')


def bad_genetics(t, n):
    M = t.api.MarkovChain
    c = t.choose(8)
    e = F(1, 10 ** 6)
    model = t.pick(['moran', 'wright-fisher'])
    s = t.real('s', -1, 1)
    u = t.real('u', 0, F(1, 4 * n) - e)
    v = t.real('v', 0, F(1, 4 * n) - e)
    if c == 0:
        s = t.real('x', -50, -1 - e)
    elif c == 1:
        u = t.real('x', -10, -e)
    elif c == 2:
        u = t.real('x', 1 + e, 10)
    elif c == 3:
        v = t.real('x', -10, -e)
    elif c == 4:
        v = t.real('x', 1 + e, 10)
    elif c == 5:
        if model == 'moran':
            s = t.real('x', 1 + e, 10)
        else:
            u = t.real('x', F(1, 4 * n) + e, 1)
    elif c == 6:
        if model == 'moran':
            n = t.integer('n', -2, 1)
        else:
            v = t.real('x', F(1, 4 * n) + e, 1)
    else:
        s = float('nan')
    t.rejects(M.population_genetics_model, model, n, t.val(s), t.val(u), t.val(v), msg=f'{model} case {c}')
    t.cover('bad')


def bad_approx(t, n):
    M = t.api.MarkovChain
    e = F(1, 10 ** 6)
    kind = t.pick(['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'])
    al = t.real('alpha', -10, 10)
    sg = t.real('sigma', F(1, 100), 100)
    rho = t.real('rho', -F(9, 10), F(9, 10))
    kw = {}
    c = t.choose(6)
    if c == 0:
        sg = t.real('x', -10, 0)
    elif c == 1:
        rho = t.real('x', 1 + e, 10)
    elif c == 2:
        rho = t.real('x', -10, -1 - e)
    elif c == 3:
        n = t.integer('n', -2, 1)
    elif c == 4:
        if kind == 'tauchen':
            kw['k'] = t.val(t.real('x', -10, 1 - e))
        elif kind == 'tauchen-hussey':
            kw['k'] = t.val(t.real('x', -10, 0))
        else:
            al = float('inf')
    else:
        kind = 'other'
    t.rejects(M.approximation, n, kind, t.val(al), t.val(sg), t.val(rho), msg=f'{kind} case {c}', **kw)
    t.cover('bad')


HARNESSES = [
    Harness('ruin', ruin, quick=[{'n': 3}, {'n': 4}, {'n': 6}], thorough=[{'n': n} for n in range(3, 9)], must_cover=['ruin']),
    Harness('identity', identity, quick=[{'n': 2}, {'n': 4}], thorough=[{'n': n} for n in range(2, 9)], must_cover=['identity']),
    Harness('birth', birth, quick=[{'n': 2}, {'n': 3}, {'n': 4}], thorough=[{'n': n} for n in range(2, 6)], must_cover=['birth'], weight=3),
    Harness('urn', urn, quick=[{'n': 1}, {'n': 2}, {'n': 4}], thorough=[{'n': n} for n in range(1, 9)], must_cover=['ehrenfest', 'bernoulli-laplace']),
    Harness('moran', moran, quick=[{'n': 2}, {'n': 3}, {'n': 5}], thorough=[{'n': n} for n in range(2, 9)], must_cover=['moran']),
    Harness('wright', wright, quick=[{'n': 2}, {'n': 3}, {'n': 4}], thorough=[{'n': n} for n in range(2, 7)], must_cover=['wright']),
    Harness('rare', rare, quick=[{'n': 8, 'model': 'wright-fisher'}, {'n': 8, 'model': 'rouwenhorst'}, {'n': 12, 'model': 'ruin'}, {'n': 20, 'model': 'ehrenfest'}, {'n': 20, 'model': 'bernoulli-laplace'}],
            thorough=[{'n': 12, 'model': 'wright-fisher'}, {'n': 11, 'model': 'rouwenhorst'}, {'n': 30, 'model': 'ruin'}, {'n': 60, 'model': 'ehrenfest'}, {'n': 60, 'model': 'bernoulli-laplace'}], must_cover=['rare']),
    Harness('defaults', defaults, quick=[{'n': 3}], thorough=[{'n': 4}], must_cover=['defaults']),
    Harness('rouwenhorst', rouwenhorst, quick=[{'n': 2}, {'n': 3}, {'n': 5}], thorough=[{'n': n} for n in range(2, 9)], must_cover=['rouwenhorst']),
    Harness('tauchen', tauchen, quick=[{'n': 2}, {'n': 3}, {'n': 4, 'k': 'k'}, {'n': 9}], thorough=[{'n': n, 'k': k} for n in (2, 3, 4, 5, 6, 7, 9, 13) for k in ('3', 'k')], must_cover=['tauchen']),
    Harness('hussey', hussey, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': n} for n in range(2, 6)], must_cover=['hussey', 'rejected']),
    Harness('bad_ruin', bad_ruin, quick=[{}], thorough=[{}], must_cover=['bad']),
    Harness('bad_birth', bad_birth, quick=[{'n': 3}], thorough=[{'n': 2}, {'n': 3}, {'n': 4}], must_cover=['bad']),
    Harness('bad_genetics', bad_genetics, quick=[{'n': 3}], thorough=[{'n': 2}, {'n': 3}, {'n': 5}], must_cover=['bad']),
    Harness('bad_approx', bad_approx, quick=[{'n': 3}], thorough=[{'n': 2}, {'n': 4}], must_cover=['bad']),
]
