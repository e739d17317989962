"""C31 Aggregations and reversible projections are what they claim to be"""
import itertools
import math
from fractions import Fraction

from engine import npshim as N
from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, chain

BOUNDS = 'aggregation: all ergodic zero patterns with n=3 (one group merged) and at most 2 successors with n=4, every positive value of the entries (ratios in [1/100,100]), every sign pattern of the eigenvectors that guide the grouping; several merging rounds: structured matrices with n=4,5; reversible projection: every target distribution (zeros included) and every matrix with n=3 and n=4, plain and weighted norm, every point of the feasible set of the optimisation problem (positive target weights in ratios down to 1e-5); Adda-Cooper: n=2,3,4, every mean and deviation, autocorrelations with a rational conditional deviation; exact real arithmetic'
OUTSIDE = 'which of the possible partitions the eigenvectors select; convergence of the SLSQP optimiser and of the adaptive quadrature (taken at their contracts: a feasible point that minimises the objective; the integral of the integrand); nodes of the Tauchen-Hussey quadrature'

F = Fraction


# ---------------------------------------------------------------------------------- aggregation
def signs(t, hard=True):
    """contract of eig for the guide vectors: any signs (up to the orientation of a vector), not all vectors of one sign"""
    def eig(a):
        n = len(a)
        V = [[t.const(1)] * n for _ in range(n)]
        # eigenvalues in decreasing modulus: only the order and the signs of the vectors matter
        order = list(range(n, 0, -1))
        c = 1
        k = t.choose(3) if n > 2 and hard else 0
        if k:
            # a vector that separates nothing comes first
            for i in range(n):
                V[i][c] = t.const(1 if k == 1 else -1)
            c = 2
        m = 1 + t.choose((1 << (n - 1)) - 1)
        for i in range(n):
            V[i][c] = t.const(-1 if m >> i & 1 else 1)
        return t.arr([t.const(x) for x in order]), t.arr(V)
    return eig


def partitions(n, s):
    for lab in itertools.product(range(s), repeat=n):
        # groups numbered in the order of their first member: relabelled below
        seen = []
        for x in lab:
            if x not in seen:
                seen.append(x)
        if seen == list(range(s)):
            yield lab


def lumped(t, P, pi, lab, s):
    n = len(P)
    w = [t.const(0)] * s
    for i in range(n):
        w[lab[i]] = w[lab[i]] + pi[i]
    Q = [[t.const(0)] * s for _ in range(s)]
    for i in range(n):
        for j in range(n):
            Q[lab[i]][lab[j]] = Q[lab[i]][lab[j]] + pi[i] * P[i][j]
    return [[Q[a][b] / w[a] for b in range(s)] for a in range(s)]


def same_matrix(t, A, B):
    cs = []
    for x, y in zip(A, B):
        for u, v in zip(x, y):
            if t.symbolic:
                c = u == v
            else:
                c = abs(float(u) - float(v)) <= 1e-6
            if c is False or (not t.symbolic and not c):
                return False
            cs.append(c)
    return cs


def is_aggregation(t, q, P, pi, n, s):
    t.same(q.size, s, 'number of states')
    Q = [[q.p[i, j] for j in range(s)] for i in range(s)]
    for i in range(s):
        t.close(sp.total(Q[i]), t.const(1), 'row sum')
    alts = []
    for lab in partitions(n, s):
        L = lumped(t, P, pi, lab, s)
        for o in itertools.permutations(range(s)):
            ok = True
            for i in range(s):
                for j in range(s):
                    if ok and not t.matches(Q[i][j], L[o[i]][o[j]], 1e-6):
                        ok = False
            if ok:
                t.cover('partition')
                return t.count()
            alts.append([Q[i][j] == L[o[i]][o[j]] for i in range(s) for j in range(s)] if t.symbolic else False)
    if not t.symbolic:
        t.fail(f'not an aggregation of the chain under its stationary distribution: {q.p.tolist()}')
    from engine import sym as S
    t.check(S.mkb(S.f_or([S.f_and([S.form(c) for c in a]) for a in alts])), 'aggregation under the stationary distribution for some partition')


def aggregate(t, n, s, some=False):
    if some:
        P = t.stochastic(n, supp=t.pick(SPARSE[n]))
        mc = t.mc(P)
    else:
        P, mc, labels = chain(t, n, False, names=False)
    S = sp.supp(P)
    if not sp.ergodic(S):
        t.infeasible()
    method = t.pick(['spectral-top-down', 'spectral-bottom-up', 'adaptive'] if n == 3 and len(S[0]) == 3 else ['spectral-top-down', 'spectral-bottom-up'])
    pi = mc.pi[0]
    t.closem([sp.total([pi[i] * P[i][j] for i in range(n)]) for j in range(n)], list(pi), 'stationary')
    if t.symbolic:
        N.HOOK['eig'] = signs(t, sum(len(x) for x in S) >= n * n - 1)
    q = t.limited(10, mc.aggregate, s, *([method] if method != 'adaptive' else []))
    N.HOOK.pop('eig', None)
    is_aggregation(t, q, P, [pi[i] for i in range(n)], n, s)
    t.cover(method)


SPARSE = {4: [[[2, 3], [0], [0, 1], [0, 2]], [[0, 1], [2], [3], [0]], [[0, 1], [0, 1, 2], [1, 2, 3], [2, 3]], [[1, 2, 3], [0], [0, 3], [0, 1]]]}
TRICKY = [
    [[0, 0, F(1, 3), F(2, 3)], [1, 0, 0, 0], [F(4, 7), F(3, 7), 0, 0], [F(1, 2), 0, F(1, 2), 0]],
    [[F(1, 2), F(1, 2), 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [1, 0, 0, 0]],
    [[F(1, 10), F(2, 10), F(3, 10), F(4, 10)], [F(4, 10), F(1, 10), F(2, 10), F(3, 10)], [F(3, 10), F(4, 10), F(1, 10), F(2, 10)], [F(2, 10), F(3, 10), F(4, 10), F(1, 10)]],
    [[F(9, 10), F(1, 10), 0, 0], [F(1, 5), F(7, 10), F(1, 10), 0], [0, F(1, 10), F(7, 10), F(1, 5)], [0, 0, F(1, 10), F(9, 10)]],
    [[F(1, 2), F(1, 4), F(1, 4), 0, 0], [F(1, 4), F(1, 2), 0, F(1, 4), 0], [F(1, 8), 0, F(1, 2), F(1, 8), F(1, 4)], [0, F(1, 3), F(1, 3), 0, F(1, 3)], [F(1, 5), F(1, 5), F(1, 5), F(1, 5), F(1, 5)]],
    [[0, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 1, 0], [0, 0, 0, 0, 1], [F(1, 2), F(1, 2), 0, 0, 0]],
]


def rounds(t, n, s, hard=False):
    """several merging rounds on given matrices, any sign pattern"""
    P = [[t.const(x) for x in r] for r in t.pick([m for m in TRICKY if len(m) == n])]
    mc = t.mc(P)
    method = t.pick(['spectral-top-down', 'spectral-bottom-up'])
    pi = mc.pi[0]
    if t.symbolic:
        N.HOOK['eig'] = signs(t, hard)
    q = t.limited(10, mc.aggregate, s, method)
    N.HOOK.pop('eig', None)
    is_aggregation(t, q, P, [pi[i] for i in range(n)], n, s)
    t.cover(method)


def refused(t):
    c = t.choose(6)
    if c == 0:
        P = t.stochastic(3, supp=[[0, 1, 2]] * 3)
        t.rejects(t.mc(P).aggregate, t.pick([1, 0, -1, 3, 4, 2.5, '2', None]), msg='number of states')
    elif c == 1:
        P = t.stochastic(3, supp=[[0, 1, 2]] * 3)
        t.rejects(t.mc(P).aggregate, 2, t.pick(['bottom-up', 'spectral', '', None, 1]), msg='method')
    elif c == 2:
        P = t.stochastic(3, supp=[[0, 1, 2], [0, 1], [2]])
        t.rejects(t.mc(P).aggregate, 2, msg='not ergodic', kind=('ValueError',))
    elif c == 3:
        P = t.stochastic(3, supp=[[0, 1, 2], [0, 1], [0, 2]])
        t.rejects(t.mc(P).closest_reversible, t.pick([[0.5, 0.5], [0.5, 0.25, 0.125], [1.5, -0.5, 0.0], 'x']), msg='not a distribution over the states')
    elif c == 4:
        P = t.stochastic(3, supp=[[0, 1, 2], [0, 1], [0, 2]])
        t.rejects(t.mc(P).closest_reversible, t.pick([[0.5, 0.5, 0.0], [1.0, 0.0, 0.0]]), True, msg='weighted norm with null probabilities')
    else:
        P = t.stochastic(3, supp=[[0, 1, 2], [0, 1], [0, 2]])
        t.rejects(t.mc(P).closest_reversible, [0.25, 0.25, 0.5], t.pick([1, 'x', None]), msg='weighted not a boolean')


# ------------------------------------------------------------------------ closest reversible chain
class patched:
    """the optimiser replaced by its contract; for the solver the chain counts as not reversible and the projection as reversible"""

    def __init__(self, t, mc, solver):
        self.t, self.mc, self.solver = t, mc, solver

    def __enter__(self):
        t = self.t
        c, me = t.api.MarkovChain, self.mc
        self.old = old = c.__dict__['is_reversible']
        if t.symbolic:
            N.HOOK['minimize'] = self.solver
            c.is_reversible = property(lambda s: s is not me)
        else:
            import scipy.optimize
            self.mini = scipy.optimize.minimize
            scipy.optimize.minimize = self.solver
            c.is_reversible = property(lambda s: old.fget(s) if s is me else True)

    def __exit__(self, *a):
        t = self.t
        t.api.MarkovChain.is_reversible = self.old
        if t.symbolic:
            N.HOOK.pop('minimize', None)
        else:
            import scipy.optimize
            scipy.optimize.minimize = self.mini


def vec(t, x):
    return [x[i] for i in range(len(x))] if hasattr(x, '__len__') else [x]


class Problem:
    def __init__(self, t, fun, x0, args=(), method=None, jac=None, hess=None, hessp=None, bounds=None, constraints=(), **k):
        self.t, self.fun, self.args, self.jac, self.bounds = t, fun, args if isinstance(args, tuple) else (args,), jac, bounds
        self.m = len(x0)
        self.cons = [constraints] if isinstance(constraints, dict) else list(constraints)

    def value(self, x):
        r = self.fun(self.t.arr(x), *self.args)
        if self.jac is True:
            r = r[0]
        return r if not hasattr(r, 'shape') or r.shape == () else vec(self.t, r.ravel())[0]

    def gradient(self, x):
        if self.jac is True:
            return vec(self.t, self.fun(self.t.arr(x), *self.args)[1])
        return vec(self.t, self.jac(self.t.arr(x), *self.args)) if callable(self.jac) else None

    def residuals(self, x):
        """(equalities, inequalities >= 0)"""
        eq, ge = [], []
        for c in self.cons:
            v = vec(self.t, c['fun'](self.t.arr(x), *c.get('args', ())))
            (eq if c['type'] == 'eq' else ge).extend(v)
        if self.bounds is not None:
            for y, (lo, hi) in zip(x, self.bounds):
                if lo is not None:
                    ge.append(y - lo)
                if hi is not None:
                    ge.append(hi - y)
        return eq, ge


class Solution(dict):
    __getattr__ = dict.get


def solution(t, x):
    return Solution(x=t.arr(x), success=True, status=0, message='ok', fun=None, nit=1)


def target(t, n, zeros, lo=F(1, 20)):
    """target distribution with the given number of null entries"""
    Z = t.pick(list(itertools.combinations(range(n), zeros)))
    return t.distribution(n, [i for i in range(n) if i not in Z], 'd', lo=lo, hi=20)


def call_real(t, mc, d, weighted, solver):
    args = () if d is None else (t.arr(d), weighted)
    with patched(t, mc, solver):
        return t.call(mc.closest_reversible, *args)


def feasible(t, n, zeros=0, weighted=False, lo=F(1, 20), one=False):
    """every feasible point of the optimisation problem is a stochastic matrix in detailed balance with the target"""
    d = target(t, n, zeros, lo)
    P = t.stochastic(n, supp=[list(range(n))] * n)
    mc = t.mc(P, NAMES[n][-1])
    seen = []

    def solver(*a, **k):
        pb = Problem(t, *a, **k)
        seen.append(pb)
        if one:
            # the weights of one symmetric pair and the identity, the others null
            k = t.choose(pb.m - 1)
            x = [t.real('x', -20, 20) if i == k else t.const(0) for i in range(pb.m - 1)]
        else:
            x = [t.real(f'x{i}', -20, 20) for i in range(pb.m - 1)]
        x.append(1 - sp.total(x))
        eq, ge = pb.residuals([t.val(v) for v in x])
        for v in eq:
            t.close(v, t.const(0), 'the weights of the basis sum to one')
        for v in ge:
            t.assume(v >= 0)
        pb.x = x
        return solution(t, x)
    r = call_real(t, mc, d, weighted, solver)
    if not seen or r[0] != 'ok':
        if t.symbolic or r[0] != 'ok' and r[1] != 'ValidationError':
            t.fail(f'no projection: {r}')
        t.infeasible()
    R = r[1]
    t.same([list(R.states), R.size], [NAMES[n][-1], n], 'states')
    for i in range(n):
        t.close(sp.total([R.p[i, j] for j in range(n)]), t.const(1), 'row sum')
        for j in range(n):
            t.check(R.p[i, j] >= (0 if t.symbolic else -1e-9), 'probability')
            if j > i:
                t.close(d[i] * R.p[i, j], d[j] * R.p[j, i], 'detailed balance with the target')
    t.cover('feasible')


def distance(t, R, P, d, weighted):
    s = t.const(0)
    n = len(P)
    for i in range(n):
        for j in range(n):
            e = R[i][j] - P[i][j]
            s = s + (e * e * d[i] / d[j] if weighted else e * e)
    return s


def coordinates(t, n, d, Z, coef, args):
    """the meaning of the unknowns of the optimisation (a pair of states, or None for the identity), read off the code by unit vectors"""
    mc = t.mc([[t.const(F(1 + (i * 2 + j * j) % 4, sum(1 + (i * 2 + k * k) % 4 for k in range(n)))) for j in range(n)] for i in range(n)])
    assert n > 2
    order, k, m = [], 0, None
    while m is None or k < m:
        size = []

        def solver(*a, **kw):
            pb = Problem(t, *a, **kw)
            size.append(pb.m)
            return solution(t, [t.const(1 if i == k else 0) for i in range(pb.m)])
        with patched(t, mc, solver):
            r = t.call(mc.closest_reversible, *args)
        if not size or r[0] != 'ok':
            t.unsupported('the projection does not go through scipy.optimize.minimize')
        m = size[0]
        B = r[1].p
        off = [(i, j) for i in range(n) for j in range(n) if i != j and not t.matches(B[i, j], t.const(0))]
        if not off:
            key = None
        elif len(off) == 1:
            i, j = off[0]
            key = off[0] if i in Z and j in Z else tuple(sorted(off[0]))
        elif len(off) == 2 and off[0] == off[1][::-1]:
            key = tuple(sorted(off[0]))
        else:
            t.unsupported('basis of the projection')
        order.append((key, off[0] if off else None, [[B[i, j] for j in range(n)] for i in range(n)]))
        k += 1
    if sorted([k for k, _, _ in order], key=str) != sorted(list(coef) + [None], key=str):
        t.fail(f'the unknowns of the projection stand for {[k for k, _, _ in order]}')
    return order


def complete(t, n, zeros=0, weighted=False, default=False, lo=F(1, 20)):
    """every stochastic matrix in detailed balance with the target is feasible, and the objective orders them by their distance"""
    d = [t.const(1) / n] * n if default else target(t, n, zeros, lo)
    P = t.stochastic(n, supp=[list(range(n))] * n, **({'param': 'p'} if n == 3 else {}))
    mc = t.mc(P, NAMES[n][-1])
    Z = [i for i in range(n) if not t.boolean(d[i] > 0)]
    # a matrix in detailed balance: symmetric flows between states of the support, rows of the others free
    R = [[t.const(0)] * n for _ in range(n)]
    coef = {}
    for i, j in itertools.combinations(range(n), 2):
        if i in Z and j in Z:
            coef[i, j] = t.real(f'a{i}{j}', 0, 20)
            coef[j, i] = t.real(f'a{j}{i}', 0, 20)
            R[i][j], R[j][i] = coef[i, j], coef[j, i]
        else:
            coef[i, j] = t.real(f'a{i}{j}', 0, 20)
            R[i][j], R[j][i] = coef[i, j] * d[j], coef[i, j] * d[i]
    for i in range(n):
        R[i][i] = 1 - sp.total([R[i][j] for j in range(n) if j != i])
        t.assume(R[i][i] >= 0)
    seen = []

    def solver(*a, **k):
        pb = Problem(t, *a, **k)
        seen.append(pb)
        x = []
        for k, at, B in order:
            if k:
                i, j = at
                x.append(R[i][j] / B[i][j])
        rest = 1 - sp.total(x)
        x.insert([k for k, _, _ in order].index(None), rest)
        pb.x = x
        if len(x) != pb.m:
            t.fail(f'the optimisation has {pb.m} unknowns, {len(x)} are needed')
        return solution(t, x)
    args = () if default else (t.arr(d), weighted)
    order = coordinates(t, n, d, Z, coef, args)
    with patched(t, mc, solver):
        r = t.call(mc.closest_reversible, *args)
    if not seen or r[0] != 'ok':
        if t.symbolic or r[0] != 'ok' and r[1] != 'ValidationError':
            t.fail(f'no projection: {r}')
        t.infeasible()
    pb = seen[0]
    # which matrix a point stands for is read off the code: it must be the matrix R again
    t.closem([[r[1].p[i, j] for j in range(n)] for i in range(n)], R, 'the matrix of a point')
    x = [t.val(v) for v in pb.x]
    eq, ge = pb.residuals(x)
    for v in eq:
        t.close(v, t.const(0), 'equality constraints hold')
    for v in ge:
        t.check(v >= (0 if t.symbolic else -1e-9), 'inequality constraints hold')
    # objective: same order as the distance (differences to a reference point are proportional, with a positive factor)
    y = [t.val(t.const(0 if k else 1)) for k, _, _ in order]
    z = [t.val(t.const(F(1 if k else 2, pb.m + 1))) for k, _, _ in order]

    def mat(x):
        return [[sp.total([v * B[i][j] for (_, _, B), v in zip(order, x)]) for j in range(n)] for i in range(n)]
    fx, fy, fz = pb.value(x), pb.value(y), pb.value(z)
    dx, dy, dz = distance(t, R, P, d, weighted), distance(t, mat(y), P, d, weighted), distance(t, mat(z), P, d, weighted)
    if t.symbolic and t.matches(fx - fy, dx - dy):
        t.count()
    else:
        t.close((fx - fy) * (dz - dy), (fz - fy) * (dx - dy), 'objective proportional to the distance')
        t.check((fx - fy) * (dx - dy) >= (0 if t.symbolic else -1e-9), 'objective grows with the distance')
    g = pb.gradient(x)
    if g is not None:
        h = F(1, 8)
        for i in range(pb.m):
            xp, xm = list(x), list(x)
            xp[i], xm[i] = x[i] + t.val(h), x[i] - t.val(h)
            t.close((pb.value(xp) - pb.value(xm)) * 4, g[i], 'gradient of the objective')
    for c in pb.cons:
        if callable(c.get('jac')):
            J = c['jac'](t.arr(x), *c.get('args', ()))
            for i in range(pb.m):
                xp = list(x)
                xp[i] = x[i] + t.val(t.const(1))
                a, b = vec(t, c['fun'](t.arr(xp), *c.get('args', ()))), vec(t, c['fun'](t.arr(x), *c.get('args', ())))
                for k in range(len(a)):
                    t.close(a[k] - b[k], J[k, i] if len(J.shape) == 2 else J[i], 'gradient of the constraints')
    t.cover('complete')


def already(t, n):
    """reversible chains are returned as they are"""
    weighted = t.flag()
    labels = NAMES[n][-1]
    if n == 2:
        P = t.stochastic(2, supp=[[0, 1]] * 2)
    else:
        w = {}
        for i in range(n):
            for j in range(i, n):
                w[i, j] = w[j, i] = t.real(f'w{i}{j}', F(1, 10), 10)
        P = [[w[i, j] / sp.total([w[i, k] for k in range(n)]) for j in range(n)] for i in range(n)]
    mc = t.mc(P, labels)
    d = t.distribution(n, list(range(n)), 'd')
    R = mc.closest_reversible(t.arr(d), weighted)
    t.closem(R.p, P, 'reversible chain')
    t.same(list(R.states), labels, 'states')
    t.cover('reversible')


# ------------------------------------------------------------------------------------ Adda-Cooper
def adda_cooper(t, n, rho):
    """cells of equal probability; entries are n times the integral, over the first cell, of the density times the chance of the second"""
    import scipy.stats
    rho = t.real('rho', -F(99, 100), F(99, 100)) if rho == 'any' else F(rho)
    al = t.real('alpha', -10, 10)
    sg = t.real('sigma', F(1, 100), 100)
    calls = []

    def quad(f, a, b, args=(), **k):
        v = t.path.fresh('int', F(1, 10 ** 6), 10 ** 6)
        calls.append((f, a, b, args if isinstance(args, tuple) else (args,), v))
        return v, 0.0
    if t.symbolic:
        N.HOOK['quad'] = quad
    mc = t.api.MarkovChain.approximation(n, 'adda-cooper', t.val(al), t.val(sg), t.val(rho if not isinstance(rho, F) else t.const(rho)))
    N.HOOK.pop('quad', None)
    t.same([list(mc.states), mc.size], [[str(i) for i in range(1, n + 1)], n], 'states')
    q = [float(scipy.stats.norm.ppf(i / n)) for i in range(n + 1)]
    sz = sg / t.sqrt_(t.const(1) - rho * rho)
    z = [x if math.isinf(x) else al + sz * F(x) for x in q]

    def inner(x, j):
        def cdf(u):
            return t.const(1 if u > 0 else 0) if isinstance(u, float) and math.isinf(u) else t.opaque('ncdf', (u - al * (1 - rho) - x * rho) / sg)
        return cdf(z[j + 1]) - cdf(z[j])

    def density(x):
        e = (x - al) / sz
        return t.exp_(-(e * e) / 2) / t.sqrt_(t.const(F(math.pi)) * 2 * sz * sz)
    if not t.symbolic:
        import scipy.integrate
        for i in range(n):
            for j in range(n):
                v = n * scipy.integrate.quad(lambda x: float(density(x)) * float(inner(x, j)), float(z[i]), float(z[i + 1]))[0]
                t.close(mc.p[i, j], v, f'transition from cell {i} to cell {j}', 1e-5)
        return
    if not calls:
        t.unsupported('no quadrature')
    for i in range(n):
        for j in range(n):
            mine = [x for x in calls if not t.matches(mc.p[i, j], mc.p[i, j] * 0) and depends(mc.p[i, j], x[4])]
            if len(mine) != 1:
                t.unsupported('entries that are not single integrals')
            f, a, b, args, v = mine[0]
            for u, w, m in ((a, z[i], 'lower'), (b, z[i + 1], 'upper')):
                if isinstance(u, float) or isinstance(w, float):
                    t.same(float(u) if isinstance(u, float) else 'finite', w if isinstance(w, float) else 'finite', f'{m} limit')
                else:
                    t.close(u, w, f'{m} limit of the cell', 1e-9)
            x = t.real('x', -100, 100)
            t.close(mc.p[i, j] / v * f(t.val(x), *args), density(x) * inner(x, j) * n, f'integrand of entry ({i},{j})', 1e-9)
    t.cover('adda-cooper')


def hussey(t, n, rho):
    """Gauss-Hermite quadrature of the conditional density against N(alpha, k^2); the mean cancels out"""
    import numpy as np
    from numpy.polynomial.hermite import hermgauss
    rho = float(F(rho))
    al = t.real('alpha', -10, 10)
    sg = t.const(t.pick([F(1), F(1, 4), F(3)]))
    kk = t.pick([None, F(1), F(3, 2)])
    mc = t.api.MarkovChain.approximation(n, 'tauchen-hussey', t.val(al), t.val(sg), rho, **({} if kk is None else {'k': t.val(sg * kk)}))
    w = 0.5 + rho / 4
    k = w + (1 - w) / math.sqrt(1 - rho * rho) if kk is None else float(kk)
    x, om = hermgauss(n)

    def ref(scale):
        z = x * scale
        Q = om * np.exp(-(z[None, :] - rho * z[:, None]) ** 2 / 2) / np.exp(-(z[None, :] / k) ** 2 / 2)
        return [[t.const(F(float(v))) for v in r / r.sum()] for r in Q]
    t.closem_known([[mc.p[i, j] for j in range(n)] for i in range(n)], ref(math.sqrt(2) * k), ref(2 * k), 'hussey-nodes', 'Tauchen-Hussey quadrature', 1e-6)
    t.cover('hussey')


def depends(e, v):
    from engine import sym as S
    return bool(S.num_vars(v) & S.num_vars(e))


HARNESSES = [
    Harness('aggregate', aggregate, quick=[{'n': 3, 's': 2}, {'n': 4, 's': 3, 'some': True}], thorough=[{'n': 3, 's': 2}, {'n': 4, 's': 3}], float_sensitive=True, must_cover=('partition', 'spectral-top-down', 'spectral-bottom-up')),
    Harness('rounds', rounds, quick=[{'n': 4, 's': 2}], thorough=[{'n': 4, 's': 2, 'hard': True}, {'n': 5, 's': 2}, {'n': 5, 's': 3}, {'n': 5, 's': 4}], float_sensitive=True, must_cover=('spectral-top-down', 'spectral-bottom-up')),
    Harness('refused', refused),
    Harness('feasible', feasible, quick=[{'n': 3, 'lo': F(1, 10 ** 5)}, {'n': 3, 'zeros': 1}, {'n': 3, 'zeros': 2}, {'n': 3, 'weighted': True}, {'n': 5, 'zeros': 4, 'one': True}, {'n': 4, 'zeros': 3, 'one': True}, {'n': 4, 'zeros': 2, 'one': True}], thorough=[{'n': n, 'zeros': z} for n in (3, 4) for z in range(n)] + [{'n': n, 'zeros': z, 'one': True} for n in (4, 5) for z in range(n)] + [{'n': n, 'weighted': True} for n in (3, 4)], must_cover=('feasible',)),
    Harness('complete', complete, quick=[{'n': 3, 'lo': F(1, 10 ** 5)}, {'n': 3, 'default': True}, {'n': 3, 'zeros': 1}, {'n': 3, 'zeros': 2}, {'n': 3, 'weighted': True}], thorough=[{'n': n, 'zeros': z} for n in (3, 4) for z in range(n)] + [{'n': n, 'weighted': True} for n in (3, 4)], must_cover=('complete',)),
    Harness('adda_cooper', adda_cooper, quick=[{'n': 2, 'rho': 'any'}, {'n': 3, 'rho': 'any'}], thorough=[{'n': n, 'rho': r} for n in (2, 3, 4, 5) for r in ('3/5', '-4/5', '0', '12/13', 'any')], must_cover=('adda-cooper',)),
    Harness('hussey', hussey, quick=[{'n': 2, 'rho': '1/2'}, {'n': 3, 'rho': '-4/5'}, {'n': 5, 'rho': '1/2'}], thorough=[{'n': n, 'rho': r} for n in (2, 3, 4, 5, 6, 7) for r in ('1/2', '-4/5', '0', '9/10')], must_cover=('hussey',)),
    Harness('already', already, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 2}, {'n': 3}], must_cover=('reversible',)),
]
