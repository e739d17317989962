"""Exact symbolic numbers, path conditions and the solver interface.

A `Num` is an exact real: a quotient N / prod(f_i^e_i) of sparse polynomials with
rational coefficients over the symbolic inputs of the current harness.  The
denominator is kept in factored form and every factor is known to be positive on
the current path (division forks on the sign of the divisor).  Comparing two Nums
gives a Python bool when polynomial normal form or variable bounds already decide
it, and otherwise a `SymBool`; asking a `SymBool` for its truth value forks the
path, with the solver deciding which sides are feasible.
"""
import heapq
import math
import re
import time
from fractions import Fraction

import numpy as np

Z3_PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_z3 = None


def z3():
    global _z3
    if _z3 is None:
        import sys
        sys.path.append(Z3_PATH)
        try:
            import z3 as m
        finally:
            sys.path.remove(Z3_PATH)
        _z3 = m
    return _z3


class Steering(BaseException):
    """Engine control flow; must not be caught by `except Exception` in the code."""


class Unsupported(Steering):
    pass


class Infeasible(Steering):
    pass


class PathBudget(Steering):
    pass


# ---------------------------------------------------------------- polynomials
# monomial = packed exponents, 8 bits per variable (top bit is a guard);
# polynomial = {monomial: int | Fraction}
BITS = 8
_GUARD = [0]


def _guard(nv):
    return _GUARD[0]


def cnorm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def padd(a, b, sb=1):
    if len(a) < len(b) and sb == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if sb == 1 else c * sb
        else:
            v = v + c * sb
            if v == 0:
                del r[m]
            else:
                r[m] = cnorm(v)
    return r


def pscale(a, k):
    if k == 1:
        return a
    if k == 0:
        return {}
    return {m: cnorm(c * k) for m, c in a.items()}


def pmul(a, b):
    if not a or not b:
        return {}
    if len(a) > len(b):
        a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if m == 0:
            return pscale(b, c)
        return {m + n: cnorm(c * d) for n, d in b.items()}
    r = {}
    if len(a) * len(b) > 400000:
        raise Unsupported('polynomial too large')
    for m, c in a.items():
        for n, d in b.items():
            k = m + n
            v = r.get(k)
            r[k] = c * d if v is None else v + c * d
    return {m: cnorm(c) for m, c in r.items() if c != 0}


def ppow(a, e):
    r = {0: 1}
    while e:
        if e & 1:
            r = pmul(r, a)
        e >>= 1
        if e:
            a = pmul(a, a)
    return r


def pdiv(a, f):
    """exact quotient a / f, or None"""
    if not a:
        return {}
    H = _GUARD[0]
    lf = max(f)
    cf = f[lf]
    la, sa, sf = max(a), min(a), min(f)
    if (((la | H) - lf) & H) != H or (((sa | H) - sf) & H) != H:
        return None
    if len(f) == 1:
        q = {}
        for m, c in a.items():
            if (((m | H) - lf) & H) != H:
                return None
            q[m - lf] = cnorm(Fraction(c) / cf) if cf != 1 else c
        return q
    r = dict(a)
    q = {}
    rest = [(m, c) for m, c in f.items() if m != lf]
    steps = 0
    heap = [-m for m in r]
    heapq.heapify(heap)
    while r:
        lm = -heapq.heappop(heap)
        if lm not in r:
            continue
        if (((lm | H) - lf) & H) != H:
            return None
        steps += 1
        if steps > 5000:
            return None
        c = r.pop(lm)
        qm = lm - lf
        if cf != 1:
            if type(c) is int and type(cf) is int and c % cf == 0:
                c = c // cf
            else:
                c = cnorm(Fraction(c) / cf)
        q[qm] = c
        for m, d in rest:
            k = m + qm
            v = r.get(k)
            if v is None:
                r[k] = -c * d
                heapq.heappush(heap, -k)
            else:
                v = v - c * d
                if v == 0:
                    del r[k]
                else:
                    r[k] = cnorm(v)
    return q


def content(p):
    """(rational content with the sign of the leading coefficient, primitive part)"""
    den = 1
    for c in p.values():
        if type(c) is Fraction:
            den = den * c.denominator // math.gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = math.gcd(g, int(c * den))
        if g == 1:
            break
    if p[max(p)] < 0:
        g = -g
    k = Fraction(g, den)
    if k == 1:
        return 1, p
    return cnorm(k), {m: cnorm(c / k) if type(c) is Fraction else (c * den) // g for m, c in p.items()}


# ---------------------------------------------------------------- variables
class Var:
    __slots__ = ('idx', 'name', 'lo', 'hi', 'kind', 'arg', 'zv', 'isint', 'mono', 'args')


class Registry:
    def __init__(self):
        self.vars = []
        self.by_key = {}
        self.factors = []
        self.fkey = {}

    def var(self, key, name, lo, hi, kind='in', arg=None, isint=False, args=()):
        i = self.by_key.get(key)
        if i is not None:
            return self.vars[i]
        v = Var()
        v.idx = len(self.vars)
        v.name = name
        v.lo = lo
        v.hi = hi
        v.kind = kind
        v.arg = arg
        v.args = args
        v.isint = isint
        v.zv = None
        v.mono = 1 << (BITS * v.idx)
        self.vars.append(v)
        self.by_key[key] = v.idx
        _GUARD[0] = sum(1 << (BITS * k + BITS - 1) for k in range(len(self.vars)))
        return v

    def factor(self, p):
        k = frozenset(p.items())
        i = self.fkey.get(k)
        if i is None:
            i = len(self.factors)
            self.factors.append(p)
            self.fkey[k] = i
        return i


REG = Registry()


def monovars(m):
    out = []
    i = 0
    while m:
        e = m & 255
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


_MV = {}


def mv(m):
    r = _MV.get(m)
    if r is None:
        r = _MV[m] = tuple(monovars(m))
    return r


def pvars(p):
    s = set()
    for m in p:
        for i, _ in mv(m):
            s.add(i)
    return s


def pinterval(p):
    """interval of p from variable bounds (None = unbounded)"""
    lo, hi = 0, 0
    for m, c in p.items():
        a, b = 1, 1
        for i, e in mv(m):
            v = REG.vars[i]
            l, h = v.lo, v.hi
            if l is not None and l >= 0:
                pl = l ** e
                ph = None if h is None else h ** e
            elif l is None or h is None:
                return None, None
            else:
                if e % 2 == 0:
                    pl = 0 if l <= 0 <= h else min(l ** e, h ** e)
                    ph = max(l ** e, h ** e)
                else:
                    pl, ph = l ** e, h ** e
            # [a,b] * [pl,ph]
            if a >= 0 and pl >= 0:
                a = a * pl
                b = None if (b is None or ph is None) else b * ph
            else:
                if b is None or ph is None:
                    return None, None
                xs = (a * pl, a * ph, b * pl, b * ph)
                a, b = min(xs), max(xs)
        if c >= 0:
            if lo is not None:
                lo = None if a is None else lo + c * a
            if hi is not None:
                hi = None if b is None else hi + c * b
        else:
            if lo is not None:
                lo = None if b is None else lo + c * b
            if hi is not None:
                hi = None if a is None else hi + c * a
        if lo is None and hi is None:
            return None, None
    return lo, hi


_SIGN = {}


def _same_sign(p):
    """sign of a polynomial whose coefficients agree in sign, over non-negative variables"""
    pos = None
    strict = False
    for m, c in p.items():
        if pos is None:
            pos = c > 0
        elif (c > 0) != pos:
            return None
        nz = True
        for i, _ in mv(m):
            l = REG.vars[i].lo
            if l is None or l < 0:
                return None
            if l == 0:
                nz = False
        strict = strict or nz
    return ('+' if strict else '>=') if pos else ('-' if strict else '<=')


def psign(p):
    """'+', '-', '0', '>=', '<=' or None, from bounds of the inputs alone"""
    if not p:
        return '0'
    if len(p) == 1 and 0 in p:
        return '+' if p[0] > 0 else '-'
    k = frozenset(p.items())
    r = _SIGN.get(k, 1)
    if r != 1:
        return r
    r = _same_sign(p)
    if r is not None:
        lo = hi = None
    else:
        lo, hi = pinterval(p)
    if r is not None:
        pass
    elif lo is not None and lo >= 0:
        r = '+' if lo > 0 else '>='
    elif hi is not None and hi <= 0:
        r = '-' if hi < 0 else '<='
    if len(_SIGN) > 200000:
        _SIGN.clear()
    _SIGN[k] = r
    return r


def peval(p, model):
    t = 0
    for m, c in p.items():
        x = c
        for i, e in mv(m):
            x = x * model[i] ** e
        t += x
    return t


# ---------------------------------------------------------------- formulas
# ('cmp', poly, op) op in '>', '>=', '==' ; ('and', (..)) ; ('or', (..)) ; ('not', f) ; True / False
def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    if f[0] == 'not':
        return f[1]
    return ('not', f)


def f_and(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(fs):
    return f_not(f_and([f_not(f) for f in fs]))


class P:
    """hashable polynomial wrapper"""
    __slots__ = ('p', 'k', 'h')

    def __init__(self, p):
        self.p = p
        self.k = frozenset(p.items())
        self.h = hash(self.k)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.k == o.k


def f_cmp(p, op):
    s = psign(p)
    if s is not None:
        if op == '>':
            if s == '+':
                return True
            if s in ('-', '0', '<='):
                return False
        elif op == '>=':
            if s in ('+', '0', '>='):
                return True
            if s == '-':
                return False
        else:
            if s == '0':
                return True
            if s in '+-' and s in ('+', '-'):
                return False
    k, q = content(p)
    if op == '==':
        return ('cmp', P(q), '==')
    if k > 0:
        return ('cmp', P(q), op)
    # -q op 0
    if op == '>':      # q < 0
        return ('not', ('cmp', P(q), '>='))
    return ('not', ('cmp', P(q), '>'))


def f_eval(f, model):
    if f is True or f is False:
        return f
    t = f[0]
    if t == 'cmp':
        v = peval(f[1].p, model)
        return v > 0 if f[2] == '>' else (v >= 0 if f[2] == '>=' else v == 0)
    if t == 'not':
        return not f_eval(f[1], model)
    return all(f_eval(g, model) for g in f[1])


def f_vars(f, acc=None):
    if acc is None:
        acc = set()
    if f is True or f is False:
        return acc
    if f[0] == 'cmp':
        acc |= pvars(f[1].p)
    elif f[0] == 'not':
        f_vars(f[1], acc)
    else:
        for g in f[1]:
            f_vars(g, acc)
    return acc


def f_linear(f):
    if f is True or f is False:
        return True
    if f[0] == 'cmp':
        for m in f[1].p:
            x = mv(m)
            if len(x) > 1 or (x and x[0][1] > 1):
                return False
        return True
    if f[0] == 'not':
        return f_linear(f[1])
    return all(f_linear(g) for g in f[1])


def zvar(i):
    v = REG.vars[i]
    if v.zv is None:
        Z = z3()
        v.zv = Z.Int(f'v{i}') if v.isint else Z.Real(f'v{i}')
    return v.zv


def zconst(c):
    Z = z3()
    if type(c) is Fraction:
        return Z.Q(c.numerator, c.denominator)
    return Z.RealVal(c)


def zpoly(p):
    Z = z3()
    ts = []
    for m, c in p.items():
        fs = []
        for i, e in mv(m):
            x = zvar(i)
            if REG.vars[i].isint:
                x = Z.ToReal(x)
            fs.extend([x] * e)
        if not fs:
            ts.append(zconst(c))
            continue
        t = fs[0]
        for x in fs[1:]:
            t = t * x
        if c != 1:
            t = zconst(c) * t
        ts.append(t)
    if not ts:
        return Z.RealVal(0)
    return Z.Sum(ts) if len(ts) > 1 else ts[0]


def zform(f):
    Z = z3()
    if f is True or f is False:
        return Z.BoolVal(f)
    if f[0] == 'cmp':
        t = zpoly(f[1].p)
        return t > 0 if f[2] == '>' else (t >= 0 if f[2] == '>=' else t == 0)
    if f[0] == 'not':
        return Z.Not(zform(f[1]))
    return Z.And([zform(g) for g in f[1]])


# ---------------------------------------------------------------- path
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.normal_form = 0
        self.forks = 0

    def add(self, o):
        for k in self.__dict__:
            setattr(self, k, getattr(self, k) + o[k])


STATS = Stats()


def simple_between(a, b):
    """a rational with few digits strictly between a and b"""
    d = 1
    m = (a + b) / 2
    while d < 1 << 200:
        x = Fraction(round(m * d), d)
        if a < x < b:
            return x
        d *= 10
    return m


def univariate(forms, i):
    """exact decision of linear constraints in one real variable (elimination over the breakpoints)"""
    v = REG.vars[i]
    lo, ls, hi, hs = v.lo, False, v.hi, False
    rest, points = [], set()
    todo = list(forms)
    while todo:
        f = todo.pop()
        if f is True:
            continue
        if f is False:
            return 'unsat', None
        if f[0] == 'and':
            todo.extend(f[1])
            continue
        neg = f[0] == 'not'
        g = f[1] if neg else f
        if neg and g[0] == 'not':
            todo.append(g[1])
            continue
        if g is True or g is False:
            if neg == g:
                return 'unsat', None
            continue
        if g[0] != 'cmp' or (neg and g[2] == '=='):
            rest.append(f)
            continue
        p = g[1].p
        a, b = Fraction(p.get(v.mono, 0)), Fraction(p.get(0, 0))
        if a == 0:
            ok = b > 0 if g[2] == '>' else b >= 0 if g[2] == '>=' else b == 0
            if ok == neg:
                return 'unsat', None
            continue
        x = -b / a
        if g[2] == '==':
            up = dn = True
            strict = False
        else:
            up = (a > 0) != neg          # x is a lower bound
            dn = not up
            strict = (g[2] == '>') != neg
        if up and (lo is None or x > lo or (x == lo and strict)):
            lo, ls = x, strict
        if dn and (hi is None or x < hi or (x == hi and strict)):
            hi, hs = x, strict
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (ls or hs))):
            return 'unsat', None

    def atoms(f):
        if f is True or f is False:
            return
        if f[0] == 'cmp':
            a = Fraction(f[1].p.get(v.mono, 0))
            if a:
                points.add(-Fraction(f[1].p.get(0, 0)) / a)
        elif f[0] == 'not':
            atoms(f[1])
        else:
            for g in f[1]:
                atoms(g)
    for f in rest:
        atoms(f)
    if len(points) > 60:
        return None
    if lo is None:
        lo, ls = min([x for x in points] + ([hi] if hi is not None else [Fraction(0)])) - 10, False
    if hi is None:
        hi, hs = max([x for x in points] + [lo]) + 10, False
    ks = sorted({lo, hi} | {x for x in points if lo < x < hi})
    cand = [simple_between(Fraction(a), Fraction(b)) for a, b in zip(ks, ks[1:])]
    cand += [x for x in ks if not (x == lo and ls) and not (x == hi and hs)]
    for x in cand:
        if all(f_eval(f, {i: Fraction(x)}) for f in rest):
            return 'sat', Fraction(x)
    return 'unsat', None


class Path:
    def __init__(self, prefix, rng, qtimeout=3000):
        self.prefix = list(prefix)
        self.pos = 0
        self.taken = []
        self.pending = []
        self.pc = []
        self.known = {}
        self.rng = rng
        self.model = {}
        self.qtimeout = qtimeout
        self.posfact = {}
        self.side = {}          # constraints that come with opaque variables
        self.cdfs = []
        self.inputs = {}        # name -> var idx
        self.unknown_forks = 0
        self.fcount = 0
        self.deadline = None

    # --- values
    def random_value(self, v):
        lo = v.lo if v.lo is not None else Fraction(-5)
        hi = v.hi if v.hi is not None else (lo + 10)
        if v.isint:
            return Fraction(self.rng.randint(int(lo), int(hi)))
        if lo > 0 and hi > 50 * lo:
            # log-uniform, few digits
            x = math.exp(self.rng.uniform(math.log(lo), math.log(hi)))
            x = Fraction(round(x * 64) or 1, 64) if x > 0.2 else Fraction(1, max(1, round(1 / x)))
            return min(max(x, Fraction(lo)), Fraction(hi))
        k = self.rng.randint(0, 1000)
        return Fraction(lo) + (Fraction(hi) - Fraction(lo)) * Fraction(k, 1000)

    def fresh(self, name, lo, hi, isint=False):
        """a new unconstrained variable, named by its rank on this path"""
        k = self.fcount
        self.fcount += 1
        v = REG.var(('fresh', name, k, lo, hi), f'{name}#{k}', lo, hi, kind='in', isint=isint)
        return (SInt if isint else Num)({v.mono: 1})

    def holds(self, f):
        """is f implied by the path condition? (a query, no fork)"""
        f = self.reduce(f)
        if f is True or f is False:
            return f
        return self.sat(f_not(f))[0] == 'unsat'

    def full(self, model, vs):
        """complete a partial model for the variables vs (opaque ones are evaluated)"""
        for i in sorted(vs):
            if i not in model:
                v = REG.vars[i]
                if v.kind == 'in':
                    model[i] = self.random_value(v)
                else:
                    model[i] = opaque_value(v, model, self)
        return model

    def sat(self, extra):
        """is pc and extra satisfiable?  -> ('sat', model|None) / ('unsat', None) / ('unknown', None)"""
        vs = f_vars(extra) if extra is not True else frozenset().union(*[fv for _, fv in self.pc])
        todo = list(self.pc)
        rel = []
        changed = True
        ivs = set(vs)
        while changed:
            changed = False
            rest = []
            for f, fv in todo:
                if fv & ivs or not fv:
                    rel.append(f)
                    if not fv <= ivs:
                        ivs |= fv
                    changed = True
                else:
                    rest.append((f, fv))
            todo = rest
            for i in list(ivs):
                s = self.side.get(i)
                if s is not None and s[0] not in rel:
                    rel.append(s[0])
                    if not s[1] <= ivs:
                        ivs |= s[1]
                        changed = True
        forms = rel + [extra]
        Z = z3()
        STATS.queries += 1
        t0 = time.time()
        lin = all(f_linear(f) for f in forms)
        hasint = any(REG.vars[i].isint for i in ivs)
        if not lin:
            if PROD and any(known_product(f) for f in forms) and self.unsat_in_logs(forms, Z):
                STATS.solver_s += time.time() - t0
                STATS.unsat += 1
                return 'unsat', None
            m = self.sample(forms, ivs)
            if m is not None:
                STATS.solver_s += time.time() - t0
                STATS.sat += 1
                return 'sat', (m, True)
        if lin and not hasint and len(ivs) == 1:
            r = univariate(forms, next(iter(ivs)))
            if r is not None:
                STATS.solver_s += time.time() - t0
                if r[0] == 'sat':
                    STATS.sat += 1
                    return 'sat', ({next(iter(ivs)): r[1]}, True)
                STATS.unsat += 1
                return 'unsat', None
        if lin:
            s = Z.Solver() if hasint else Z.SolverFor('QF_LRA')
        else:
            s = Z.Solver() if hasint else Z.SolverFor('QF_NRA')
        s.set('timeout', self.qtimeout)
        for i in ivs:
            v = REG.vars[i]
            x = zvar(i)
            if v.lo is not None:
                s.add(x >= zconst(v.lo))
            if v.hi is not None:
                s.add(x <= zconst(v.hi))
        for f in forms:
            s.add(zform(f))
        r = s.check()
        STATS.solver_s += time.time() - t0
        if r == Z.unsat:
            STATS.unsat += 1
            return 'unsat', None
        if r == Z.unknown:
            STATS.unknown += 1
            return 'unknown', None
        STATS.sat += 1
        m = s.model()
        model = {}
        ok = True
        for i in ivs:
            v = REG.vars[i]
            x = m.eval(zvar(i), model_completion=True)
            try:
                if v.isint:
                    model[i] = Fraction(x.as_long())
                elif Z.is_rational_value(x):
                    model[i] = Fraction(x.numerator_as_long(), x.denominator_as_long())
                else:
                    a = x.approx(20)
                    model[i] = Fraction(a.numerator_as_long(), a.denominator_as_long())
                    ok = False
            except Exception:
                ok = False
                model[i] = self.random_value(v)
        return 'sat', (model, ok)

    def sample(self, forms, ivs):
        """a witness found by evaluating the constraints at a few points"""
        if any(REG.vars[i].kind != 'in' for i in ivs):
            return None
        last = 0
        for _ in range(10):
            m = {i: self.random_value(REG.vars[i]) for i in ivs}
            if not f_eval(forms[last], m):
                continue
            for k, f in enumerate(forms):
                if not f_eval(f, m):
                    last = k
                    break
            else:
                return m
        return None

    def unsat_in_logs(self, forms, Z):
        """comparisons of products of positive quantities become linear in their logarithms (all
        other constraints are weakened), so unsat here is unsat"""
        L, U = {}, {}
        s = Z.SolverFor('QF_LRA')
        s.set('timeout', 2000)

        def var(k):
            x = L.get(k)
            if x is None:
                x = L[k] = Z.Real(f'L{len(L)}')
                if k[0] == 'v':
                    v = REG.vars[k[1]]
                    if v.hi is not None and v.hi <= 1:
                        s.add(x <= 0)
                    if v.lo is not None and v.lo >= 1:
                        s.add(x >= 0)
                else:
                    q = REG.factors[k[1]]
                    if all(c > 0 for c in q.values()):
                        for m, c in q.items():
                            if c >= 1:
                                e = mv(m)
                                if all(REG.vars[i].lo is not None and REG.vars[i].lo > 0 for i, _ in e):
                                    s.add(x > Z.Sum([Z.RealVal(0)] + [n * var(('v', i)) for i, n in e]) if len(q) > 1
                                          else x >= Z.Sum([Z.RealVal(0)] + [n * var(('v', i)) for i, n in e]))
            return x

        def go(f):
            if f is True or f is False:
                return Z.BoolVal(f)
            if f[0] == 'cmp':
                e = PROD.get(f[1])
                if e is None:
                    t = U.get(f[1])
                    if t is None:
                        t = U[f[1]] = Z.Real(f'U{len(U)}')
                else:
                    t = Z.Sum([Z.RealVal(0)] + [k * var(x) for x, k in e.items()])
                return t > 0 if f[2] == '>' else (t >= 0 if f[2] == '>=' else t == 0)
            if f[0] == 'not':
                return Z.Not(go(f[1]))
            return Z.And([go(g) for g in f[1]])
        for f in forms:
            s.add(go(f))
        return s.check() == Z.unsat

    def add(self, f):
        if f is True:
            return
        self.pc.append((f, frozenset(f_vars(f))))
        self.known[f] = True
        if f[0] == 'not':
            self.known[f[1]] = False
        else:
            self.known[f_not(f)] = False
        if f[0] == 'and':
            for g in f[1]:
                self.known[g] = True
                self.known[f_not(g)] = False

    def holds_in_model(self, f):
        self.full(self.model, f_vars(f))
        return f_eval(f, self.model)

    def model_ok(self):
        for f, fv in self.pc:
            self.full(self.model, fv)
            if not f_eval(f, self.model):
                return False
        return True

    def use_model(self, res):
        """merge a solver model into the path's current model"""
        model, ok = res
        for i, x in model.items():
            if REG.vars[i].kind == 'in':
                self.model[i] = x
        for i in [i for i in self.model if REG.vars[i].kind != 'in']:
            del self.model[i]

    def reduce(self, f):
        if f is True or f is False:
            return f
        k = self.known.get(f)
        if k is not None:
            return k
        if f[0] == 'not':
            return f_not(self.reduce(f[1]))
        if f[0] == 'and':
            return f_and([self.reduce(g) for g in f[1]])
        if f[0] == 'cmp':
            # q >= 0 known from q > 0 / q == 0, etc.
            p, op = f[1], f[2]
            g, e = self.known.get(('cmp', p, '>')), self.known.get(('cmp', p, '=='))
            ge = self.known.get(('cmp', p, '>='))
            if op == '>=' and (g is True or e is True):
                return True
            if op == '>' and (e is True or ge is False):
                return False
            if op == '>=' and g is False and e is False:
                return False
            if op == '>' and ge is True and e is False:
                return True
            if op == '==' and (g is True or ge is False):
                return False
            if op == '==' and ge is True and g is False:
                return True
        return f

    def decide(self, f):
        f = self.reduce(f)
        if f is True or f is False:
            return f
        if self.deadline is not None and time.time() > self.deadline:
            raise PathBudget()
        if self.pos < len(self.prefix):
            v = bool(self.prefix[self.pos])
            self.pos += 1
            self.taken.append(v)
            self.add(f if v else f_not(f))
            return v
        v = None
        if self.model is not None:
            v = self.holds_in_model(f)
            if not self.model_ok():
                v = None
        if v is None:
            r, m = self.sat(f)
            if r == 'sat':
                v = True
                self.use_model(m)
            elif r == 'unsat':
                self.taken.append(False)        # implied
                self.pos += 1
                self.prefix = self.taken[:]
                self.add(f_not(f))
                return False
            else:
                self.unknown_forks += 1
                v = True
        r, m = self.sat(f_not(f) if v else f)
        if r == 'unsat':
            self.taken.append(v)                # implied
            self.pos += 1
            self.prefix = self.taken[:]
            self.add(f if v else f_not(f))
            return v
        if r == 'unknown':
            self.unknown_forks += 1
        STATS.forks += 1
        self.pos += 1
        self.pending.append(self.taken + [not v])
        self.taken.append(v)
        self.prefix = self.taken[:]
        self.add(f if v else f_not(f))
        return v

    def choose(self, k):
        if k == 1:
            return 0
        if self.pos < len(self.prefix):
            v = int(self.prefix[self.pos])
            self.pos += 1
            self.taken.append(v)
            return v
        for j in range(k - 1, 0, -1):
            self.pending.append(self.taken + [j])
        self.pos += 1
        self.taken.append(0)
        self.prefix = self.taken[:]
        return 0

    def assume(self, f):
        f = self.reduce(f)
        if f is True:
            return
        if f is False:
            raise Infeasible()
        self.add(f)
        if self.model_ok():
            return
        # look for a new model
        r, m = self.sat(f)
        if r == 'unsat':
            raise Infeasible()
        if r == 'sat':
            self.use_model(m)


CUR = None


def set_path(p):
    global CUR
    CUR = p


# ---------------------------------------------------------------- SymBool
class SymBool:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return CUR.decide(self.f)

    def __and__(self, o):
        return mkb(f_and([self.f, form(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return mkb(f_or([self.f, form(o)]))
    __ror__ = __or__

    def __invert__(self):
        return mkb(f_not(self.f))

    def logical_not(self):
        return ~self

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, np.bool_)):
            a, b = self.f, form(o)
            return mkb(f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])]))
        return bool(self) == o

    def __ne__(self, o):
        return ~(self == o) if isinstance(self == o, SymBool) else not (self == o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(self) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(self) * o
    __rmul__ = __mul__

    def item(self):
        return bool(self)


def form(x):
    if isinstance(x, SymBool):
        return x.f
    return bool(x)


def mkb(f):
    return f if (f is True or f is False) else SymBool(f)


# ---------------------------------------------------------------- Num
_INF = float('inf')


def special(x):
    return x != x or x in (_INF, -_INF)


class Num:
    __slots__ = ('n', 'd', '_k')
    isint = False

    def __init__(self, n, d=None):
        self.n = n
        self.d = d
        self._k = None

    # ---- construction
    @staticmethod
    def const(c):
        c = cnorm(Fraction(c)) if type(c) is not int else c
        return Num({0: c} if c != 0 else {})

    def is_const(self):
        n = self.n
        return not self.d and (not n or (len(n) == 1 and 0 in n))

    def cval(self):
        return Fraction(self.n.get(0, 0))

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.n.items()), frozenset((self.d or {}).items()))
        return self._k

    # ---- arithmetic
    def __add__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return addn(self, o, 1)

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return -o
        return addn(self, o, -1)

    def __rsub__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o
        return addn(o, self, -1)

    def __mul__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return mulspecial(self, o)
        return muln(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            return o if o != o else Num.const(0)
        return divn(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is None:
            return NotImplemented
        if type(o) is float:
            r = divn(Num.const(1), self)
            return o * r if type(r) is float else mulspecial(r, o)
        return divn(o, self)

    def __neg__(self):
        return type_like(self, Num(pscale(self.n, -1), self.d))

    def __pos__(self):
        return self

    def __abs__(self):
        s = psign(self.n)
        if s in ('+', '>=', '0'):
            return self
        if s in ('-', '<='):
            return -self
        return self if bool(self >= 0) else -self

    def __pow__(self, e, mod=None):
        if isinstance(e, Num):
            if not e.is_const():
                if self.is_const() and self.cval() == 1:
                    return self
                raise Unsupported('symbolic exponent')
            e = e.cval()
        else:
            e = Fraction(e)
        if e.denominator == 1:
            e = e.numerator
            if e < 0:
                return Num.const(1) / (self ** (-e))
            return Num(ppow(self.n, e), {k: v * e for k, v in (self.d or {}).items()} if e else None)
        if e.denominator == 2:
            r = self.sqrt()
            return r ** e.numerator
        if self.is_const():
            return Num.const(Fraction(float(self.cval()) ** float(e)))
        raise Unsupported('fractional power')

    def __rpow__(self, o):
        o = lift(o)
        if type(o) is float:
            if self.is_const():
                return o ** float(self.cval())
            raise Unsupported('symbolic exponent')
        return o.__pow__(self)

    def __mod__(self, o):
        o = lift(o)
        if self.is_const() and o.is_const():
            return Num.const(self.cval() % o.cval())
        if o.is_const() and o.cval() > 0:
            q = o.cval()
            if not self.d and all(REG.vars[i].isint for i in pvars(self.n)) and all((Fraction(c) / q).denominator == 1 for m, c in self.n.items()):
                return type_like(self, Num({}))
            return self - (self / o).floor_() * q
        raise Unsupported('mod')

    def __floordiv__(self, o):
        o = lift(o)
        if self.is_const() and o.is_const():
            return Num.const(self.cval() // o.cval())
        raise Unsupported('floordiv')

    def __rmod__(self, o):
        return lift(o).__mod__(self)

    # ---- comparisons
    def __lt__(self, o):
        return compare(self, o, '<')

    def __le__(self, o):
        return compare(self, o, '<=')

    def __gt__(self, o):
        return compare(self, o, '>')

    def __ge__(self, o):
        return compare(self, o, '>=')

    def __eq__(self, o):
        return compare(self, o, '==')

    def __ne__(self, o):
        r = compare(self, o, '==')
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SymBool) else not r

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        return hash(self.key())

    # ---- conversions
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        return self.__index__()

    __trunc__ = __int__

    def __index__(self):
        raise TypeError("'Num' object cannot be interpreted as an integer")

    def __ceil__(self):
        if self.is_const():
            return math.ceil(self.cval())
        return -((-self).floor_())

    def __floor__(self):
        if self.is_const():
            return math.floor(self.cval())
        return self.floor_()

    def log1p(self):
        return (self + 1).log()

    def hypot(self, o):
        return (self * self + lift(o) * lift(o)).sqrt()

    def floor_(self):
        """integer part, one fork per value within the interval bounds"""
        if self.d:
            raise Unsupported('floor')
        lo, hi = pinterval(self.n)
        if lo is None or hi is None or hi - lo > 64:
            raise Unsupported('floor')
        k, hi = math.floor(lo), math.floor(hi)
        while k < hi and not bool(self < k + 1):
            k += 1
        return k

    def __round__(self, nd=None):
        if self.is_const():
            r = round(self.cval(), nd)
            return int(r) if nd is None else Num.const(r)
        if nd is not None:
            return self if nd >= 12 else lossy(self, nd)
        raise Unsupported('round')

    def rint(self):
        return Num.const(round(self.cval())) if self.is_const() else self.__round__()

    def is_integer(self):
        if self.is_const():
            return self.cval().denominator == 1
        raise Unsupported('is_integer')

    def as_integer_ratio(self):
        return self.cval().as_integer_ratio()

    def item(self):
        return self

    def conjugate(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def astype(self, t):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return Num.const(0)

    ndim = 0
    shape = ()
    size = 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickle')

    def plain(self):
        """a constant that its double stands for"""
        if not self.is_const():
            return False
        c = self.cval()
        return Fraction(float(c)) == c

    def __repr__(self):
        if self.plain():
            return repr(float(self.cval()))
        return token(self)

    __str__ = __repr__

    def __format__(self, spec):
        if self.plain():
            return format(float(self.cval()), spec)
        m = re.fullmatch(r'[<>^=]?[-+ ]?\d*,?(?:\.(\d+))?([eEfFgG]?)', spec)
        if not m:
            raise Unsupported('format ' + spec)
        nd, ty = m.group(1), m.group(2)
        if nd is None and not ty:
            return token(self)
        nd = 6 if nd is None else int(nd)
        if ty in ('', 'g', 'G', 'e', 'E'):
            if nd >= 17 or (nd == 16 and ty in ('e', 'E')):
                return token(self)
        return token(lossy(self, nd))

    # ---- functions (numpy calls these for object arrays)
    def sqrt(self):
        if self.is_const():
            c = self.cval()
            if c < 0:
                return float('nan')
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return Num.const(Fraction(a, b))
            return Num.const(Fraction(math.sqrt(c)))
        return opaque('sqrt', self)

    def log(self):
        if self.is_const() and self.cval() == 1:
            return Num.const(0)
        s = self > 0
        if not bool(s):
            return -_INF if bool(self == 0) else float('nan')
        # log of an exact exponential
        return opaque('log', self)

    def log2(self):
        x = self.log()
        if type(x) is float:
            return x
        return x / Num.const(2).log()

    def log10(self):
        x = self.log()
        if type(x) is float:
            return x
        return x / Num.const(10).log()

    def exp(self):
        if self.is_const():
            c = self.cval()
            return Num.const(1) if c == 0 else Num.const(Fraction(math.exp(c)))
        lc = logcomb(self)
        if lc is not None and all(Fraction(k).denominator == 1 for k, _ in lc):
            r = Num.const(1)
            for k, a in lc:
                r = r * a ** int(k)
            return r
        return opaque('exp', self)

    def cos(self):
        if self.is_const():
            return Num.const(Fraction(math.cos(self.cval())))
        raise Unsupported('cos')

    def sin(self):
        if self.is_const():
            return Num.const(Fraction(math.sin(self.cval())))
        raise Unsupported('sin')

    def isfinite(self):
        return True

    def fix(self):
        if self.is_const():
            return Num.const(int(self.cval()))
        raise Unsupported('fix')

    def sign(self):
        if bool(self > 0):
            return Num.const(1)
        if bool(self == 0):
            return Num.const(0)
        return Num.const(-1)


class SInt(Num):
    """symbolic Python int"""
    __slots__ = ()
    isint = True

    def __index__(self):
        if self.is_const():
            return int(self.cval())
        for _ in range(64):
            v = None
            vs = pvars(self.n)
            if CUR.pos >= len(CUR.prefix):
                if not CUR.model_ok():
                    r, m = CUR.sat(True)
                    if r == 'sat':
                        CUR.use_model(m)
                CUR.full(CUR.model, vs)
                v = int(peval(self.n, CUR.model))
                CUR.taken.append(v)
                CUR.pos += 1
                CUR.prefix = CUR.taken[:]
            else:
                v = CUR.prefix[CUR.pos]
                CUR.pos += 1
                CUR.taken.append(v)
            if bool(self == v):
                return v
        raise Unsupported('unbounded symbolic index')

    __int__ = __index__

    def __hash__(self):
        return hash(self.__index__())

    def __format__(self, spec):
        return str(int(self.cval())) if self.is_const() else 'sym'

    def __repr__(self):
        return 'symint'
    __str__ = __repr__


def type_like(a, r):
    if a.isint:
        x = SInt(r.n, r.d)
        return x
    return r


def lift(o):
    """operand -> Num, special Python float (nan/inf), or None"""
    if isinstance(o, Num):
        return o
    if isinstance(o, bool) or isinstance(o, np.bool_):
        return Num.const(int(o))
    if isinstance(o, (int, np.integer)):
        r = SInt({0: int(o)} if o != 0 else {})
        return r
    if isinstance(o, (float, np.floating)):
        o = float(o)
        if special(o):
            return o
        return Num.const(Fraction(o))
    if isinstance(o, Fraction):
        return Num.const(o)
    if isinstance(o, SymBool):
        return Num.const(int(o))
    return None


def facmul(n, d, exps):
    """n * prod f^(exps[f]-d[f])"""
    for f, e in exps.items():
        k = e - d.get(f, 0)
        if k > 0:
            n = pmul(n, ppow(REG.factors[f], k))
    return n


def simplify(n, d):
    if not n:
        return Num({})
    if not d:
        return Num(n)
    out = {}
    for f, e in d.items():
        fp = REG.factors[f]
        while e > 0:
            q = pdiv(n, fp)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out[f] = e
    return Num(n, out or None)


def addn(a, b, s):
    both = a.isint and b.isint
    ad, bd = a.d or {}, b.d or {}
    if not ad and not bd:
        r = padd(a.n, b.n, s)
        return SInt(r) if both else Num(r)
    if ad == bd:
        return simplify(padd(a.n, b.n, s), ad)
    if not a.n:
        return b if s == 1 else -b
    if not b.n:
        return a
    L = dict(ad)
    for f, e in bd.items():
        if L.get(f, 0) < e:
            L[f] = e
    return simplify(padd(facmul(a.n, ad, L), facmul(b.n, bd, L), s), L)


def muln(a, b):
    both = a.isint and b.isint
    if not a.d and not b.d:
        r = pmul(a.n, b.n)
        if len(r) == 1:
            shorten(r)
        return SInt(r) if both else Num(r)
    if not a.n or not b.n:
        return Num({})
    # cancel crosswise before multiplying
    an, ad = cancel(a.n, a.d, b.d)
    bn, bd = cancel(b.n, b.d, a.d)
    an, bd = cancel2(an, bd)
    bn, ad = cancel2(bn, ad)
    d = dict(ad)
    for f, e in bd.items():
        d[f] = d.get(f, 0) + e
    n = pmul(an, bn)
    return Num(n, d or None)


def cancel(n, d, _):
    return n, dict(d or {})


def cancel2(n, d):
    """cancel factors of d against n; returns (n, d)"""
    if not d:
        return n, d
    out = {}
    for f, e in d.items():
        fp = REG.factors[f]
        while e > 0:
            q = pdiv(n, fp)
            if q is None:
                break
            n = q
            e -= 1
        if e:
            out[f] = e
    return n, out


def mulspecial(a, o):
    if o != o:
        return o
    if a.is_const() and a.cval() == 0:
        return float('nan')
    if bool(a > 0):
        return o
    if bool(a == 0):
        return float('nan')
    return -o


def shorten(r):
    """constants with thousands of digits (iterations on constant data) keep 400 significant bits"""
    c = r.get(0)
    if c is not None and type(c) is not int and c.denominator.bit_length() > 2000:
        k = 400 + c.denominator.bit_length() - abs(c.numerator).bit_length()
        r[0] = Fraction(round(c * (1 << k)), 1 << k) if k > 0 else Fraction(round(c))


def divn(a, b):
    if b.is_const():
        c = b.cval()
        if c == 0:
            return divzero(a)
        r = pscale(a.n, Fraction(1) / c)
        if len(r) == 1:
            shorten(r)
        return Num(r, a.d)
    # sign of b
    s = psign(b.n)
    neg = False
    if s == '+':
        pass
    elif s == '-':
        neg = True
    else:
        if not bool(b != 0):
            return divzero(a)
        neg = not bool(b > 0)
    n, d = a.n, dict(a.d or {})
    if b.d:
        n2, rem = cancel_known(n, d, b.d)
        n, d = n2, rem
    # divide by the numerator of b
    k, q = content(b.n)
    sgn = -1 if k < 0 else 1
    # (b negative) == (q positive with k<0)  or  (q negative)
    qneg = neg != (sgn < 0)
    n = pscale(n, Fraction(1) / Fraction(k))
    if qneg:
        # use -q as the (positive) factors: factor list below must be positive polys
        q = pscale(q, -1)
        n = pscale(n, -1)
    for f, e in factorize(q):
        d[f] = d.get(f, 0) + e
    return simplify(n, d)


def cancel_known(n, d, bd):
    """n/d * prod(bd factors)"""
    d = dict(d)
    for f, e in bd.items():
        k = min(d.get(f, 0), e)
        if k:
            d[f] -= k
            if not d[f]:
                del d[f]
        if e - k:
            n = pmul(n, ppow(REG.factors[f], e - k))
    return n, d


def factorize(q):
    """split the positive polynomial q into known positive factors"""
    out = {}
    # monomial content (positive variables only)
    H = _GUARD[0]
    ms = list(q)
    if 0 not in q:
        for i, _ in mv(ms[0]):
            v = REG.vars[i]
            if v.lo is None or v.lo <= 0:
                continue
            e = min((m >> (BITS * i)) & 255 for m in ms)
            if e:
                f = REG.factor({v.mono: 1})
                out[f] = e
                q = {m - e * v.mono: c for m, c in q.items()}
                ms = list(q)
    if not (len(q) == 1 and 0 in q):
        for f in range(min(len(REG.factors), 60)):
            fp = REG.factors[f]
            if len(fp) == 1 or psign(fp) != '+':
                continue
            while len(q) > 1:
                r = pdiv(q, fp)
                if r is None:
                    break
                q = r
                out[f] = out.get(f, 0) + 1
    if not (len(q) == 1 and 0 in q and q[0] == 1):
        k, p = content(q)
        if k != 1 and k > 0 and not (len(q) == 1 and 0 in q):
            # content is handled by the caller for primitive q; keep exactness
            f = REG.factor(q)
        else:
            f = REG.factor(q)
        out[f] = out.get(f, 0) + 1
    return list(out.items())


SCALAR_DIV = [True]


def divzero(a):
    """numpy semantics for x / 0.0 on float values (used inside object arrays and numpy scalars)"""
    if not a.d and not a.n:
        return float('nan')
    if a.is_const():
        return _INF if a.cval() > 0 else -_INF
    if bool(a == 0):
        return float('nan')
    return _INF if bool(a > 0) else -_INF


def logcomb(x):
    """x as sum k_i * log(a_i) -> [(k_i, a_i)] or None"""
    if x.d:
        return None
    out = []
    for m, c in x.n.items():
        e = mv(m)
        if len(e) != 1 or e[0][1] != 1:
            return None
        v = REG.vars[e[0][0]]
        if v.kind != 'log':
            return None
        out.append((c, v.arg))
    return out


def haslog(p):
    for m in p:
        for i, _ in mv(m):
            if REG.vars[i].kind == 'log':
                return True
    return False


TINY = Fraction(1, 10 ** 200)


def compare(a, o, op):
    b = lift(o)
    if b is None:
        if op == '==':
            return False if not isinstance(o, np.ndarray) else NotImplemented
        return NotImplemented
    if type(b) is float:
        if b != b:
            return False
        if b == _INF:
            return op in ('<', '<=')
        return op in ('>', '>=')
    if op in ('<', '<='):
        a, b = b, a
        op = '>' if op == '<' else '>='
    # underflow thresholds: no quantity within the bounds lies strictly between 0 and 1e-200
    if op != '==' and b.is_const() and 0 < b.cval() < TINY:
        b, op = Num.const(0), '>'
    elif op != '==' and a.is_const() and 0 < a.cval() < TINY:
        a, op = Num.const(0), '>='
    if not a.d and not b.d:
        n = padd(a.n, b.n, -1)
    else:
        n = addn(a, b, -1).n
    if not n:
        return op != '>'
    if haslog(n):
        x = addn(a, b, -1)
        lc = logcomb(x)
        if lc is not None:
            den = 1
            for k, _ in lc:
                k = Fraction(k)
                den = den * k.denominator // math.gcd(den, k.denominator)
            l, r = Num.const(1), Num.const(1)
            for k, arg in lc:
                k = int(k * den)
                if k > 0:
                    l = l * arg ** k
                else:
                    r = r * arg ** (-k)
            return compare(l, r, op)
    f = f_cmp(n, op)
    if type(f) is tuple and len(a.n) == 1 and len(b.n) == 1 and len(n) > 1:
        note_product(a, b, f)
    return mkb(f)


# products of positive quantities: polynomial of a comparison -> exponents of its two sides
PROD = {}


def note_product(a, b, f):
    (ma, ca), = a.n.items()
    (mb, cb), = b.n.items()
    if ca != cb or ca <= 0:
        return
    e = {}
    for m, s in ((ma, 1), (mb, -1)):
        for i, k in mv(m):
            v = REG.vars[i]
            if v.lo is None or v.lo <= 0:
                return
            e['v', i] = e.get(('v', i), 0) + s * k
    for d, s in ((a.d, -1), (b.d, 1)):
        for i, k in (d or {}).items():
            if psign(REG.factors[i]) != '+':
                return
            e['f', i] = e.get(('f', i), 0) + s * k
    if f[0] == 'not':
        PROD[f[1][1]] = {x: -k for x, k in e.items() if k}
    else:
        PROD[f[1]] = {x: k for x, k in e.items() if k}


def known_product(f):
    if f is True or f is False:
        return False
    if f[0] == 'cmp':
        return f[1] in PROD
    if f[0] == 'not':
        return known_product(f[1])
    return any(known_product(g) for g in f[1])


# ---------------------------------------------------------------- opaque functions
_FN = {'sqrt': math.sqrt, 'log': math.log, 'exp': math.exp}


def register_fn(name, fn):
    _FN[name] = fn


def opaque(kind, *args):
    """an uninterpreted (but evaluable) function of exact arguments"""
    if kind == 'ncdf' and args[0].is_const():
        return Num.const(Fraction(_FN[kind](float(args[0].cval()))))
    key = (kind,) + tuple(a.key() for a in args)
    lo = hi = None
    if kind == 'sqrt':
        lo = Fraction(0)
        s = psign(args[0].n)
        if s not in ('+', '>=', '0') and bool(args[0] < 0):
            return float('nan')
        if s == '+' or (s is None and bool(args[0] > 0)):
            lo2, _ = (pinterval(args[0].n) if not args[0].d else (None, None))
            lo = Fraction(0) if not lo2 or lo2 < 0 else Fraction(math.sqrt(lo2)) * Fraction(99, 100)
    elif kind == 'exp':
        lo = Fraction(0)
    elif kind.endswith('cdf'):
        lo, hi = Fraction(0), Fraction(1)
    elif kind == 'log' and args[0].is_const():
        c = Fraction(math.log(args[0].cval()))
        eps = Fraction(1, 10 ** 12)
        lo, hi = c - eps, c + eps
    elif kind == 'log':
        # negative below one, positive above
        if form(args[0] < 1) is True:
            hi = Fraction(0)
        elif form(args[0] > 1) is True:
            lo = Fraction(0)
    v = REG.var(key, f'{kind}#{len(REG.vars)}', lo, hi, kind=kind, arg=args[0], args=args)
    x = Num({v.mono: 1})
    if kind == 'sqrt' and v.idx not in CUR.side:
        f = f_cmp(addn(muln(x, x), args[0], -1).n, '==')
        if f is not True:
            CUR.side[v.idx] = (f, frozenset(f_vars(f)))
    if kind == 'ncdf' and v.idx not in CUR.side:
        # strictly between 0 and 1, strictly increasing (and symmetric around 0)
        fs = [form(x > 0), form(x < 1)]
        for w in CUR.cdfs:
            d = args[0] - w.args[0]
            y = Num({w.mono: 1})
            if CUR.holds(form(d > 0)):
                fs.append(form(x > y))
            elif CUR.holds(form(d < 0)):
                fs.append(form(x < y))
            else:
                fs.append(f_or([f_and([form(d > 0), form(x > y)]), f_and([form(d < 0), form(x < y)]), f_and([form(d == 0), form(x == y)])]))
            if not (args[0] + w.args[0]).n:
                fs.append(form(x + y == 1))
        CUR.cdfs.append(v)
        f = f_and(fs)
        CUR.side[v.idx] = (f, frozenset(f_vars(f)))
    return x


def lossy(x, nd):
    """x rounded to nd decimals: some value within half a unit of the last kept digit"""
    if x.is_const():
        return Num.const(round(x.cval(), nd))
    if nd >= 10 and haslog(x.n):
        # rounding of log-probabilities at 1e-10 or finer is taken as exact (ties closer than that are outside)
        return x
    r = opaque(f'round{nd}', x)
    v = REG.vars[next(iter(pvars(r.n)))]
    if v.idx not in CUR.side:
        h = Num.const(Fraction(1, 2 * 10 ** nd) if nd >= 0 else Fraction(10 ** -nd, 2))
        f = f_and([form(r - x <= h), form(x - r <= h)])
        if f is not True:
            CUR.side[v.idx] = (f, frozenset(f_vars(f)))
    return r


def reset_registry():
    """forget all variables (between paths)"""
    REG.vars.clear()
    REG.by_key.clear()
    REG.factors.clear()
    REG.fkey.clear()
    _GUARD[0] = 0
    _MV.clear()
    _SIGN.clear()
    _TOK.clear()
    _TOKR.clear()
    for c in CACHES:
        c.clear()


CACHES = [PROD]


def opaque_value(v, model, path):
    if v.kind.startswith('round'):
        a = v.args[0]
        path.full(model, num_vars(a))
        return Fraction(round(num_eval(a, model), int(v.kind[5:])))
    xs = []
    for a in v.args:
        vs = pvars(a.n)
        for f in (a.d or {}):
            vs |= pvars(REG.factors[f])
        path.full(model, vs)
        xs.append(float(num_eval(a, model)))
    try:
        return Fraction(_FN[v.kind](*xs))
    except Exception:
        return Fraction(0)


def num_eval(x, model):
    n = Fraction(peval(x.n, model))
    for f, e in (x.d or {}).items():
        d = peval(REG.factors[f], model)
        if d == 0:
            raise ZeroDivisionError
        n = n / Fraction(d) ** e
    return n


def num_vars(x):
    vs = pvars(x.n)
    for f in (x.d or {}):
        vs |= pvars(REG.factors[f])
    return vs


# ---------------------------------------------------------------- tokens (text round trips)
_TOK = {}
_TOKR = {}


def token(x):
    k = x.key()
    t = _TOK.get(k)
    if t is None:
        t = f'0.7{len(_TOK):09d}1e-0'
        t = t.replace('e-0', 'e-00')
        _TOK[k] = t
        _TOKR[t] = x
    return t


def untoken(s):
    return _TOKR.get(s.strip())
