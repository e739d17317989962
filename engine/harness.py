"""Harness interface: the same harness function runs symbolically (over the symbolic copy
of pydtmc) and concretely (replaying a solver model against the real package)."""
import math
import os
import random
import time
import zlib
from fractions import Fraction

import numpy as np

from . import loader
from . import npshim as N
from . import sym as S
from .sym import Num, SymBool

TOL = 1e-6


class CheckFailed(Exception):
    def __init__(self, msg, known=None):
        super().__init__(msg)
        self.known = known


class Skip(BaseException):
    """concrete run left the harness's domain"""


def is_special(x):
    return isinstance(x, (float, np.floating)) and S.special(float(x))


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------------------- base
class TooLong(BaseException):
    pass


class T:
    symbolic = False

    def __init__(self, params):
        self.params = params
        self.choices = []
        self.draws = []
        self.nu = 0
        self.note = []
        self.reach = set()
        self.known_tag = None
        self.outcomes = None
        self.soft = []
        self.tape = []
        self.tpos = None
        self.laws = []
        self.u_lo = Fraction(0)
        self.few = None

    # --- to be overridden: choose, real, integer, decide_close, ...
    def rewind(self):
        """the next generator starts over with the same outcomes (same seed)"""
        self.tpos = 0

    def fresh_draws(self):
        """forget the outcomes so far (another seed)"""
        self.tape, self.tpos, self.laws = [], None, []

    def taped(self, kind, f):
        if self.tpos is not None and self.tpos < len(self.tape):
            k, x = self.tape[self.tpos]
            if k == kind:
                self.tpos += 1
                return x
            self.fail('the same seed leads to different draws')
        x = f()
        self.tape.append((kind, x))
        if self.tpos is not None:
            self.tpos += 1
        return x

    def draw_uniform(self):
        return self.taped('u', self._uniform)

    def draw_index(self, k):
        return self.taped(('i', k), lambda: self._index(k))

    def draw_permutation(self, n):
        return self.taped(('p', n), lambda: self._permutation(n))

    def draw_choice(self, n, ps, allowed):
        x = self.taped(('c', n), lambda: self._choice(n, ps, allowed))
        self.laws.append((x, None if ps is None else list(ps)))
        return x

    def pick(self, xs, name=None):
        xs = list(xs)
        return xs[self.choose(len(xs))]

    def flag(self):
        return bool(self.choose(2))

    def log(self, *a):
        self.note.append(' '.join(str(x) for x in a))

    def cover(self, tag):
        self.reach.add(tag)

    def subset(self, n, nonempty=True, proper=False):
        ms = [m for m in range(1 << n) if not (nonempty and m == 0) and not (proper and m == (1 << n) - 1)]
        m = self.pick(ms)
        return [i for i in range(n) if m >> i & 1]

    def supports(self, n, m=None, allowed=None, max_succ=None):
        """zero pattern of an n x m stochastic matrix, one choice per row"""
        m = n if m is None else m
        rows = []
        for i in range(n):
            opts = []
            for k in range(m, 0, -1):
                if max_succ and k > max_succ:
                    continue
                opts += [b for b in range(1, 1 << m) if bin(b).count('1') == k]
            if allowed is not None:
                opts = [b for b in opts if allowed(i, [j for j in range(m) if b >> j & 1], rows)]
                if not opts:
                    self.infeasible()
            b = self.pick(opts)
            rows.append([j for j in range(m) if b >> j & 1])
        return rows

    def stochastic(self, n, m=None, name='P', supp=None, param='w', lo=None, hi=None, max_succ=None, allowed=None):
        """stochastic matrix with symbolic entries on a chosen support"""
        m = n if m is None else m
        if param == 'free':
            return self.free_matrix(n, m, name, lo)
        if supp is None:
            supp = self.supports(n, m, allowed=allowed, max_succ=max_succ)
        rows = []
        for i in range(n):
            rows.append(self.distribution(m, supp[i], f'{name}{i}', param, lo, hi))
        return rows

    def free_matrix(self, n, m, name, lo=None):
        """stochastic matrix whose zero pattern is left to the solver: entries are 0 or >= lo"""
        lo = Fraction(1, 1000) if lo is None else lo
        rows = []
        for i in range(n):
            row, r = [], self.const(1)
            for j in range(m - 1):
                x = self.real(f'{name}{i}_{j}', 0, 1)
                row.append(x)
                r = r - x
            row.append(r)
            for x in row:
                self.assume_or(x == 0, x >= lo)
            rows.append(row)
        return rows

    def resolve(self, P):
        """the same matrix with entries that are zero on this path written as 0"""
        z = self.const(0)
        return [[x if self.boolean(x > 0) else z for x in r] for r in P]

    def distribution(self, m, supp, name, param='w', lo=None, hi=None):
        zero, one = self.const(0), self.const(1)
        row = [zero] * m
        if len(supp) == 1:
            row[supp[0]] = one
            return row
        if param == 'w':
            lo = Fraction(1, 100) if lo is None else lo
            hi = Fraction(100) if hi is None else hi
            ws = [one] + [self.real(f'{name}_{j}', lo, hi) for j in supp[1:]]
            s = ws[0]
            for w in ws[1:]:
                s = s + w
            for j, w in zip(supp, ws):
                row[j] = w / s
        else:
            lo = Fraction(1, 100) if lo is None else lo
            r = one
            for j in supp[:-1]:
                row[j] = self.real(f'{name}_{j}', lo, 1 - lo)
                r = r - row[j]
            if len(supp) > 2:
                self.assume(r >= lo)
            row[supp[-1]] = r
        return row

    def weights(self, n, name, lo=0, hi=10):
        return [self.real(f'{name}{i}', lo, hi) for i in range(n)]

    # --- assertions
    def check_all(self, cs, msg):
        for k, c in enumerate(cs):
            self.check(c, f'{msg} [{k}]')

    def check_any(self, cs, msg):
        self.check(self.either(cs), msg)

    def fail(self, msg):
        raise CheckFailed(msg, self.known_tag)

    def same(self, a, b, msg):
        """structural equality of labels, indices, None, bool ... (no real numbers)"""
        if not struct_eq(a, b):
            self.fail(f'{msg}: got {short(a)}, expected {short(b)}')
        self.count()

    def solves(self, a, b, msg, tol=None):
        """like close, for a right side computed from the answer itself: infinite values would satisfy the equation"""
        if a is not None and is_special(a if isinstance(a, float) else self.val(a)):
            self.fail(f'{msg}: got {short(a)}, expected a finite number')
        self.close(a, b, msg, tol)

    def closem(self, a, b, msg, tol=None):
        """elementwise comparison of nested lists / arrays"""
        if a is None or b is None:
            if not (a is None and b is None):
                self.fail(f'{msg}: got {short(a)}, expected {short(b)}')
            return self.count()
        la, lb = deep(a), deep(b)
        self._closem(la, lb, msg, tol)

    def _closem(self, a, b, msg, tol):
        if isinstance(a, list) != isinstance(b, list):
            self.fail(f'{msg}: shapes differ')
        if isinstance(a, list):
            if len(a) != len(b):
                self.fail(f'{msg}: lengths differ ({len(a)} vs {len(b)})')
            for k, (x, y) in enumerate(zip(a, b)):
                self._closem(x, y, f'{msg}[{k}]', tol)
        else:
            self.close(a, b, msg, tol)

    def close_known(self, a, ref, alt, tag, msg, tol=None):
        """a must equal ref; the recorded defect `tag` makes it equal alt instead"""
        if self.matches(a, ref, tol):
            return self.count()
        if self.matches(a, alt, tol):
            self.soft_close(a, ref, msg, tol, tag)
        else:
            self.close(a, ref, msg, tol)

    def closem_known(self, a, ref, alt, tag, msg, tol=None):
        a, ref, alt = deep(a), deep(ref), deep(alt)
        if isinstance(a, list) and isinstance(ref, list) and len(a) == len(ref):
            for k, (x, y, z) in enumerate(zip(a, ref, alt)):
                self.closem_known(x, y, z, tag, f'{msg}[{k}]', tol)
        elif isinstance(a, list) or isinstance(ref, list):
            self.fail(f'{msg}: shapes differ')
        else:
            self.close_known(a, ref, alt, tag, msg, tol)

    def same_known(self, a, ref, alt, tag, msg):
        if struct_eq(a, ref):
            return self.count()
        if struct_eq(a, alt):
            self.soft.append((f'{msg}: got {short(a)}, expected {short(ref)}', tag))
        else:
            self.same(a, ref, msg)

    def call(self, f, *a, **k):
        try:
            return 'ok', f(*a, **k)
        except CheckFailed:
            raise
        except Exception as e:
            return 'exc', type(e).__name__, str(e)

    def rejects(self, f, *a, msg='', kind=('ValidationError',), **k):
        r = self.call(f, *a, **k)
        if r[0] == 'ok':
            self.fail(f'{msg}: accepted, expected {"/".join(kind)}; returned {short(r[1])}')
        if kind and r[1] not in kind:
            self.fail(f'{msg}: raised {r[1]} ({r[2]}), expected {"/".join(kind)}')
        self.count()

    def count(self):
        pass

    def mc(self, P, states=None, **k):
        return self.api.MarkovChain(self.arr(P), states, **k)

    def hmm(self, P, E, states=None, symbols=None):
        return self.api.HiddenMarkovModel(self.arr(P), self.arr(E), states, symbols)


def deep(a):
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a[()]
        return [deep(x) for x in (a.view(np.ndarray) if isinstance(a, N.SArr) else a)]
    if isinstance(a, (list, tuple)):
        return [deep(x) for x in a]
    return a


def struct_eq(a, b):
    if isinstance(a, np.ndarray):
        a = deep(a)
    if isinstance(b, np.ndarray):
        b = deep(b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(struct_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(struct_eq(x, y) for x, y in zip(a.items(), b.items()))
    if (a is None) != (b is None):
        return False
    if isinstance(a, str) != isinstance(b, str):
        return False
    return bool(a == b)


# ------------------------------------------------------------------------- symbolic
class SymT(T):
    symbolic = True

    def __init__(self, path, params):
        super().__init__(params)
        self.path = path
        self.api = loader.symbolic()
        self.np = self.api.np
        self.values = {}
        self.pairs = []
        self.checks = []
        self.nchecks = 0
        N.HOOK.clear()
        N.HOOK['T'] = self

    def const(self, x):
        return x if is_special(x) else Num.const(Fraction(x))

    def choose(self, k):
        c = self.path.choose(k)
        self.choices.append(c)
        return c

    def real(self, name, lo=None, hi=None):
        lo = None if lo is None else Fraction(lo)
        hi = None if hi is None else Fraction(hi)
        v = S.REG.var(('in', name, lo, hi), name, lo, hi)
        self.values[name] = v.idx
        return Num({v.mono: 1})

    def integer(self, name, lo, hi):
        v = S.REG.var(('int', name, lo, hi), name, lo, hi, isint=True)
        self.values[name] = v.idx
        return S.SInt({v.mono: 1})

    def fn(self, name, *args):
        """value of an arbitrary function (each distinct argument gives an unconstrained value)"""
        raise NotImplementedError

    def arr(self, P):
        return N.mkarray(P, float)

    def val(self, x):
        return N.num(x) if not is_special(x) else float(x)

    def assume(self, c):
        self.path.assume(S.form(c))

    def assume_or(self, *cs):
        self.path.assume(S.f_or([S.form(c) for c in cs]))

    def either(self, cs):
        return S.mkb(S.f_or([S.form(c) for c in cs]))

    def infeasible(self):
        raise S.Infeasible()

    def unsupported(self, why):
        raise S.Unsupported(why)

    def limited(self, seconds, f, *a, **k):
        return f(*a, **k)

    def count(self):
        self.nchecks += 1

    def check(self, c, msg):
        f = S.form(c)
        f = self.path.reduce(f)
        self.nchecks += 1
        if f is True:
            S.STATS.normal_form += 1
            return
        if f is False:
            self.fail(msg)
        self.checks.append((f, msg, self.known_tag))

    def close(self, a, b, msg, tol=None):
        self.nchecks += 1
        if a is None or b is None:
            if a is not b:
                self.fail(f'{msg}: got {short(a)}, expected {short(b)}')
            return
        if isinstance(a, (str, bytes)):
            self.fail(f'{msg}: got {short(a)}')
        a, b = N.num(a), N.num(b)
        sa, sb = isinstance(a, float), isinstance(b, float)
        if sa or sb:
            if not (sa and sb and (a == b or (a != a and b != b))):
                self.fail(f'{msg}: got {short(a)}, expected {short(b)}')
            return
        self.pairs.append((a, b, msg, TOL if tol is None else tol, self.known_tag))

    def soft_close(self, a, ref, msg, tol, tag):
        if is_special(a) or is_special(ref) or ref is None or a is None:
            self.soft.append((f'{msg}: got {short(a)}, expected {short(ref)}', tag))
        else:
            self.pairs.append((N.num(a), N.num(ref), msg, TOL if tol is None else tol, tag))

    def matches(self, a, b, tol=None):
        """identical on all inputs of this path"""
        if a is None or b is None or is_special(a) or is_special(b):
            return a is b or (is_special(a) and is_special(b) and (a == b or (a != a and b != b)))
        d = S.addn(N.num(a), N.num(b), -1)
        if d.n and tol is not None and d.is_const():
            b = N.num(b)
            return abs(d.cval()) <= Fraction(tol) * (1 + (abs(b.cval()) if b.is_const() else 0))
        return not d.n

    def boolean(self, c):
        return bool(c)

    def log_(self, x):
        return N._el_log(N.num(x) if not is_special(x) else x)

    def exp_(self, x):
        return N.num(x).exp()

    def sqrt_(self, x):
        return N.num(x).sqrt()

    def spectrum(self, char, values):
        """the eigenvalues (modulus only: a tuple) of matrices with the characteristic polynomial char"""
        N.SPECTRA.append((char, values))

    def eigensystem(self, values, vectors):
        """right eigenvectors (columns) of matrices that have them"""
        N.SYSTEMS.append((values, vectors))

    def opaque(self, kind, *a):
        return S.opaque(kind, *[N.num(x) for x in a])

    # --- RNG
    def _uniform(self):
        x = self.path.fresh('u', self.u_lo, Fraction(2 ** 53 - 1, 2 ** 53))
        self.draws.append(('u', next(iter(S.pvars(x.n)))))
        return x

    def _few(self, m):
        """one of the first or last of m outcomes while t.few lasts, a fixed one afterwards"""
        if m < 2:
            return 0
        self.few -= 1
        if self.few >= 0:
            return (m - 1) * self.path.choose(2)
        return (-self.few * 75 + 74) * 97 % 65537 // 7 % m

    def _index(self, k):
        c = self.path.choose(k) if self.few is None else self._few(k)
        self.draws.append(('i', c))
        return c

    def _permutation(self, n):
        choose = self.path.choose if self.few is None else self._few
        r = N.LazyPerm(n, choose)
        self.draws.append(('p', r.out))
        return r

    def _choice(self, n, ps, allowed):
        if ps is not None:
            allowed = [i for i in allowed if bool(N.num(ps[i]) > 0)]
        if not allowed:
            raise ValueError('Fewer non-zero entries in p than size')
        c = allowed[self.path.choose(len(allowed))]
        self.draws.append(('c', c))
        return c

    def check_choice_p(self, ps):
        tot = Num.const(0)
        for p in ps:
            p = N.num(p)
            if isinstance(p, float):
                raise ValueError('probabilities contain NaN')
            if bool(p < 0):
                raise ValueError('probabilities are not non-negative')
            tot = tot + p
        if bool(abs(tot - 1) > Num.const(Fraction(1, 10 ** 8))):
            raise ValueError('probabilities do not sum to 1')

    def wrap_array(self, r):
        return r.view(N.SArr)

    # --- end of path
    def inputs(self, model):
        """concrete inputs of this path for a model"""
        vs = {}
        for name, i in self.values.items():
            if i not in model:
                model[i] = self.path.random_value(S.REG.vars[i])
            vs[name] = model[i]
        draws = []
        for kind, x in self.draws:
            if kind == 'u':
                if x not in model:
                    model[x] = self.path.random_value(S.REG.vars[x])
                draws.append((kind, float(model[x])))
            else:
                draws.append((kind, x))
        return {'choices': list(self.choices), 'values': vs, 'draws': draws}

    def discharge(self):
        """decide the collected assertions for all inputs of this path.
        returns (violations [(msg, known, model)], unknown)"""
        P = self.path
        viol, unknown = [], 0
        if not P.model_ok():
            r, m = P.sat(True)
            if r == 'unsat':
                raise S.Infeasible()
            if r == 'sat':
                P.use_model(m)
        # boolean assertions
        for f, msg, known in self.checks:
            g = P.reduce(f)
            if g is True:
                S.STATS.normal_form += 1
                continue
            r, m = P.sat(S.f_not(g))
            if r == 'sat':
                mod = dict(P.model)
                for i, x in m[0].items():
                    if S.REG.vars[i].kind == 'in':
                        mod[i] = x
                viol.append((msg, known, mod))
            elif r == 'unknown':
                unknown += 1
        # numeric assertions
        idd = []
        for a, b, msg, tol, known in self.pairs:
            d = S.addn(a, b, -1)
            if not d.n:
                S.STATS.normal_form += 1
                if a.n and not a.is_const():
                    idd.append((a, b))
                continue
            t = Num.const(Fraction(tol))
            if d.is_const() and b.is_const():
                if abs(d.cval()) > Fraction(tol) * (1 + abs(b.cval())):
                    viol.append((msg, known, dict(P.model)))
                continue
            st = self._far(d, b, t, tol)
            if st == 'ok':
                continue
            if st == 'unknown':
                unknown += 1
                if os.environ.get('VERIF_DEBUG'):
                    print('UNKNOWN', msg, str(d)[:300])
            else:
                viol.append((msg, known, st))
        if idd:
            self._confirm(idd)
        return viol, unknown

    def _confirm(self, idd):
        """the solver's own verdict on the identities (cross-multiplied, unexpanded)"""
        seen = set()
        fs = []
        budget = 400
        Z = S.z3()
        for a, b in idd:
            ka, kb = a.key(), b.key()
            if ka == kb and (ka, kb) in seen:
                continue
            seen.add((ka, kb))
            budget -= len(a.n) + len(b.n)
            if budget < 0:
                break

            def den(x):
                r = None
                for f, e in (x.d or {}).items():
                    for _ in range(e):
                        q = S.zpoly(S.REG.factors[f])
                        r = q if r is None else r * q
                return r
            l, r = S.zpoly(a.n), S.zpoly(b.n)
            da, db = den(a), den(b)
            if db is not None:
                l = l * db
            if da is not None:
                r = r * da
            fs.append(l != r)
        s = Z.SolverFor('QF_NRA')
        s.set("timeout", 500)
        s.add(Z.Or(*fs))
        t0 = time.time()
        S.STATS.queries += 1
        r = s.check()
        S.STATS.solver_s += time.time() - t0
        if r == Z.unsat:
            S.STATS.unsat += 1
        elif r == Z.sat:
            S.STATS.sat += 1
            raise AssertionError('solver disagrees with normal form')
        else:
            S.STATS.unknown += 1

    def _far(self, d, b, t, tol):
        P = self.path

        def bad(model):
            try:
                P.full(model, S.num_vars(d) | S.num_vars(b))
                dv, bv = S.num_eval(d, model), S.num_eval(b, model)
            except ZeroDivisionError:
                return False
            return abs(dv) > Fraction(tol) * (1 + abs(bv))
        if P.model_ok() and bad(P.model):
            return dict(P.model)
        unk = False
        for m in (Fraction(1, 100), Fraction(tol)):
            if m == Fraction(1, 100) and tol >= 0.01:
                continue
            for e in (d - Num.const(m), -d - Num.const(m)):
                f = S.form(e > 0)
                f = P.reduce(f)
                if f is False:
                    continue
                r, mo = P.sat(f)
                if r == 'sat':
                    mod = dict(P.model)
                    for i in list(mod):
                        if S.REG.vars[i].kind != 'in':
                            del mod[i]
                    for i, x in mo[0].items():
                        if S.REG.vars[i].kind == 'in':
                            mod[i] = x
                    if bad(dict(mod)):
                        return mod
                    unk = unk or m != Fraction(tol)
                elif r == 'unknown':
                    unk = True
        return 'unknown' if unk else 'ok'


# ------------------------------------------------------------------------- concrete
class ConT(T):
    symbolic = False

    def __init__(self, inp, params, seed=0):
        super().__init__(params)
        self.api = loader.real()
        self.np = np
        self.inp = inp
        self.ci = 0
        self.di = 0
        self.rng = random.Random(seed)
        self.deviated = False
        self.used = {}
        self.nchecks = 0
        N.HOOK.clear()
        N.HOOK['T'] = self

    def const(self, x):
        return x if is_special(x) else Fraction(x)

    def choose(self, k):
        cs = self.inp['choices']
        c = cs[self.ci] if self.ci < len(cs) else 0
        self.ci += 1
        if c >= k:
            raise Skip()
        self.choices.append(c)
        return c

    def real(self, name, lo=None, hi=None):
        x = self.inp['values'].get(name)
        if x is None:
            lo = Fraction(-5) if lo is None else Fraction(lo)
            hi = lo + 10 if hi is None else Fraction(hi)
            x = lo + (hi - lo) * Fraction(self.rng.randint(0, 1000), 1000)
        x = Fraction(x)
        f = Fraction(float(x))
        # the code sees a double; keep the specification on the same number
        if (lo is None or f >= lo) and (hi is None or f <= hi):
            x = f
        self.used[name] = x
        return x

    def integer(self, name, lo, hi):
        x = self.inp['values'].get(name)
        x = lo if x is None else int(x)
        self.used[name] = x
        return x

    def arr(self, P):
        return np.array(mapf(P), dtype=float)

    def val(self, x):
        return float(x)

    def assume(self, c):
        if not c:
            raise Skip()

    def assume_or(self, *cs):
        if not any(cs):
            raise Skip()

    def either(self, cs):
        return any(cs)

    def infeasible(self):
        raise Skip()

    def unsupported(self, why):
        raise Skip()

    def limited(self, seconds, f, *a, **k):
        """a call that must end: a concrete run that takes longer is reported"""
        import signal
        import time

        def late(*_):
            raise TooLong()
        left = signal.getitimer(signal.ITIMER_REAL)[0]
        old = signal.signal(signal.SIGALRM, late)
        t0 = time.time()
        signal.setitimer(signal.ITIMER_REAL, seconds)
        try:
            return f(*a, **k)
        except TooLong:
            self.fail(f'the call does not end within {seconds} s')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if left:
                signal.setitimer(signal.ITIMER_REAL, max(left - (time.time() - t0), 1))

    def count(self):
        self.nchecks += 1

    def check(self, c, msg):
        self.nchecks += 1
        if not c:
            self.fail(msg)

    def close(self, a, b, msg, tol=None):
        self.nchecks += 1
        tol = TOL if tol is None else tol
        if a is None or b is None:
            if a is not b:
                self.fail(f'{msg}: got {short(a)}, expected {short(b)}')
            return
        try:
            if isinstance(a, str):
                raise TypeError
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            self.fail(f'{msg}: got {short(a)}, expected {short(b)}')
        if fa != fa or fb != fb or math.isinf(fa) or math.isinf(fb):
            ok = fa == fb or (fa != fa and fb != fb)
        else:
            ok = abs(fa - fb) <= tol * (1 + abs(fb))
        if not ok:
            self.fail(f'{msg}: got {fa!r}, expected {fb!r}')

    def soft_close(self, a, ref, msg, tol, tag):
        self.soft.append((f'{msg}: got {short(a)}, expected {short(ref)}', tag))

    def matches(self, a, b, tol=None):
        if a is None or b is None:
            return a is b
        fa, fb = float(a), float(b)
        return fa == fb or (fa != fa and fb != fb) or abs(fa - fb) <= (TOL if tol is None else tol) * (1 + abs(fb))

    def boolean(self, c):
        return bool(c)

    def log_(self, x):
        if is_special(x):
            return x
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    def exp_(self, x):
        return math.exp(x)

    def sqrt_(self, x):
        return math.sqrt(x)

    def spectrum(self, char, values):
        pass

    def eigensystem(self, values, vectors):
        pass

    def opaque(self, kind, *a):
        return S._FN[kind](*[float(x) for x in a])

    # --- RNG (scripted)
    def _next(self, kind):
        ds = self.inp['draws']
        if self.di < len(ds) and not self.deviated:
            k, x = ds[self.di]
            if k == kind:
                self.di += 1
                return x
            self.deviated = True
        return None

    def _uniform(self):
        x = self._next('u')
        if x is None:
            x = self.rng.random()
        return x

    def _index(self, k):
        x = self._next('i')
        if x is None or x >= k:
            x = self.rng.randrange(k)
        return x

    def _permutation(self, n):
        x = self._next('p')
        if x is None or len(x) > n:
            x = []
        rest = [i for i in range(n) if i not in x]
        self.rng.shuffle(rest)
        return np.array(list(x) + rest, dtype=int)

    def _choice(self, n, ps, allowed):
        if ps is not None:
            allowed = [i for i in allowed if ps[i] > 0]
        if not allowed:
            raise ValueError('Fewer non-zero entries in p than size')
        x = self._next('c')
        if x is None or x not in allowed:
            x = allowed[self.rng.randrange(len(allowed))]
        return x

    def check_choice_p(self, ps):
        if any(p != p for p in ps):
            raise ValueError('probabilities contain NaN')
        if any(p < 0 for p in ps):
            raise ValueError('probabilities are not non-negative')
        if abs(math.fsum(ps) - 1) > 1.5e-8:
            raise ValueError('probabilities do not sum to 1')

    def wrap_array(self, r):
        return np.array(r.tolist(), dtype=float).reshape(r.shape)


def mapf(P):
    if isinstance(P, (list, tuple)):
        return [mapf(x) for x in P]
    return float(P)


class PatchRNG:
    """replace the generator class the real package instantiates"""

    def __enter__(self):
        import numpy.random as npr
        import numpy.random.mtrand as m
        self.old = (npr.RandomState, m._rand)
        npr.RandomState = N.SymRandomState
        m._rand = N.SymRandomState(0)

    def __exit__(self, *a):
        import numpy.random as npr
        import numpy.random.mtrand as m
        npr.RandomState, m._rand = self.old


def run_concrete(func, params, inp, rng=True, seed=0):
    """-> ('ok', t) | ('fail', msg, known, t) | ('skip', None)"""
    import warnings
    t = ConT(inp, params, seed)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if rng:
                with PatchRNG():
                    func(t, **params)
            else:
                func(t, **params)
        if t.soft:
            return 'fail', t.soft[0][0], t.soft[0][1], t
        return 'ok', t
    except CheckFailed as e:
        return 'fail', str(e), e.known, t
    except Skip:
        return 'skip', None
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        loc = tb[-1]
        return 'fail', f'unexpected {type(e).__name__}: {e} at {loc.filename}:{loc.lineno}', t.known_tag, t


def run_path(func, params, prefix, seed, time_limit, qtimeout=2000):
    """one symbolic path -> dict(result)"""
    rng = random.Random(zlib.crc32(repr((seed, prefix)).encode()))
    if len(S.REG.vars) > 48:
        S.reset_registry()
    N.SPECTRA.clear()
    N.SYSTEMS.clear()
    path = S.Path(prefix, rng, qtimeout)
    path.deadline = time.time() + time_limit
    S.set_path(path)
    t = SymT(path, params)
    res = {'status': None, 'viol': [], 'unknown': 0}
    try:
        try:
            func(t, **params)
            res['status'] = 'ok'
            if t.soft:
                res['viol'] += [(m, k, None) for m, k in t.soft[:2]]
        except CheckFailed as e:
            res['status'] = 'fail'
            res['viol'].append((str(e), e.known, None))
        except RecursionError:
            raise S.Unsupported('recursion')
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            loc = tb[-1]
            res['status'] = 'fail'
            res['viol'].append((f'unexpected {type(e).__name__}: {e} at {loc.filename}:{loc.lineno}', t.known_tag, None))
            res['tb'] = [(f.filename, f.lineno, f.name) for f in tb[-5:]]
        # is the path itself feasible, with which model?
        if res['viol']:
            if not path.model_ok():
                r, m = path.sat(True)
                if r == 'unsat':
                    raise S.Infeasible()
                if r == 'sat':
                    path.use_model(m)
            res['viol'] = [(m, k, dict(path.model)) for m, k, _ in res['viol']]
        v, u = t.discharge()
        res['viol'] += v
        res['unknown'] = u
    except S.Infeasible:
        res['status'] = 'infeasible'
        res['viol'] = []
    except S.PathBudget:
        res['status'] = 'budget'
    except S.Unsupported as e:
        res['status'] = 'unsupported'
        res['why'] = str(e)
    except Skip:
        res['status'] = 'infeasible'
    res['t'] = t
    res['path'] = path
    return res
