"""C26 Function fitting applies the named quadrature rule"""
import math
from fractions import Fraction

import numpy

from engine import spec as sp
from engine.run import Harness
from props.common import NAMES, TINY

BOUNDS = 'the six rules on 2..7 nodes (Simpson on odd numbers; thorough: up to 9) and, with one zero pattern, 8, 11 and 16 nodes (thorough up to 21), default interval and every interval [a,b] with 0 <= a <= 3 and 1/4 <= b-a <= 4 (symbolic end points); every non-negative function given by its symbolic values at the nodes, every zero pattern of the values for 2 and 3 nodes, of two rows for 4 nodes and of one row for 5..7 nodes (two symbolic values per row for the irrational rules on 4 or more nodes)'
OUTSIDE = 'more nodes; node and weight constants (cosines, square roots) are compared to 1e-9'

RULES = ('trapezoid-rule', 'simpson-rule', 'newton-cotes', 'niederreiter', 'gauss-legendre', 'gauss-chebyshev')
F = Fraction


def rule(name, n):
    """nodes on [0, 1] and weights (up to a common factor), from the definition of the rule"""
    if name == 'trapezoid-rule':
        return [F(i, n - 1) for i in range(n)], [F(1, 2) if i in (0, n - 1) else F(1) for i in range(n)]
    if name == 'simpson-rule':
        return [F(i, n - 1) for i in range(n)], [F(1) if i in (0, n - 1) else F(4) if i % 2 else F(2) for i in range(n)]
    if name == 'newton-cotes':
        return [F(2 * i + 1, 2 * n) for i in range(n)], [F(1)] * n
    if name == 'niederreiter':
        return [F((i + 1) * math.sqrt(2) % 1.0) for i in range(n)], [F(1)] * n
    if name == 'gauss-legendre':
        x, w = numpy.polynomial.legendre.leggauss(n)
        return [(F(float(z)) + 1) / 2 for z in x], [F(float(z)) for z in w]
    # Gauss-Chebyshev nodes, interpolatory (Fejer) weights: the moments of the Chebyshev polynomials
    x = [-math.cos(math.pi * (i + 0.5) / n) for i in range(n)]
    V = numpy.array([[math.cos(k * math.acos(z)) for z in x] for k in range(n)])
    m = numpy.array([0.0 if k % 2 else 2.0 / (1 - k * k) for k in range(n)])
    w = numpy.linalg.solve(V, m)
    return [(F(z) + 1) / 2 for z in x], [F(float(z)) for z in w]


def fit(t, name, n, rows, custom, patterns=True):
    exact = name in RULES[:3]
    z, w = rule(name, n)
    L = NAMES[n][-1] if n in NAMES else [f's{9 - i}' for i in range(n)]
    if custom:
        a = t.real('a', 0, 3)
        d = t.real('d', F(1, 4), 4)
        interval = (t.val(a), t.val(a + d))
    else:
        a, d, interval = t.const(0), t.const(1), None
    S = [[j for j in range(n) if (t.flag() if patterns else (i + j) % 4 > 0)] if i in rows else [(i + k) % n for k in range(max(1, n - 1))] for i in range(n)]
    lo = TINY if exact else F(1, 16)
    Y = [[t.real(f'f{i}{j}', lo, 4) if j in S[i] and i in rows and (exact or j in S[i][:2] or n < 4) else t.const(1 + (i + 2 * j) % 3 if j in S[i] else 0) for j in range(n)] for i in range(n)]
    seen = {}
    order = []

    def f(x_index, x_value, y_index, y_value):
        order.append((x_index, y_index))
        if x_index >= n or y_index >= n:
            return 1.0
        seen[x_index, y_index] = (x_value, y_value)
        return t.val(Y[x_index][y_index])

    mc = t.api.MarkovChain.fit_function(name, L, f, interval) if custom else t.api.MarkovChain.fit_function(name, L, f)
    t.same([mc.states, mc.size], [L, n], 'labels')
    nodes = [a + d * t.const(x) for x in z]
    for i in range(n):
        for j in range(n):
            t.check((i, j) in seen, f'function evaluated at ({i}, {j})')
            t.close(seen[i, j][0], nodes[i], f'x value at ({i}, {j})', 1e-12 if exact else 1e-9)
            t.close(seen[i, j][1], nodes[j], f'y value at ({i}, {j})', 1e-12 if exact else 1e-9)
    for i in range(n):
        r = [Y[i][j] * t.const(w[j]) for j in range(n)]
        if S[i]:
            s = sp.total(r)
            want = [x / s for x in r]
            t.cover('weighted')
        else:
            want = [t.const(F(1, n))] * n
            t.cover('uniform')
        for j in range(n):
            t.close(mc.p[i, j], want[j], f'entry ({i}, {j})', 1e-12 if exact else 1e-7)
        t.close(sp.total([mc.p[i, j] for j in range(n)]), t.const(1), 'row sum', 1e-9)


def main(t, rules, n, rows=None, custom=True, patterns=True):
    name = t.pick(rules)
    fit(t, name, n, range(n) if rows is None else rows, custom, patterns)


def bad(t):
    C = t.api.MarkovChain.fit_function
    L = NAMES[3][-1]
    nan, inf = float('nan'), float('inf')
    k = t.choose(6)
    if k == 0:
        v = t.pick([nan, inf, -inf, None, 'x', 1j, 'raise'])
        at = t.pick([(0, 0), (2, 1), (1, 2)])
        name = t.pick(RULES)

        def f(x_index, x_value, y_index, y_value):
            if (x_index, y_index) == at and not (x_value == 1.0 and y_value == 1.0 and x_index == 1 and y_index == 1):
                if v == 'raise':
                    raise ArithmeticError('no value')
                return v
            return 1.0
        t.rejects(C, name, L, f, msg=f'function value {v}', kind=('ValueError', 'ValidationError'))
    elif k == 1:
        x = t.real('x', TINY, 8)
        at = t.pick([(i, j) for i in range(3) for j in range(3)])
        name = t.pick(RULES)
        other = t.pick([0.0, 1.0, None])
        g = lambda x_index, x_value, y_index, y_value: t.val(-x) if (x_index, y_index) == at or other is None and x_index == at[0] else 1.0 if other is None else other
        t.rejects(C, name, L, g, msg='negative values', kind=('ValueError', 'ValidationError'))
    elif k == 2:
        a = t.real('a', -3, 3)
        b = t.real('b', -3, 3)
        if t.boolean(a < 0) or t.boolean(a >= b):
            t.rejects(C, 'trapezoid-rule', L, lambda x_index, x_value, y_index, y_value: 1.0, (t.val(a), t.val(b)), msg='invalid interval')
        else:
            C('trapezoid-rule', L, lambda x_index, x_value, y_index, y_value: 1.0, (t.val(a), t.val(b)))
            t.cover('valid interval')
    elif k == 3:
        one = lambda x_index, x_value, y_index, y_value: 1.0
        i = t.pick([[0.0, 1.0], (0.0,), (0.0, inf), (nan, 1.0), (0.0, 1.0, 2.0), ('a', 'b')])
        t.rejects(C, 'newton-cotes', L, one, i, msg=f'interval {i}')
    elif k == 4:
        f = t.pick([None, 1.0, lambda x_index, x_value, y_index: 1.0, lambda a, b, c, d: 1.0, lambda x_index, x_value, y_index, y_value: 'x', lambda x_index, x_value, y_index, y_value: float('nan')])
        t.rejects(C, 'newton-cotes', L, f, msg='not a transition function')
    else:
        one = lambda x_index, x_value, y_index, y_value: 1.0
        m = t.choose(4)
        if m == 0:
            t.rejects(C, 'simpson-rule', NAMES[t.pick([2, 4])][-1], one, msg='even number of nodes')
        elif m == 1:
            t.rejects(C, 'other', L, one, msg='unknown rule')
        elif m == 2:
            t.rejects(C, 'newton-cotes', ['a', 'a', 'b'], one, msg='repeated labels')
        else:
            t.rejects(C, 'newton-cotes', ['a'], one, msg='one state')


HARNESSES = [
    Harness('fit', main, quick=[{'rules': RULES[:1] + RULES[2:], 'n': 2}, {'rules': RULES, 'n': 3}, {'rules': RULES[:1] + RULES[2:], 'n': 4, 'rows': (0, 3)}, {'rules': RULES, 'n': 5, 'rows': (4,)}, {'rules': RULES[:1] + RULES[2:], 'n': 6, 'rows': (2,)}, {'rules': RULES, 'n': 7, 'rows': (1,)}, {'rules': RULES[:1] + RULES[2:], 'n': 8, 'rows': (3,), 'patterns': False}, {'rules': RULES, 'n': 11, 'rows': (5,), 'patterns': False}, {'rules': RULES[4:], 'n': 16, 'rows': (2,), 'patterns': False}, {'rules': RULES, 'n': 3, 'custom': False}],
        thorough=[{'rules': RULES if n % 2 else RULES[:1] + RULES[2:], 'n': n, 'rows': (2, n - 1), 'patterns': False} for n in (8, 10, 11, 12, 13, 16, 17, 21)] + [{'rules': RULES[:1] + RULES[2:], 'n': 2}, {'rules': RULES, 'n': 3}, {'rules': RULES[:1] + RULES[2:], 'n': 4, 'rows': (0, 1, 3)}, {'rules': RULES, 'n': 5, 'rows': (1, 4)}, {'rules': RULES[:1] + RULES[2:], 'n': 6, 'rows': (2,)}, {'rules': RULES, 'n': 7, 'rows': (1,)}, {'rules': RULES, 'n': 9, 'rows': (8,)}, {'rules': RULES, 'n': 3, 'custom': False}],
        must_cover=('weighted', 'uniform'), path_s=10.0),
    Harness('bad', bad, must_cover=('valid interval',)),
]
