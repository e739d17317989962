"""C23 States and symbols may be named by index or by label alike"""
import itertools
from fractions import Fraction

import numpy

from engine import spec as sp
from engine.run import Harness
from props.common import structured, structured_hmm

BOUNDS = 'chains with 3..4 states and hidden Markov models with 3 states and 4 symbols on fixed supports with symbolic entries, labels in an order different from the alphabetical and numerical one (one label list looks like indices); every integer index in [-10^6, 10^6] and every label for each operation and argument; every list of states in ascending, descending and rotated order; one invalid element (any integer outside the range, an unknown label, a boolean, a real number, None, an empty string, a nested list, a duplicate) at every position; integer parameters from -10^6 to their lower limit plus 2; every status vector on the stated supports; exact real arithmetic; stars with 11 states whose labels contain one another; lists of states and symbols of restrictions in every order and spelling'
OUTSIDE = 'other larger models; upper limits that depend on resources; plotting arguments'

BAD = ('ValidationError',)
LAB3 = [['2', '3', '1'], ['c', 'a', 'b']]
LAB4 = [['4', '1', '3', '2'], ['b', 'd', 'a', 'c']]
SYM4 = ['s3', 's1', 's0', 's2']
BIG = 10 ** 6


def agree(t, a, b, msg):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            agree(t, x, y, f'{msg}[{k}]')
    elif isinstance(a, numpy.ndarray) or isinstance(b, numpy.ndarray):
        t.closem(a, b, msg, 0)
    elif a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        t.same(a, b, msg)
    elif hasattr(a, 'communicating_classes'):
        t.same(a.states, b.states, msg)
        t.closem(a.p, b.p, msg, 0)
    else:
        t.close(a, b, msg, 0)


def model3(t, which=0):
    p, q = t.real('p', Fraction(1, 50), 50), t.real('q', Fraction(1, 50), 50)
    c = t.const
    P = [[p / (p + 3), c(1) / (p + 3), c(2) / (p + 3)], [c(0), q / (q + 1), c(1) / (q + 1)], [c(1), c(0), c(0)]]
    return P, t.mc(P, LAB3[which])


def model4(t, which=0):
    p, q = t.real('p', Fraction(1, 50), 50), Fraction(1, 3)
    c = t.const
    P = [[p / (p + 3), c(1) / (p + 3), c(2) / (p + 3), c(0)], [c(Fraction(1, 5)), c(0), c(0), c(Fraction(4, 5))],
         [c(0), c(q), c(1 - q), c(0)], [c(Fraction(1, 4)), c(Fraction(1, 8)), c(Fraction(1, 8)), c(Fraction(1, 2))]]
    return P, t.mc(P, LAB4[which])


def model_h(t):
    P, _ = model3(t)
    r = t.real('r', Fraction(1, 50), 50)
    c = t.const
    E = [[r / (r + 3), c(1) / (r + 3), c(2) / (r + 3), c(0)], [c(0), c(Fraction(1, 4)), c(Fraction(1, 4)), c(Fraction(1, 2))], [c(Fraction(1, 8)), c(Fraction(1, 2)), c(Fraction(1, 8)), c(Fraction(1, 4))]]
    return P, E, t.hmm(P, E, LAB3[1], SYM4)


def rw(w):
    return [Fraction(x) for x in w]


def vec(t, xs):
    return t.arr([[t.const(x) for x in xs]])[0]


def pos(m, x):
    x = x[0] if isinstance(x, list) else x
    return m.states.index(x) if x in m.states else x


# every operation that takes one state
ONE = {
    'conditional_probabilities': lambda t, m, x: m.conditional_probabilities(x),
    'cp': lambda t, m, x: m.cp(x),
    'cd': lambda t, m, x: m.cd(x),
    'conditional_distribution': lambda t, m, x: m.conditional_distribution(x),
    'are_communicating 1': lambda t, m, x: m.are_communicating(x, 1),
    'are_communicating 2': lambda t, m, x: m.are_communicating(2, x),
    'is_absorbing_state': lambda t, m, x: m.is_absorbing_state(x),
    'is_accessible target': lambda t, m, x: m.is_accessible(x, 0),
    'is_accessible origin': lambda t, m, x: m.is_accessible(2, x),
    'is_cyclic_state': lambda t, m, x: m.is_cyclic_state(x),
    'is_recurrent_state': lambda t, m, x: m.is_recurrent_state(x),
    'is_transient_state': lambda t, m, x: m.is_transient_state(x),
    'next': lambda t, m, x: m.next(x, seed=1),
    'next index': lambda t, m, x: m.next(x, output_index=True, seed=1),
    'predict': lambda t, m, x: m.predict(2, x),
    'predict indices': lambda t, m, x: m.predict(2, x, output_indices=True),
    'redistribute': lambda t, m, x: m.redistribute(2, x),
    'simulate initial': lambda t, m, x: m.simulate(2, x, seed=1),
    'simulate final': lambda t, m, x: m.simulate(3, 0, x, seed=1),
    'transition_probability target': lambda t, m, x: m.transition_probability(x, 0),
    'transition_probability origin': lambda t, m, x: m.transition_probability(1, x),
    'first_passage_probabilities initial': lambda t, m, x: m.first_passage_probabilities(2, x),
    'first_passage_probabilities target': lambda t, m, x: m.first_passage_probabilities(2, 0, x),
    'first_passage_reward initial': lambda t, m, x: m.first_passage_reward(2, x, [(1 if pos(m, x) == 0 else 0)], vec(t, [1, 2, 5])),
    'first_passage_reward target': lambda t, m, x: m.first_passage_reward(2, 0 if pos(m, x) == 1 else 1, x, vec(t, [1, 2, 5])),
    'hitting_probabilities': lambda t, m, x: m.hitting_probabilities(x),
    'hitting_times': lambda t, m, x: m.hitting_times(x),
    'mean_first_passage_times_to': lambda t, m, x: m.mean_first_passage_times_to(x),
    'mean_first_passage_times_between': lambda t, m, x: m.mean_first_passage_times_between(x, [1, 2] if pos(m, x) == 0 else [0]),
    'committor_probabilities 1': lambda t, m, x: m.committor_probabilities('forward', x, [1] if pos(m, x) == 0 else [0]),
    'committor_probabilities 2': lambda t, m, x: m.committor_probabilities('backward', [2] if pos(m, x) == 0 else [0], x),
    'to_subchain': lambda t, m, x: m.to_subchain(x),
}
# the argument may also be a list of states
LISTY = {'first_passage_probabilities target', 'first_passage_reward target', 'hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to', 'mean_first_passage_times_between', 'committor_probabilities 1', 'committor_probabilities 2', 'to_subchain'}
RANDOM = {'next', 'next index', 'simulate initial', 'simulate final'}
HONE = {
    'emission_probability symbol': (lambda t, m, x: m.emission_probability(x, 1), 4),
    'emission_probability state': (lambda t, m, x: m.emission_probability(2, x), 3),
    'transition_probability target': (lambda t, m, x: m.transition_probability(x, 0), 3),
    'transition_probability origin': (lambda t, m, x: m.transition_probability(1, x), 3),
    'next': (lambda t, m, x: m.next(x, seed=1), 3),
    'next symbol index': (lambda t, m, x: m.next(x, target='symbol', output_index=True, seed=1), 3),
    'simulate initial': (lambda t, m, x: m.simulate(2, x, seed=1), 3),
    'simulate final state': (lambda t, m, x: m.simulate(2, 0, x, seed=1), 3),
    'simulate final symbol': (lambda t, m, x: m.simulate(2, 0, None, x, seed=1), 4),
    'predict': (lambda t, m, x: m.predict('map', [0, 1], x), 3),
    'decode': (lambda t, m, x: m.decode([1, 2], x), 3),
}
ODD = {'True': True, 'False': False, 'real': 1.0, 'None': None, 'empty': '', 'blank': ' ', 'unknown': 'zz', 'padded': ' a', 'tuple': (0,), 'nested': [[0]]}
OPTIONAL = {'redistribute', 'simulate initial', 'simulate final', 'first_passage_probabilities target', 'hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to', 'simulate final state', 'simulate final symbol', 'predict', 'decode'}


def twice(t, f, a, b, rnd):
    """the same operation with two spellings of its argument (and the same random draws)"""
    if rnd:
        t.rewind()
    x = f(a)
    if rnd:
        t.rewind()
    return x, f(b)


def one(t, hmm):
    ops = HONE if hmm else ONE
    name = t.pick(list(ops))
    if hmm:
        f, n = ops[name]
        P, E, m = model_h(t)
        labels = m.states if n == 3 else m.symbols
    else:
        f, n = ops[name], 3
        P, m = model3(t, list(ops).index(name) % 2)
        labels = m.states
    rnd = name in RANDOM or name.split()[0] in ('next', 'simulate')
    i = t.integer('i', -BIG, BIG)
    if t.boolean(i >= 0) and t.boolean(i < n):
        k = int(i)
        lab = labels[k]
        a, b = twice(t, lambda x: f(t, m, x), i, lab, rnd)
        agree(t, a, b, f'{name}: index {k} and label {labels[k]!r}')
        a, b = twice(t, lambda x: f(t, m, x), numpy.int64(k), k, rnd)
        agree(t, a, b, f'{name}: numpy index {k}')
        if name in LISTY and not hmm:
            a, b = twice(t, lambda x: f(t, m, x), [k], [lab], rnd)
            agree(t, a, b, f'{name}: lists of one state, index {k}')
            agree(t, a, f(t, m, k), f'{name}: list of one state and state {k}')
        t.cover('in range')
    else:
        t.rejects(lambda x: f(t, m, x), i, msg=f'{name}: index out of range', kind=BAD)
        t.cover('out of range')


def large(t, n, ops, hmm=False):
    """many states: labels that contain one another or look like other indices"""
    if hmm:
        P, E, m, labels, symbols, _, _ = structured_hmm(t, n, n - 1, 1, ('tight' if 'next' in ops else 'dense',), seqs=1)
    else:
        P, m, labels, _ = structured(t, n, ('star',))
        labels = t.pick([labels, [str((i * 5 + 3) % n + 1) for i in range(n)]])
        m = t.mc(P, labels)
    name = t.pick([x for x in (HONE if hmm else ONE) if x.split()[0] in ops])
    f, rnd = HONE[name][0] if hmm else ONE[name], name.split()[0] in ('next', 'simulate')
    if hmm and HONE[name][1] == 4:
        labels = symbols
    for k in [t.pick([1, len(labels) - 2, len(labels) - 1])] if rnd or name.split()[0] == 'predict' else (0, 1, 2, len(labels) // 2, len(labels) - 2, len(labels) - 1):
        a, b = twice(t, lambda x: f(t, m, x), k, labels[k], rnd)
        agree(t, a, b, f'{name}: index {k} and label {labels[k]!r}')
        if name in LISTY and not hmm and 'between' not in name and 'committor' not in name and 'reward' not in name:
            s = [k, (k + 3) % n, (k + 7) % n]
            a = f(t, m, s)
            agree(t, f(t, m, [labels[i] for i in s]), a, f'{name}: {s} by labels')
            agree(t, f(t, m, [labels[i] for i in s[::-1]]), a, f'{name}: {s} by labels in another order')
    for x in (n, -1, n + 1, -n, str(n + 1), labels[0] + ' ', labels[0][:-1], labels[0] + '0'):
        if x not in labels:
            t.rejects(lambda x: f(t, m, x), x, msg=f'{name}: {x!r}', kind=BAD)
    t.cover('large')


def odd(t, hmm):
    ops = HONE if hmm else ONE
    name = t.pick(list(ops))
    what = t.pick(list(ODD))
    if what == 'None' and name in OPTIONAL:
        t.infeasible()
    if hmm:
        f, n = ops[name]
        m = model_h(t)[2]
    else:
        f, n = ops[name], 3
        m = model3(t, 1)[1]
    t.rejects(lambda x: f(t, m, x), ODD[what], msg=f'{name}: {what}', kind=BAD)


# operations that take lists of states; (function, proper subsets only)
MANY = {
    'first_passage_probabilities': (lambda t, m, x: m.first_passage_probabilities(2, 0, x), False),
    'hitting_probabilities': (lambda t, m, x: m.hitting_probabilities(x), False),
    'hitting_times': (lambda t, m, x: m.hitting_times(x), False),
    'mean_first_passage_times_to': (lambda t, m, x: m.mean_first_passage_times_to(x), False),
    'to_subchain': (lambda t, m, x: m.to_subchain(x), True),
}


def complement(x, labels):
    if not isinstance(x, list):
        return [(x + 1) % len(labels)]
    i = [labels.index(y) if isinstance(y, str) else y for y in x]
    return [j for j in range(len(labels)) if j not in i][:1]


PAIRS = {
    'first_passage_reward': (lambda t, m, x: m.first_passage_reward(2, complement(x, m.states)[0], x, vec(t, [1, 2, 5, -1])), True),
    'mean_first_passage_times_between origins': (lambda t, m, x: m.mean_first_passage_times_between(x, complement(x, m.states)), True),
    'mean_first_passage_times_between targets': (lambda t, m, x: m.mean_first_passage_times_between(complement(x, m.states), x), True),
    'committor_probabilities 1': (lambda t, m, x: m.committor_probabilities('forward', x, complement(x, m.states)), True),
    'committor_probabilities 2': (lambda t, m, x: m.committor_probabilities('backward', complement(x, m.states), x), True),
}
ALL = {**MANY, **PAIRS}


def many(t):
    name = t.pick(list(ALL))
    f, proper = ALL[name]
    P, m = model4(t, list(ALL).index(name) % 2)
    s = t.subset(4, proper=proper)
    if name == 'first_passage_reward' and len(s) == 3:
        t.infeasible()
    a = f(t, m, s)
    for y in (s[::-1], s[1:] + s[:1]):
        agree(t, f(t, m, y), a, f'{name}: {s} in another order')
    for y in (s, s[::-1], s[1:] + s[:1]):
        agree(t, f(t, m, [m.states[i] for i in y]), a, f'{name}: {s} by labels')
    agree(t, f(t, m, [numpy.int64(i) for i in s]), a, f'{name}: {s} by numpy integers')
    t.cover('list')


def many_bad(t):
    name = t.pick(list(ALL))
    f, proper = ALL[name]
    P, m = model4(t, list(ALL).index(name) % 2)
    what = t.pick(['index', 'unknown', 'dup', 'mixed', 'True', 'real', 'None', 'empty', 'all', 'nested', 'blank', 'tuple'])
    s = t.pick([[0], [1, 2], [3, 0]])
    k = t.choose(len(s))
    lab = [m.states[i] for i in s]

    def call(x):
        # the other argument of the operation is fixed: the invalid one must be found
        h = {'first_passage_reward': lambda: m.first_passage_reward(2, 1, x, vec(t, [1, 2, 5, -1])),
             'mean_first_passage_times_between origins': lambda: m.mean_first_passage_times_between(x, [2]),
             'mean_first_passage_times_between targets': lambda: m.mean_first_passage_times_between([2], x),
             'committor_probabilities 1': lambda: m.committor_probabilities('forward', x, [2]),
             'committor_probabilities 2': lambda: m.committor_probabilities('backward', [2], x)}.get(name)
        return h() if h else f(t, m, x)

    if what == 'index':
        i = t.integer('i', -BIG, BIG)
        t.assume_or(i < 0, i >= 4)
        x = s[:k] + [i] + s[k + 1:]
    elif what == 'unknown':
        x = lab[:k] + ['zz'] + lab[k + 1:]
    elif what == 'dup':
        x = t.pick([s + [s[k]], lab + [lab[k]]])
    elif what == 'mixed':
        x = s + [m.states[1 if s == [0] else 0] if k == 0 else m.states[2]]
    elif what == 'True':
        x = s[:k] + [True] + s[k + 1:]
    elif what == 'real':
        x = s[:k] + [1.0] + s[k + 1:]
    elif what == 'None':
        x = s[:k] + [None] + s[k + 1:]
    elif what == 'blank':
        x = lab[:k] + [' '] + lab[k + 1:]
    elif what == 'nested':
        x = [s]
    elif what == 'tuple':
        x = tuple(s)
    elif what == 'all':
        if not proper:
            t.infeasible()
        x = [0, 1, 2, 3]
    else:
        x = []
    t.rejects(call, x, msg=f'{name}: {what} {x if what != "index" else ""}', kind=BAD)
    t.cover(what)


def sequences(t):
    kind = t.choose(5)
    P, m = model4(t, kind % 2)
    n, labels = 4, m.states
    if kind == 0:
        f = m.sequence_probability
    elif kind == 1:
        f = lambda x: m.time_correlations(x, time_points=1)
    elif kind == 2:
        f = lambda x: t.api.MarkovChain.fit_sequence('mle', labels, x).p
    elif kind == 3:
        P, E, m = model_h(t)
        n, labels = 4, m.symbols
        f = lambda x: m.decode(x)[:1]
    else:
        P, E, m = model_h(t)
        n, labels = 4, m.symbols
        f = lambda x: m.predict('mle', x)
    s = t.pick(list(itertools.product(range(n), repeat=3)) if kind in (0, 2) else [(0, 1, 2), (3, 3, 0), (2, 1, 3), (1, 0, 0)])
    s = list(s)
    mode = t.choose(2) if s[0] == 1 else 0
    if mode == 0:
        a = f(s)
        agree(t, f([labels[i] for i in s]), a, f'sequence {s} by labels')
        agree(t, f([numpy.int64(i) for i in s]), a, f'sequence {s} by numpy integers')
        t.cover('sequence')
        return
    k = t.choose(3)
    what = t.pick(['index', 'unknown', 'mixed', 'True', 'real', 'short', 'empty', 'tuple', 'None'])
    lab = [labels[i] for i in s]
    if what == 'index':
        i = t.integer('i', -BIG, BIG)
        t.assume_or(i < 0, i >= n)
        x = s[:k] + [i] + s[k + 1:]
    elif what == 'unknown':
        x = lab[:k] + ['zz'] + lab[k + 1:]
    elif what == 'mixed':
        x = s[:k] + [lab[k]] + s[k + 1:]
    elif what == 'True':
        x = s[:k] + [True] + s[k + 1:]
    elif what == 'real':
        x = s[:k] + [1.0] + s[k + 1:]
    elif what == 'None':
        x = None
    else:
        x = {'short': [1], 'empty': [], 'tuple': tuple(s)}[what]
    t.rejects(f, x, msg=f'sequence, {what}', kind=BAD)


def status(t):
    """a state, its label and the distribution concentrated on it are the same starting point"""
    which = t.choose(4)
    if which == 0:
        P, m = model3(t, 1)
        f = lambda x: m.redistribute(2, x)
    else:
        P, E, m = model_h(t)
        f = [None, lambda x: m.decode([1, 2], x), lambda x: m.predict('map', [0, 1], x), lambda x: m.predict('viterbi', [0, 1], x)][which]
    labels = m.states
    n = 3
    what = t.pick(['unit', 'sum', 'negative', 'above', 'length', 'nan', 'valid', 'matrix'])
    if what == 'unit':
        k = t.choose(n)
        v = [t.const(1 if i == k else 0) for i in range(n)]
        a = f(vec(t, [1 if i == k else 0 for i in range(n)]))
        agree(t, f(k), a, 'index and distribution')
        agree(t, f(labels[k]), a, 'label and distribution')
        agree(t, f([1 if i == k else 0 for i in range(n)]), a, 'list and distribution')
        t.cover('unit')
    elif what == 'valid':
        if which == 3:
            t.infeasible()
        x = t.real('x', Fraction(1, 100), Fraction(98, 100))
        f(t.arr([[x, t.const(Fraction(1, 100)), Fraction(99, 100) - x]])[0])
        t.cover('valid')
    elif what == 'sum':
        x, y = t.real('x', 0, 1), t.real('y', 0, 1)
        z = t.real('z', 0, 1)
        t.assume_or(x + y + z >= Fraction(10001, 10000), x + y + z <= Fraction(9999, 10000))
        t.rejects(f, t.arr([[x, y, z]])[0], msg='sum', kind=BAD)
    elif what in ('negative', 'above'):
        k = t.choose(n)
        x = t.real('x', Fraction(1, 10 ** 7), 5)
        v = [t.const(0)] * n
        v[k] = -x if what == 'negative' else 1 + x
        v[(k + 1) % n] = 1 - v[k]
        t.rejects(f, t.arr([v])[0], msg=what, kind=BAD)
    elif what == 'length':
        t.rejects(f, t.pick([[1.0], [0.5, 0.5], [0.25, 0.25, 0.25, 0.25], []]), msg='length', kind=BAD)
    elif what == 'matrix':
        t.rejects(f, [[1.0, 0.0, 0.0], [1.0, 0.0, 0.0]], msg='matrix', kind=BAD)
    else:
        t.rejects(f, t.pick([[float('nan'), 1.0, 0.0], [float('inf'), 0.0, 0.0], ['a', 'b', 'c']]), msg='not numbers', kind=BAD)


def birth(t, n):
    return t.arr([[Fraction(1, 4)] * (n - 1) + [0]])[0]


# (call, lowest accepted value, accepted values can be tried)
INTS = {
    'expected_rewards': (lambda t, m, v: m.expected_rewards(v, vec(t, [1, 2, 5])), 1),
    'expected_transitions': (lambda t, m, v: m.expected_transitions(v), 1),
    'first_passage_probabilities': (lambda t, m, v: m.first_passage_probabilities(v, 0), 1),
    'first_passage_reward': (lambda t, m, v: m.first_passage_reward(v, 0, [1], vec(t, [1, 2, 5])), 1),
    'predict': (lambda t, m, v: m.predict(v, 0), 1),
    'redistribute': (lambda t, m, v: m.redistribute(v), 1),
    'simulate': (lambda t, m, v: m.simulate(v, 0), 2),
    'to_nth_order': (lambda t, m, v: m.to_nth_order(v), 2),
    'time_correlations': (lambda t, m, v: m.time_correlations([0, 1], time_points=v), 0),
    'time_relaxations': (lambda t, m, v: m.time_relaxations([0, 1], time_points=v), 0),
    'time_correlations list': (lambda t, m, v: m.time_correlations([0, 1], time_points=[v, 7]), 0),
    'mixing_time': (lambda t, m, v: m.mixing_time(jump=v), 1),
    'gamblers_ruin': (lambda t, m, v: t.api.MarkovChain.gamblers_ruin(v, 0.5), 3),
    'identity': (lambda t, m, v: t.api.MarkovChain.identity(v), 2),
    'urn_model': (lambda t, m, v: t.api.MarkovChain.urn_model(t_pick(v), v), 1),
    'population_genetics_model': (lambda t, m, v: t.api.MarkovChain.population_genetics_model('moran', v), 2),
    'random': (lambda t, m, v: t.api.MarkovChain.random(v), 2),
    'random zeros': (lambda t, m, v: t.api.MarkovChain.random(3, zeros=v), 0),
    'dirichlet_process size': (lambda t, m, v: t.api.MarkovChain.dirichlet_process(v, 1), 2),
    'dirichlet_process factor': (lambda t, m, v: t.api.MarkovChain.dirichlet_process(4, v), 1),
    'approximation': (lambda t, m, v: t.api.MarkovChain.approximation(v, 'rouwenhorst', 0.0, 1.0, 0.5), 2),
    'hmm simulate': (lambda t, m, v: t.hmm([[1, 0], [0, 1]], [[1, 0], [0, 1]]).simulate(v, 0), 2),
    'hmm random n': (lambda t, m, v: t.api.HiddenMarkovModel.random(v, 2), 2),
    'hmm random k': (lambda t, m, v: t.api.HiddenMarkovModel.random(2, v), 2),
    'hmm random p_zeros': (lambda t, m, v: t.api.HiddenMarkovModel.random(3, 3, p_zeros=v), 0),
    'hmm random e_zeros': (lambda t, m, v: t.api.HiddenMarkovModel.random(3, 3, e_zeros=v), 0),
    'assess_stationarity blocks': (lambda t, m, v: t.api.assess_stationarity(['a', 'b'], ['a', 'b', 'a', 'a', 'b', 'b', 'a', 'b', 'a', 'b'], v), 1),
}
UPPER = {'population_genetics_model': 500, 'dirichlet_process factor': 4}
# above this value the request is rejected for other reasons, or takes too long
STOP = {'random zeros': 6, 'hmm random p_zeros': 6, 'hmm random e_zeros': 6}


def t_pick(v):
    return 'ehrenfest'


def integers(t):
    name = t.pick(list(INTS))
    f, lo = INTS[name]
    P, m = model3(t, 1)
    what = t.choose(4)
    if what == 0:
        v = t.integer('v', -BIG, lo - 1)
        t.rejects(lambda x: f(t, m, x), v, msg=f'{name}: below {lo}', kind=BAD)
        t.cover('below')
    elif what == 1:
        v = t.pick([True, False, None, '2', 2.0, [2], (2,)])
        if name.startswith('time') and v == [2] or 'list' in name and v == [2]:
            t.infeasible()
        t.rejects(lambda x: f(t, m, x), v, msg=f'{name}: {v!r}', kind=BAD)
    elif what == 2:
        if name.startswith('assess') or 'random' in name or 'dirichlet' in name:
            t.infeasible()  # see C04 and C28
        v = lo + t.choose(2)
        t.fresh_draws()
        if name in ('mixing_time', 'predict'):
            m = t.mc([[Fraction(1, 2), Fraction(1, 4), Fraction(1, 4)], [0, Fraction(1, 4), Fraction(3, 4)], [1, 0, 0]])
        f(t, m, v)
        if not name.startswith('time'):
            t.fresh_draws()
            f(t, m, numpy.int64(v))
        t.cover('accepted')
    else:
        hi = UPPER.get(name)
        if hi is None:
            t.infeasible()
        v = t.integer('v', hi + 1, BIG)
        t.rejects(lambda x: f(t, m, x), v, msg=f'{name}: above {hi}', kind=BAD)
        t.cover('above')


def partitions(t):
    p = t.real('p', Fraction(1, 100), Fraction(49, 100))
    c, h = t.const, Fraction(1, 2)
    u, v = [p, h - p, c(h), c(0)], [c(0), c(h), p, h - p]
    m = t.mc([u, u, v, v], LAB4[1])
    L = m.states
    good = t.pick([[[0, 1], [2, 3]], [[0], [1, 2, 3]], [[0], [1], [2, 3]], [[0, 1], [2], [3]], [[0], [1, 2], [3]]])
    if t.flag():
        a, b = t.call(m.lump, good), t.call(m.lump, [[L[i] for i in g] for g in good])
        t.same(a[0], b[0], 'partition by labels')
        if a[0] == 'ok':
            agree(t, a[1], b[1], 'partition by labels')
            t.cover('partition')
        else:
            t.same(a[1], b[1], 'partition by labels')
            t.same(a[1] == 'ValidationError', False, 'a partition is valid input')
        return
    i = t.integer('i', -BIG, BIG)
    g = t.choose(len(good))
    k = t.choose(len(good[g]))
    t.assume_or(i < good[g][k], i > good[g][k])
    bad = [list(x) for x in good]
    bad[g][k] = i
    t.rejects(m.lump, bad, msg='partition with another state at one place', kind=BAD)
    for x in ([], [[0, 1, 2, 3]], [[0], [1], [2], [3]], [[0, 1], [2]], [['b', 'd'], ['a', 'zz']], [[0, 1], ['a', 'c']], [[True, False], [2, 3]], [0, 1, 2, 3], None, 'bdac', [[0, 1], [1, 2, 3]]):
        t.rejects(m.lump, x, msg=f'partition {x}', kind=BAD)


def restrict(t):
    P, E, m = model_h(t)
    s, k = t.subset(3), t.subset(4)
    if not 1 < len(s) < 3 or not 1 < len(k) < 4:
        t.infeasible()
    L, Y = m.states, m.symbols
    r0 = t.call(m.restrict, s, k)
    for a, b in ((s, [Y[i] for i in k]), ([L[i] for i in s], k), ([L[i] for i in s[::-1]], [Y[i] for i in k[::-1]]), (s[::-1], k[1:] + k[:1])):
        r = t.call(m.restrict, a, b)
        t.same(r[0], r0[0], f'restrict {a} {b}')
        if r[0] == 'ok':
            x, y = r[1], r0[1]
            t.same([sorted(x.states), sorted(x.symbols)], [sorted(y.states), sorted(y.symbols)], 'labels of the restriction')
            u, v = [x.states.index(z) for z in y.states], [x.symbols.index(z) for z in y.symbols]
            t.closem([[x.p[i, j] for j in u] for i in u], y.p, 'restriction', 0)
            t.closem([[x.e[i, j] for j in v] for i in u], y.e, 'restriction (emissions)', 0)
            t.cover('restricted')
    # the spelling of the lists does not matter, whatever order they are in
    for a, b in ((s, k), (s[::-1], k), (s, k[::-1]), (s[::-1], k[1:] + k[:1])):
        r = [t.call(m.restrict, x, y) for x in (a, [L[i] for i in a], [numpy.int64(i) for i in a]) for y in (b, [Y[i] for i in b])]
        for q in r[1:]:
            t.same(q[0], r[0][0], f'restrict {a} {b}')
            if q[0] == 'ok':
                x, y = q[1], r[0][1]
                t.same([x.states, x.symbols], [y.states, y.symbols], f'restrict {a} {b}: order of labels')
                t.closem(x.p, y.p, f'restrict {a} {b}', 0)
                t.closem(x.e, y.e, f'restrict {a} {b} (emissions)', 0)
    i = t.integer('i', -BIG, BIG)
    t.assume_or(i < 0, i >= 4)
    t.rejects(m.restrict, [s[0], i], None, msg='state out of range', kind=BAD)
    t.rejects(m.restrict, None, [k[0], i], msg='symbol out of range', kind=BAD)
    for x in ([], [0], [0, 0], [L[0], L[0]], [0, L[1]], [True, 1], [0.0, 1.0], [0, None], [L[0], 'zz'], (0, 1), [[0, 1]], 0, L[0]):
        t.rejects(m.restrict, x, msg=f'restriction to the states {x!r}', kind=BAD)
    for x in ([], [0], [0, 0], [Y[0], Y[0]], [0, Y[1]], [True, 1], [0.0, 1.0], [0, None], [Y[0], 'zz'], (0, 1), [[0, 1]], 0, Y[0]):
        t.rejects(m.restrict, None, x, msg=f'restriction to the symbols {x!r}', kind=BAD)
    t.rejects(m.restrict, None, None, msg='no restriction', kind=BAD)


ENUMS = {
    'committor_type': lambda t, m, x: m.committor_probabilities(x, [0], [1]),
    'cutoff_type': lambda t, m, x: m.mixing_time(cutoff_type=x),
    'aggregation': lambda t, m, x: m.aggregate(2, x),
    'approximation': lambda t, m, x: t.api.MarkovChain.approximation(3, x, 0.0, 1.0, 0.5),
    'quadrature': lambda t, m, x: t.api.MarkovChain.fit_function(x, ['a', 'b'], lambda a, b, c, d: 1.0),
    'fitting': lambda t, m, x: t.api.MarkovChain.fit_sequence(x, ['a', 'b'], ['a', 'b', 'a']),
    'population': lambda t, m, x: t.api.MarkovChain.population_genetics_model(x, 3),
    'urn': lambda t, m, x: t.api.MarkovChain.urn_model(x, 3),
    'boundary': lambda t, m, x: m.to_bounded_chain(x),
    'hmm next': lambda t, m, x: t.hmm([[1, 0], [0, 1]], [[1, 0], [0, 1]]).next(0, x),
    'hmm predict': lambda t, m, x: t.hmm([[1, 0], [0, 1]], [[1, 0], [0, 1]]).predict(x, [0, 1]),
}
FLAGS = {
    'closest_reversible': lambda t, m, x: m.closest_reversible(None, x),
    'next': lambda t, m, x: m.next(0, x),
    'predict': lambda t, m, x: m.predict(2, 0, x),
    'redistribute': lambda t, m, x: m.redistribute(2, 0, x),
    'simulate': lambda t, m, x: m.simulate(2, 0, output_indices=x),
    'decode': lambda t, m, x: t.hmm([[1, 0], [0, 1]], [[1, 0], [0, 1]]).decode([0, 1], use_scaling=x),
    'dirichlet': lambda t, m, x: t.api.MarkovChain.dirichlet_process(3, 1, shift_concentration=x),
    'mle': lambda t, m, x: t.api.MarkovChain.fit_sequence('mle', ['a', 'b'], ['a', 'b', 'a'], x),
}


def enums(t):
    P, m = model3(t, 1)
    if t.flag():
        name = t.pick(list(ENUMS))
        for x in ('', 'zz', 'FORWARD', ' forward', 0, None, True, ['forward']):
            if name in ('boundary',) and x in (0, True) and not isinstance(x, bool):
                continue
            t.rejects(ENUMS[name], t, m, x, msg=f'{name}: {x!r}', kind=BAD)
    else:
        name = t.pick(list(FLAGS))
        for x in (0, 1, 'True', 1.0, [True]):
            t.rejects(FLAGS[name], t, m, x, msg=f'{name}: {x!r}', kind=BAD)


HARNESSES = [
    Harness('one', one, quick=[{'hmm': 0}, {'hmm': 1}], must_cover=('in range', 'out of range')),
    Harness('large', large, quick=[{'n': 11, 'ops': ('conditional_probabilities', 'is_accessible', 'next', 'predict', 'redistribute', 'transition_probability', 'hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to', 'to_subchain')},
                                   {'n': 11, 'hmm': True, 'ops': ('emission_probability', 'transition_probability', 'decode')}, {'n': 11, 'hmm': True, 'ops': ('next',)}],
            thorough=[{'n': 11, 'ops': tuple(sorted({x.split()[0] for x in ONE}))}, {'n': 12, 'hmm': True, 'ops': ('emission_probability', 'transition_probability', 'decode', 'predict')}, {'n': 12, 'hmm': True, 'ops': ('next', 'simulate')}], must_cover=('large',), path_s=20.0),
    Harness('odd', odd, quick=[{'hmm': 0}, {'hmm': 1}]),
    Harness('many', many, must_cover=('list',)),
    Harness('many_bad', many_bad),
    Harness('sequences', sequences, must_cover=('sequence',)),
    Harness('status', status, must_cover=('unit', 'valid')),
    Harness('integers', integers, must_cover=('below', 'above', 'accepted')),
    Harness('partitions', partitions, must_cover=('partition',)),
    Harness('restrict', restrict, must_cover=('restricted',)),
    Harness('enums', enums),
]
