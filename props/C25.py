"""C25 Queries never change a model, its arguments or each other"""
from fractions import Fraction

import networkx as nx
import numpy

from engine import spec as sp
from engine.run import Harness

BOUNDS = 'every ordered pair of operations (all the properties and methods of a model but plotting, file output and the numerical searches listed outside), the result and the arguments of the first being overwritten before the second; chains of 3 states on four supports (irreducible aperiodic, periodic, absorbing, reducible; thorough: all the supports with at most two successors) and hidden Markov models with 3 states and 2 symbols, every positive value of the entries (exact real arithmetic); constructors and generators: arguments overwritten afterwards'
OUTSIDE = 'histories of three or more calls that no pair reveals; concurrent use; aggregate, closest_reversible, HiddenMarkovModel.fit, spectral quantities (eigenvalues are not encoded)'

SUPP = {'ergodic': [[0, 1], [1, 2], [0]], 'periodic': [[1], [0, 2], [1]], 'absorbing': [[0], [0, 2], [2]], 'reducible': [[1], [0, 1], [0, 2]], 'transient': [[0], [0, 2], [1, 2]]}
L = ['c', 'a', 'b']
Y = ['y', 'x']


def vec(t, xs):
    return t.arr([[t.const(x) for x in xs]])[0]


def mc_ops(t, P):
    """name -> arguments, built anew for every call"""
    Q = [[Fraction(1, 4), Fraction(1, 4), Fraction(1, 2)], [0, Fraction(1, 2), Fraction(1, 2)], [1, 0, 0]]
    o = {n: None for n in ('absorbing_states', 'accessibility_matrix', 'adjacency_matrix', 'communicating_classes', 'communication_matrix', 'cyclic_classes', 'cyclic_states', 'density', 'determinant', 'entropy_rate', 'entropy_rate_normalized', 'fundamental_matrix', 'incidence_matrix', 'is_absorbing', 'is_aperiodic', 'is_canonical', 'is_doubly_stochastic', 'is_ergodic', 'is_irreducible', 'is_regular', 'is_reversible', 'is_stochastically_monotone', 'is_symmetric', 'kemeny_constant', 'lumping_partitions', 'n', 'p', 'period', 'periods', 'pi', 'rank', 'recurrent_classes', 'recurrent_states', 'size', 'states', 'stationary_distributions', 'topological_entropy', 'transient_classes', 'transient_states')}
    d = lambda: vec(t, [Fraction(1, 2), Fraction(1, 4), Fraction(1, 4)])
    w = lambda: vec(t, [1, 2, -1])
    o.update({
        'absorption_probabilities': lambda: [], 'mean_absorption_times': lambda: [], 'mean_number_visits': lambda: [], 'mean_recurrence_times': lambda: [],
        'are_communicating': lambda: ['a', 2], 'is_accessible': lambda: ['b', 0], 'is_absorbing_state': lambda: ['a'], 'is_cyclic_state': lambda: [1], 'is_recurrent_state': lambda: ['b'], 'is_transient_state': lambda: [2],
        'committor_probabilities': lambda: ['forward', ['c'], ['b', 'a']], 'conditional_probabilities': lambda: ['a'],
        'expected_rewards': lambda: [2, w()], 'expected_transitions': lambda: [2, d()],
        'first_passage_probabilities': lambda: [2, 0, ['b', 'a']], 'first_passage_reward': lambda: [2, 'c', [1], w()],
        'hitting_probabilities': lambda: [['b', 'c']], 'hitting_times': lambda: [[2, 1]],
        'lump': lambda: [[['c'], ['a', 'b']]],
        'mean_first_passage_times_between': lambda: [['b', 'a'], ['c']], 'mean_first_passage_times_to': lambda: [['b', 'c']],
        'merge_with': lambda: [t.mc(Q, L), 0.25],
        'next': lambda: ['c'], 'predict': lambda: [2, 0], 'redistribute': lambda: [2, d(), False],
        'sensitivity': lambda: ['a'], 'sequence_probability': lambda: [['c', 'a', 'b']], 'simulate': lambda: [2, 'a'],
        'time_correlations': lambda: [['c', 'a', 'b'], ['a', 'a', 'c'], [2, 1]], 'time_relaxations': lambda: [['c', 'a', 'b'], d(), [1, 0]],
        'to_bounded_chain': lambda: ['reflecting'], 'to_canonical_form': lambda: [], 'to_dictionary': lambda: [], 'to_graph': lambda: [], 'to_lazy_chain': lambda: [d()], 'to_matrix': lambda: [], 'to_nth_order': lambda: [2], 'to_subchain': lambda: [['b', 'c']],
        'transition_probability': lambda: ['b', 'c'], '__str__': lambda: [], '__hash__': lambda: [], '__eq__': lambda: [t.mc(Q, L)],
    })
    return o


def hmm_ops(t):
    d = lambda: vec(t, [Fraction(1, 2), Fraction(1, 4), Fraction(1, 4)])
    o = {n: None for n in ('e', 'is_ergodic', 'is_regular', 'k', 'n', 'p', 'size', 'states', 'symbols')}
    o.update({'decode': lambda: [['y', 'x', 'x'], d()], 'decode unscaled': lambda: [['y', 'x', 'x'], d(), False], 'emission_probability': lambda: ['y', 'a'], 'next': lambda: ['c'], 'predict': lambda: ['map', [0, 1], d()], 'predict mle': lambda: ['mle', ['x', 'y'], d(), True],
              'restrict': lambda: [['b', 'c'], None], 'simulate': lambda: [2, 'a', None, 'x'], 'to_dictionary': lambda: [], 'to_graph': lambda: [], 'to_matrices': lambda: [], 'transition_probability': lambda: ['b', 'c'], '__str__': lambda: [], '__hash__': lambda: []})
    return o


# answers that cannot be modified: asked one after the other
SCALAR = ('is_absorbing', 'is_aperiodic', 'is_canonical', 'is_doubly_stochastic', 'is_ergodic', 'is_irreducible', 'is_regular', 'is_reversible', 'is_stochastically_monotone', 'is_symmetric', 'density', 'determinant', 'entropy_rate', 'entropy_rate_normalized', 'kemeny_constant', 'n', 'k', 'period', 'rank', 'size', 'topological_entropy', 'is_accessible', 'are_communicating', 'is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'transition_probability', 'emission_probability', '__str__', '__hash__')


def snap(x):
    """a copy of an argument or result that shares nothing with it"""
    if isinstance(x, numpy.ndarray):
        return numpy.array(x.tolist(), dtype=object)
    if isinstance(x, list):
        return [snap(y) for y in x]
    if isinstance(x, tuple):
        return tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, nx.Graph):
        return ('graph', sorted(map(str, x.nodes)), sorted((str(a), str(b), str(d.get('type'))) for a, b, d in x.edges(data=True)), [x.edges[e]['weight'] for e in sorted(x.edges)])
    if callable(x):
        return None
    if hasattr(x, 'to_dictionary'):
        return ('model', type(x).__name__, [list(x.states)], snap(x.p), snap(getattr(x, 'e', None)), snap(getattr(x, 'symbols', None)))
    return x


def agree(t, a, b, msg):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        t.same(len(a), len(b), f'{msg}: length')
        for k, (x, y) in enumerate(zip(a, b)):
            agree(t, x, y, f'{msg}[{k}]')
    elif isinstance(a, dict) and isinstance(b, dict):
        t.same(list(a), list(b), f'{msg}: keys')
        for k in a:
            agree(t, a[k], b[k], f'{msg}[{k}]')
    elif isinstance(a, numpy.ndarray) and isinstance(b, numpy.ndarray):
        t.same(a.shape, b.shape, f'{msg}: shape')
        for k, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
            agree(t, x, y, f'{msg}[{k}]')
    elif a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        t.same(a, b, msg)
    elif isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        t.same(a != a, b != b, msg)
    else:
        t.close(a, b, msg, 1e-12)


def trash(x):
    if isinstance(x, numpy.ndarray):
        if x.ndim and x.flags.writeable and x.size:
            x[...] = 7
    elif isinstance(x, list):
        for y in x:
            trash(y)
        x[:] = x[::-1] + ['junk']
        if len(x) > 1:
            del x[0]
    elif isinstance(x, tuple):
        for y in x:
            trash(y)
    elif isinstance(x, dict):
        for y in x.values():
            trash(y)
        x.clear()
    elif isinstance(x, nx.Graph):
        for e in x.edges:
            x.edges[e]['weight'] = 7
        x.remove_nodes_from(list(x.nodes)[:1])


def run(t, m, name, args):
    attr = name.split()[0]
    if args is None:
        return t.call(lambda: getattr(m, attr)), []
    a = args()
    before = snap(a)
    if attr in ('next', 'simulate'):
        t.rewind()
    r = t.call(getattr(m, attr), *a)
    if attr == 'simulate' or attr == 'next':
        t.rewind()
    agree(t, snap(a), before, f'{name}: arguments')
    return r, a


def show(r):
    return (r[0], snap(r[1])) if r[0] == 'ok' else r[:2]


def pair(t, new, ops, check, chunk=1):
    names = list(ops)
    two = t.pick(names)
    scalars = [k for k in names if k in SCALAR]
    rest = [k for k in names if k not in SCALAR]
    groups = [rest[k:k + chunk] for k in range(0, len(rest), chunk)] + [[scalars]]
    g = t.pick(groups)
    ref = show(run(t, new(), two, ops[two])[0])
    for one in g:
        m = new()
        for o in one if isinstance(one, list) else [one]:
            r, a = run(t, m, o, ops[o])
            if r[0] == 'ok':
                trash(r[1])
            trash(a)
        got = show(run(t, m, two, ops[two])[0])
        agree(t, got, ref, f'{two} after {one}')
        check(m, f'{one}, {two}')
    t.cover('pair')


def mc(t, supp, chunk=8, skip=(), lo=None, hi=None):
    if supp is None:
        P = t.stochastic(3, max_succ=2, param='w')
    else:
        P = t.stochastic(3, supp=SUPP[supp], param='w', lo=lo, hi=hi)
    new = lambda: t.mc(P, list(L))
    ops = {k: v for k, v in mc_ops(t, P).items() if k not in skip}

    def check(m, msg):
        t.closem(m.p, P, f'{msg}: transition matrix', 0)
        t.same(m.states, L, f'{msg}: states')

    pair(t, new, ops, check, chunk=chunk)


def hmm(t, chunk=4, lo=None, hi=None):
    P = t.stochastic(3, supp=SUPP['ergodic'], param='w', lo=lo, hi=hi)
    E = t.stochastic(3, 2, 'E', supp=[[0, 1], [1], [0]], param='w', lo=lo, hi=hi)
    new = lambda: t.hmm(P, E, list(L), list(Y))
    ops = hmm_ops(t)

    def check(m, msg):
        t.closem(m.p, P, f'{msg}: transition matrix', 0)
        t.closem(m.e, E, f'{msg}: emission matrix', 0)
        t.same([m.states, m.symbols], [L, Y], f'{msg}: labels')

    pair(t, new, ops, check, chunk=chunk)


def builders(t):
    C, H = t.api.MarkovChain, t.api.HiddenMarkovModel
    P = t.stochastic(3, supp=SUPP['ergodic'], param='w')
    E = t.stochastic(3, 2, 'E', supp=[[0, 1], [1], [0]], param='w')
    W = [[x * 3 for x in r] for r in P]
    nan = float('nan')

    def graph(hmm):
        G = nx.DiGraph()
        G.add_nodes_from(L, layer=1)
        for i in range(3):
            for j in SUPP['ergodic'][i]:
                G.add_edge(L[i], L[j], weight=t.val(W[i][j]), type='P')
        if hmm:
            G.add_nodes_from(Y, layer=0)
            for i in range(3):
                for j in range(2):
                    if not sp.zero(E[i][j]):
                        G.add_edge(L[i], Y[j], weight=t.val(E[i][j]), type='E')
        return G

    def mask(n, m):
        M = [[1] + [0] * (m - 1) for _ in range(n)]
        M[1] = [nan] * 2 + [0] * (m - 2)
        return t.arr(M)

    v = lambda xs: t.arr([[t.val(x) for x in xs]])[0]
    q = Fraction(1, 4)
    return {
        'MarkovChain': (C, lambda: [t.arr(P), list(L)]),
        'MarkovChain lists': (C, lambda: [[[t.val(x) for x in r] for r in P], list(L)]),
        'HiddenMarkovModel': (H, lambda: [t.arr(P), t.arr(E), list(L), list(Y)]),
        'from_matrix': (C.from_matrix, lambda: [t.arr(W), list(L)]),
        'from_matrices': (H.from_matrices, lambda: [t.arr(W), t.arr(E), list(L), list(Y)]),
        'from_dictionary': (C.from_dictionary, lambda: [t.mc(P, list(L)).to_dictionary()]),
        'hmm from_dictionary': (H.from_dictionary, lambda: [t.hmm(P, E, list(L), list(Y)).to_dictionary()]),
        'from_graph': (C.from_graph, lambda: [graph(False)]),
        'hmm from_graph': (H.from_graph, lambda: [graph(True)]),
        'fit_sequence': (C.fit_sequence, lambda: ['map', list(L), ['a', 'c', 'b', 'a'], t.arr([[2, 1, 3], [1, 1, 2], [4, 1, 1]])]),
        'fit_sequence mle': (C.fit_sequence, lambda: ['mle', list(L), [1, 0, 2, 1]]),
        'fit_function': (C.fit_function, lambda: ['newton-cotes', list(L), lambda x_index, x_value, y_index, y_value: 1.0, (0.0, 2.0)]),
        'estimate': (H.estimate, lambda: [list(L), list(Y), ['a', 'c', 'b', 'a'], ['y', 'x', 'x', 'y']]),
        'identity': (C.identity, lambda: [3, list(L)]),
        'gamblers_ruin': (C.gamblers_ruin, lambda: [3, 0.5, list(L)]),
        'birth_death': (C.birth_death, lambda: [v([q, q, 0]), v([0, q, q]), list(L)]),
        'population_genetics_model': (C.population_genetics_model, lambda: ['wright-fisher', 2, 0.25, 0.125, 0.125, list(L)]),
        'urn_model': (C.urn_model, lambda: ['ehrenfest', 1, list(L)]),
        'approximation': (C.approximation, lambda: [3, 'rouwenhorst', 0.0, 1.0, 0.5, list(L)]),
        'random': (C.random, lambda: [3, list(L), 0, mask(3, 3)]),
        'random zeros': (C.random, lambda: [3, list(L), 1, mask(3, 3)]),
        'hmm random': (H.random, lambda: [3, 2, list(L), 0, mask(3, 3), list(Y), 0, mask(3, 2)]),
        'hmm random zeros': (H.random, lambda: [3, 2, list(L), 1, mask(3, 3), list(Y), 1, mask(3, 2)]),
        'dirichlet_process': (C.dirichlet_process, lambda: [2, 1, list(L[:2])]),
    }


def inputs(t):
    b = builders(t)
    name = t.pick(list(b))
    f, args = b[name]
    a = args()
    before = snap(a)
    m = f(*a)
    agree(t, snap(a), before, f'{name}: arguments')
    first = snap(m)
    if 'from' not in name and 'fit_function' != name and name != 'estimate' and hasattr(m, 'states'):
        t.same(m.states, L[:m.size] if name == 'dirichlet_process' else L, f'{name}: states')
    trash(a)
    agree(t, snap(m), first, f'{name}: the model after its arguments are overwritten')
    d = m.to_dictionary()
    for i, x in enumerate(m.states):
        for j, y in enumerate(m.states):
            t.close(d[('P', x, y) if hasattr(m, 'symbols') else (x, y)], first[3][i][j], f'{name}: dictionary after the arguments are overwritten', 0)
    g = m.to_graph()
    for (i, x) in enumerate(m.states):
        for (j, y) in enumerate(m.states):
            w = g.edges[x, y]['weight'] if g.has_edge(x, y) else t.const(0)
            t.close(w, first[3][i][j], f'{name}: graph after the arguments are overwritten', 0)
    for attr in ('p', 'e', 'states', 'symbols', 'size', 'communicating_classes', 'to_dictionary', 'to_graph', 'to_matrix', 'to_matrices'):
        x = getattr(m, attr, None)
        trash(x() if callable(x) else x)
        agree(t, snap(m), first, f'{name}: the model after the result of {attr} is overwritten')
    t.cover('built')


HARNESSES = [
    Harness('mc', mc, quick=[{'supp': x, 'lo': 2, 'hi': 3} for x in ('ergodic', 'periodic', 'absorbing', 'reducible')], thorough=[{'supp': s} for s in SUPP], must_cover=('pair',), path_s=8.0),
    Harness('hmm', hmm, quick=[{'lo': 2, 'hi': 3}], thorough=[{}], must_cover=('pair',)),
    Harness('inputs', inputs, must_cover=('built',)),
]
