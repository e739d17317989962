"""C21 Dictionary, matrix and graph conversions round-trip"""
import itertools
from fractions import Fraction

import networkx as nx

from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, structured_hmm, NAMES, TINY

BOUNDS = 'chains with n=2,3 states (every zero pattern; thorough: n=4 with at most two successors) and hidden Markov models with 2..3 states and 2..3 symbols (every zero pattern with at most two successors), every positive value of the entries; non-negative matrices and weighted graphs with entries 0 or in [1e-13, 10] (every zero pattern); row sums off by more than 1e-4 for the rejections; exact real arithmetic; structured chains and hidden Markov models with 7..11 states and up to 10 symbols (thorough up to 25)'
OUTSIDE = 'weights below 1e-13; parallel edges of multigraphs; other larger models'
TINIEST = Fraction(1, 10 ** 13)
SY = {2: ['y', 'x'], 3: ['z', 'x', 'y']}


def same_model(t, m, P, labels, E=None, symbols=None, msg=''):
    t.same(list(m.states), labels, f'{msg}: states')
    t.closem(m.p, P, f'{msg}: transition matrix', 1e-12)
    if E is not None:
        t.same(list(m.symbols), symbols, f'{msg}: symbols')
        t.closem(m.e, E, f'{msg}: emission matrix', 1e-12)


def mc(t, n, max_succ=None):
    mc_verdict(t, *chain(t, n, False, max_succ, n < 4, lo=TINY))


def mc_large(t, n):
    mc_verdict(t, *structured(t, n, ('line', 'star', 'blocks'))[:3])


def mc_verdict(t, P, m, labels):
    n = len(P)
    C = t.api.MarkovChain
    d = m.to_dictionary()
    t.same(list(d), [(a, b) for a in labels for b in labels], 'dictionary keys')
    t.closem(list(d.values()), [x for r in P for x in r], 'dictionary values', 0)
    m2 = C.from_dictionary(d)
    same_model(t, m2, P, labels, msg='dictionary')
    t.check(m2 == m, 'the model from the dictionary is equal')
    # the order of the items does not change which probability belongs to which pair
    rd = {k: d[k] for k in reversed(list(d))}
    m3 = C.from_dictionary(rd)
    t.same(m3.states, labels[::-1], 'labels of the reversed dictionary')
    t.closem(m3.p, [[P[n - 1 - i][n - 1 - j] for j in range(n)] for i in range(n)], 'reversed dictionary', 0)
    M = m.to_matrix()
    t.closem(M, P, 'matrix', 0)
    same_model(t, C.from_matrix(M, labels), P, labels, msg='matrix')
    G = m.to_graph()
    t.same(list(G.nodes), labels, 'nodes')
    S = sp.supp(P)
    t.same(sorted(G.edges), sorted((labels[i], labels[j]) for i in range(n) for j in S[i]), 'edges')
    for i in range(n):
        for j in S[i]:
            t.close(G.edges[labels[i], labels[j]]['weight'], P[i][j], 'weight', 0)
    same_model(t, C.from_graph(G), P, labels, msg='graph')
    same_model(t, m, P, labels, msg='source')
    t.cover('converted')


def weights(t, n, m, name, allow_zero_rows=True, lo=TINIEST):
    """non-negative matrix: every zero pattern"""
    W, z = [], t.const(0)
    for i in range(n):
        b = t.choose(1 << m) if allow_zero_rows else 1 + t.choose((1 << m) - 1)
        W.append([t.real(f'{name}{i}{j}', lo, 10) if b >> j & 1 else z for j in range(m)])
    return W


def norm(t, W):
    out = []
    for r in W:
        k = len(r)
        if all(sp.zero(x) for x in r):
            out.append([t.const(1) / k] * k)
        else:
            s = sp.total(r)
            out.append([x / s for x in r])
    return out


def matrix(t, n):
    W = weights(t, n, n, 'w')
    labels = t.pick(NAMES[n]) if n == 2 else NAMES[n][-1]
    A = t.arr(W)
    m = t.api.MarkovChain.from_matrix(A, labels)
    same_model(t, m, norm(t, W), labels, msg='normalised matrix')
    t.closem(A, W, 'the argument is unchanged', 0)
    m = t.api.MarkovChain.from_matrix(A)
    t.same(m.states, [str(i + 1) for i in range(n)], 'default labels')
    if any(all(sp.zero(x) for x in r) for r in W):
        t.cover('null row')


def graph(t, n):
    labels = NAMES[n][-1]
    W = weights(t, n, n, 'w')
    kind = t.choose(2) if n == 2 else sum(sum(not sp.zero(x) for x in r) for r in W) % 2
    G = nx.MultiDiGraph() if kind else nx.DiGraph()
    G.add_nodes_from(labels)
    for i in range(n):
        for j in range(n):
            if not sp.zero(W[i][j]):
                G.add_edge(labels[i], labels[j], weight=t.val(W[i][j]))
    m = t.api.MarkovChain.from_graph(G)
    same_model(t, m, norm(t, W), labels, msg='weighted graph')
    t.cover('graph')


def hmm(t, n, k, max_succ=None, vary='P'):
    labels, symbols = NAMES[n][-1], SY[k]
    if vary == 'P':
        P = t.stochastic(n, max_succ=max_succ, lo=TINY)
        E = t.stochastic(n, k, 'E', supp=[[0]] + [list(range(k))] * (n - 1))
    elif vary == 'E':
        P = t.stochastic(n, supp=[list(range(n))] * (n - 1) + [[0]])
        E = t.stochastic(n, k, 'E', max_succ=max_succ, lo=TINY)
    else:
        P, E = t.stochastic(n, max_succ=max_succ, lo=TINY), t.stochastic(n, k, 'E', max_succ=max_succ, lo=TINY)
    hmm_verdict(t, P, E, t.hmm(P, E, labels, symbols), labels, symbols)


def hmm_large(t, n, k):
    hmm_verdict(t, *structured_hmm(t, n, k, 1, seqs=1)[:5])


def hmm_verdict(t, P, E, m, labels, symbols):
    n, k = len(P), len(E[0])
    H = t.api.HiddenMarkovModel
    d = m.to_dictionary()
    want = {('P', labels[i], labels[j]): P[i][j] for i in range(n) for j in range(n)}
    want.update({('E', labels[i], symbols[j]): E[i][j] for i in range(n) for j in range(k)})
    t.same(sorted(d), sorted(want), 'keys')
    for q, v in want.items():
        t.close(d[q], v, f'entry {q}', 0)
    m2 = H.from_dictionary(d)
    same_model(t, m2, P, labels, E, symbols, 'dictionary')
    t.check(m2 == m, 'equal')
    rd = {q: d[q] for q in reversed(list(d))}
    m3 = H.from_dictionary(rd)
    t.same([sorted(m3.states), sorted(m3.symbols)], [sorted(labels), sorted(symbols)], 'labels of the reversed dictionary')
    a, b = [labels.index(x) for x in m3.states], [symbols.index(x) for x in m3.symbols]
    t.closem(m3.p, [[P[i][j] for j in a] for i in a], 'reversed dictionary', 0)
    t.closem(m3.e, [[E[i][j] for j in b] for i in a], 'reversed dictionary (emissions)', 0)
    M = m.to_matrices()
    t.closem(M[0], P, 'matrices', 0)
    t.closem(M[1], E, 'matrices', 0)
    same_model(t, H.from_matrices(M[0], M[1], labels, symbols), P, labels, E, symbols, 'matrices')
    G = m.to_graph()
    same_model(t, H.from_graph(G), P, labels, E, symbols, 'graph')
    t.same(len(G.edges), sum(len(r) for r in sp.supp(P)) + sum(len(r) for r in sp.supp(E)), 'edges')
    same_model(t, m, P, labels, E, symbols, 'source')
    t.cover('converted')


def matrices(t, n, k):
    labels, symbols = NAMES[n][-1], SY[k]
    V = weights(t, n, n, 'v')
    # independent rows: the emission pattern follows the transition pattern
    z = t.const(0)
    W = [[z if (sum(1 for x in V[i] if sp.zero(x)) + i + j) % 3 == 0 or all(sp.zero(x) for x in V[n - 1 - i]) else t.real(f'w{i}{j}', TINIEST, 10) for j in range(k)] for i in range(n)]
    H = t.api.HiddenMarkovModel
    m = H.from_matrices(t.arr(V), t.arr(W), labels, symbols)
    same_model(t, m, norm(t, V), labels, norm(t, W), symbols, 'normalised matrices')
    m = H.from_matrices(t.arr(V), t.arr(W))
    t.same([m.states, m.symbols], [[f'P{i + 1}' for i in range(n)], [f'E{j + 1}' for j in range(k)]], 'default labels')
    G = nx.DiGraph()
    G.add_nodes_from(labels, layer=1)
    G.add_nodes_from(symbols, layer=0)
    for i in range(n):
        for j in range(n):
            if not sp.zero(V[i][j]):
                G.add_edge(labels[i], labels[j], type='P', weight=t.val(V[i][j]))
        for j in range(k):
            if not sp.zero(W[i][j]):
                G.add_edge(labels[i], symbols[j], type='E', weight=t.val(W[i][j]))
    m = H.from_graph(G)
    same_model(t, m, norm(t, V), labels, norm(t, W), symbols, 'weighted graph')
    t.cover('matrices')


BAD = ('ValidationError', 'ValueError')


def bad_dictionary(t, n):
    P, m, labels = chain(t, n, False, 2, False)
    C = t.api.MarkovChain
    d = m.to_dictionary()
    keys = list(d)
    what = t.pick(['missing', 'sum', 'negative', 'above', 'nan', 'size'])
    if what == 'missing':
        k = t.pick(keys)
        del d[k]
        t.rejects(C.from_dictionary, d, msg=f'without {k}', kind=BAD)
    elif what == 'sum':
        k = t.pick(keys)
        x = t.real('x', 0, 1)
        t.assume_or(x - d[k] >= Fraction(1, 10000), x - d[k] <= -Fraction(1, 10000))
        d[k] = t.val(x)
        t.rejects(C.from_dictionary, d, msg=f'row of {k} does not sum to one', kind=BAD)
    elif what == 'negative':
        i = t.choose(n)
        x = t.real('x', -2, 0)
        t.assume(x <= -Fraction(1, 1000))
        d[labels[i], labels[(i + 1) % n]] = t.val(x)
        d[labels[i], labels[i]] = t.val(1 - x)
        for j in range(n):
            if j not in (i, (i + 1) % n):
                d[labels[i], labels[j]] = 0.0
        t.rejects(C.from_dictionary, d, msg='negative probability', kind=BAD)
    elif what == 'nan':
        d[t.pick(keys)] = float('nan')
        t.rejects(C.from_dictionary, d, msg='not a number', kind=BAD)
    elif what == 'size':
        t.rejects(C.from_dictionary, {}, msg='empty', kind=BAD)
        t.rejects(C.from_dictionary, {('a', 'a'): 1.0}, msg='one state', kind=BAD)
    else:
        d[t.pick(keys)] = t.val(t.real("x", Fraction(1001, 1000), 5))
        t.rejects(C.from_dictionary, d, msg='probability above one', kind=BAD)


def bad_hmm(t):
    n, k = 2, 2
    labels, symbols = NAMES[n][-1], SY[k]
    P, E = t.stochastic(n), t.stochastic(n, k, 'E', supp=[[0, 1], [1]])
    m = t.hmm(P, E, labels, symbols)
    H = t.api.HiddenMarkovModel
    d = m.to_dictionary()
    keys = list(d)
    key = t.pick(keys)
    what = t.pick(['missing', 'sum', 'above', 'kind'])
    if what == 'missing':
        del d[key]
        t.rejects(H.from_dictionary, d, msg=f'without {key}', kind=BAD)
    elif what == 'sum':
        x = t.real('x', 0, 1)
        t.assume_or(x - d[key] >= Fraction(1, 10000), x - d[key] <= -Fraction(1, 10000))
        d[key] = t.val(x)
        t.rejects(H.from_dictionary, d, msg=f'row of {key} does not sum to one', kind=BAD)
    elif what == 'kind':
        d[('X',) + key[1:]] = d.pop(key)
        t.rejects(H.from_dictionary, d, msg='unknown kind', kind=BAD)
    else:
        d[key] = t.val(t.real("x", Fraction(1001, 1000), 5))
        t.rejects(H.from_dictionary, d, msg='above one', kind=BAD)


def bad_matrix(t):
    C, H = t.api.MarkovChain, t.api.HiddenMarkovModel
    x = t.real('x', -5, 0)
    t.assume(x <= -Fraction(1, 1000))
    o = t.const(1)
    k = t.choose(8)
    if k == 0:
        t.rejects(C.from_matrix, t.arr([[o, x], [o, o]]), msg='negative')
    elif k == 1:
        t.rejects(C.from_matrix, t.arr([[o, o, o], [o, o, o]]), msg='not square')
    elif k == 2:
        t.rejects(C.from_matrix, t.arr([[o]]), msg='one state')
    elif k == 3:
        t.rejects(C.from_matrix, [[1.0, float('nan')], [0.5, 0.5]], msg='nan')
    elif k == 4:
        t.rejects(H.from_matrices, t.arr([[o, o], [o, o]]), t.arr([[o, x], [o, o]]), msg='negative')
    elif k == 5:
        t.rejects(H.from_matrices, t.arr([[o, o], [o, o]]), t.arr([[o, o], [o, o], [o, o]]), msg='rows')
    elif k == 6:
        t.rejects(H.from_matrices, t.arr([[o, o], [o, o]]), t.arr([[o], [o]]), msg='columns')
    else:
        t.rejects(H.from_matrices, t.arr([[o, o], [o, o]]), t.arr([[o, o], [o, o]]), ['a', 'b'], ['b', 'c'], msg='shared names')
    G = nx.DiGraph()
    G.add_nodes_from(['a', 'b'])
    G.add_edge('a', 'b', weight=t.val(x))
    t.rejects(C.from_graph, G, msg='negative weight')


HARNESSES = [
    Harness('mc', mc, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 2}, {'n': 3}, {'n': 4, 'max_succ': 2}], must_cover=('converted',)),
    Harness('matrix', matrix, quick=[{'n': 2}, {'n': 3}], must_cover=('null row',)),
    Harness('graph', graph, quick=[{'n': 2}, {'n': 3}], must_cover=('graph',)),
    Harness('hmm', hmm, quick=[{'n': 2, 'k': 2, 'vary': 'PE'}, {'n': 2, 'k': 3, 'vary': 'PE'}, {'n': 3, 'k': 2, 'max_succ': 2, 'vary': 'P'}, {'n': 2, 'k': 3, 'vary': 'E'}], thorough=[{'n': 2, 'k': 2, 'vary': 'PE'}, {'n': 2, 'k': 3, 'vary': 'PE'}, {'n': 3, 'k': 2, 'vary': 'P'}, {'n': 3, 'k': 3, 'vary': 'E'}], must_cover=('converted',)),
    Harness('matrices', matrices, quick=[{'n': 2, 'k': 2}, {'n': 3, 'k': 2}], thorough=[{'n': 2, 'k': 3}, {'n': 3, 'k': 2}], must_cover=('matrices',)),
    Harness('mc_large', mc_large, quick=[{'n': 11}], thorough=[{'n': 11}, {'n': 25}], must_cover=('converted',)),
    Harness('hmm_large', hmm_large, quick=[{'n': 11, 'k': 10}], thorough=[{'n': 11, 'k': 14}, {'n': 12, 'k': 3}, {'n': 3, 'k': 12}], must_cover=('converted',)),
    Harness('bad_dictionary', bad_dictionary, quick=[{'n': 2}], thorough=[{'n': 2}, {'n': 3}]),
    Harness('bad_hmm', bad_hmm),
    Harness('bad_matrix', bad_matrix),
]
