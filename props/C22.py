"""C22 Saving to a file and loading it back gives the same model"""
import itertools
import json
import os
import tempfile
from fractions import Fraction
from xml.sax.saxutils import quoteattr

from engine import spec as sp
from engine.run import Harness
from props.common import chain, structured, structured_hmm, NAMES, TINY

BOUNDS = 'the four formats; chains with n=2,3 states (every zero pattern) and hidden Markov models with 2..3 states and 2..3 symbols (every zero pattern with at most two successors), every value of the positive entries in [1e-9, 1]; labels: a list of 17 awkward strings (delimiters, quotes, markup, keywords, white space inside or around, non-ASCII, long) at every position; files written by hand with the items in any order of two; invalid files: each missing item, each row sum off by more than 1e-4, each entry negative or above one, wrong structure; exact real arithmetic (the text of a double is assumed to be read back as the same double, as str and float guarantee; formatting with fewer digits is modelled as loss); structured chains and hidden Markov models with 7..11 states and up to 10 symbols (thorough up to 25)'
OUTSIDE = 'labels with control characters other than tab, line feed and carriage return (XML cannot represent them), or that the encoding of the platform cannot represent; file system failures; other larger models'

BAD = ('ValidationError', 'ValueError')
EXT = ['csv', 'json', 'txt', 'xml']
ODD = ['a,b', '"', "'q'", 'a"b"', '<&>', '&amp;', '?>', '"/>', '<Item', '<MarkovChain>', 'é€漢', '1', '0.5', 'E_P_', 'x' * 60, '#a', '\\n;|']
WS = ['a b', ' a', 'a ', 'a\tb', 'a\nb', 'a" />', ' , ', 'a\r\nb']
SY = {2: ['y', 'x'], 3: ['z', 'x', 'y']}


def trip(t, m, ext):
    with tempfile.TemporaryDirectory(prefix='pydtmc') as d:
        f = os.path.join(d, f'model.{ext}')
        m.to_file(f)
        return type(m).from_file(f)


def equal(t, m, P, labels, E=None, symbols=None):
    t.same(list(m.states), list(labels), 'states')
    t.closem(m.p, P, 'transition matrix', 0)
    if E is not None:
        t.same(list(m.symbols), list(symbols), 'symbols')
        t.closem(m.e, E, 'emission matrix', 0)


def mc(t, n, max_succ=None):
    mc_verdict(t, *chain(t, n, False, max_succ, False, lo=TINY))


def mc_large(t, n):
    mc_verdict(t, *structured(t, n, ('line', 'star', 'blocks'))[:3])


def mc_verdict(t, P, m, labels):
    ext = t.pick(EXT)
    m2 = trip(t, m, ext)
    equal(t, m2, P, labels)
    t.check(m2 == m, 'equal')
    equal(t, m, P, labels)
    t.cover(ext)


def hmm(t, n, k, max_succ=None, vary='PE'):
    labels, symbols = NAMES[n][-1], SY[k]
    P = t.stochastic(n, max_succ=max_succ, lo=TINY) if 'P' in vary else t.stochastic(n, supp=[list(range(n))] * (n - 1) + [[0]])
    E = t.stochastic(n, k, 'E', max_succ=max_succ, lo=TINY) if 'E' in vary else t.stochastic(n, k, 'E', supp=[[0]] + [list(range(k))] * (n - 1))
    hmm_verdict(t, P, E, t.hmm(P, E, labels, symbols), labels, symbols)


def hmm_large(t, n, k):
    hmm_verdict(t, *structured_hmm(t, n, k, 1, seqs=1)[:5])


def hmm_verdict(t, P, E, m, labels, symbols):
    ext = t.pick(EXT)
    m2 = trip(t, m, ext)
    equal(t, m2, P, labels, E, symbols)
    t.check(m2 == m, 'equal')
    t.cover(ext)


def odd(t, space):
    ext = t.pick(EXT)
    lab = t.pick(WS if space else ODD)
    at = t.choose(4)
    known = space and ext == 'txt'
    if known:
        t.known_tag = 'txt-whitespace'
    p, q, r = (t.real(f'p{i}', TINY, Fraction(999, 1000)) for i in range(3))
    P, E = [[p, 1 - p], [1 - q, q]], [[r, 1 - r], [t.const(0), t.const(1)]]
    labels, symbols = ['u', 'v'], ['w', 'y', ]
    (labels if at < 2 else symbols)[at % 2] = lab
    with tempfile.TemporaryDirectory(prefix='pydtmc') as d:
        for k in range(1 if at < 2 else 0, -1, -1):
            f = os.path.join(d, f'model.{ext}')
            m = t.mc(P, labels) if k else t.hmm(P, E, labels, symbols)
            m.to_file(f)
            r = t.call(type(m).from_file, f)
            if r[0] != 'ok':
                t.fail(f'the file of a model with the label {lab!r} is not readable: {r[1]} {r[2]}')
            equal(t, r[1], P, labels, *(() if k else (E, symbols)))
    t.cover(f'{ext}')


def text(t, x):
    return x if isinstance(x, str) else str(t.val(x))


def write(t, f, ext, items, hmm, root=None, flip=False):
    """a file with the documented layout, written without the code of the package"""
    keys = ('reference', 'element_from', 'element_to', 'probability') if hmm else ('state_from', 'state_to', 'probability')
    rows = [tuple(k) + (text(t, v),) for k, v in items]
    if ext == 'json':
        o = []
        for r in rows:
            p = [f'{json.dumps(a)}: {json.dumps(b) if a != "probability" else b}' for a, b in zip(keys, r)]
            o.append('{' + ', '.join(p[::-1] if flip else p) + '}')
        s = '[' + ',\n'.join(o) + ']'
    elif ext == 'txt':
        s = ''.join((('\t' if flip else ' ').join(r) + '\n') for r in rows)
    elif ext == 'xml':
        root = root or ('HiddenMarkovModel' if hmm else 'MarkovChain')
        o = []
        for r in rows:
            p = [f'{a}={quoteattr(b)}' for a, b in zip(keys, r)]
            o.append('<Item ' + ' '.join(p[::-1] if flip else p) + ' />')
        s = f'<?xml version="1.0" encoding="utf-8"?><{root}>' + ''.join(o) + f'</{root}>'
    else:
        g = {r[:-1]: r[-1] for r in rows}
        if hmm:
            st = [r[1] for r in rows if r[0] == 'P' and r[1] == r[2]]
            sy = [r[2] for r in rows if r[0] == 'E' and r[1] == st[0]]
            head = [('P', x) for x in st] + [('E', x) for x in sy]
            if flip:
                head = head[n_of(st):] + head[:n_of(st)]
            L = [','.join(f'{a}_{b}' for a, b in head)] + [','.join(g[a, x, b] for a, b in head) for x in st]
        else:
            st = [r[0] for r in rows if r[0] == r[1]]
            L = [','.join(st)] + [','.join(g[a, b] for b in st) for a in st]
        s = '\n'.join(L) + '\n'
    with open(f, 'w', newline='') as o:
        o.write(s)


def n_of(x):
    return len(x)


def model_items(t, hmm):
    p, q, r = (t.real(f'p{i}', TINY, Fraction(999, 1000)) for i in range(3))
    if not hmm:
        P = [[t.const(0), p, 1 - p], [t.const(0), t.const(0), t.const(1)], [q, (1 - q) / 2, (1 - q) / 2]]
        lab = ['c', 'a', 'b']
        return P, lab, None, None, [((lab[i], lab[j]), P[i][j]) for i in range(3) for j in range(3)]
    P, E = [[p, 1 - p], [1 - q, q]], [[r, t.const(0), 1 - r], [t.const(0), t.const(1), t.const(0)]]
    lab, sy = ['b', 'a'], ['z', 'x', 'y']
    it = [(('P', lab[i], lab[j]), P[i][j]) for i in range(2) for j in range(2)]
    return P, lab, E, sy, it + [(('E', lab[i], sy[j]), E[i][j]) for i in range(2) for j in range(3)]


ORDERS = ['given', 'reversed', 'rotated', 'odd-even', 'interleaved']


def by_hand(t, hmm):
    P, lab, E, sy, items = model_items(t, hmm)
    ext, order, flip = t.pick(EXT), t.pick(ORDERS), t.flag()
    if order == 'reversed':
        items = items[::-1]
    elif order == 'rotated':
        items = items[4:] + items[:4]
    elif order == 'odd-even':
        items = items[1::2] + items[::2]
    elif order == 'interleaved':
        h = (len(items) + 1) // 2
        items = [x for p in itertools.zip_longest(items[:h], items[h:][::-1]) for x in p if x is not None]
    with tempfile.TemporaryDirectory(prefix='pydtmc') as d:
        f = os.path.join(d, f'model.{ext}')
        write(t, f, ext, items, hmm, flip=flip)
        m = (t.api.HiddenMarkovModel if hmm else t.api.MarkovChain).from_file(f)
    t.same(sorted(m.states), sorted(lab), 'states')
    a = [lab.index(x) for x in m.states]
    t.closem(m.p, [[P[i][j] for j in a] for i in a], 'every item belongs to its pair of labels', 0)
    if hmm:
        t.same(sorted(m.symbols), sorted(sy), 'symbols')
        b = [sy.index(x) for x in m.symbols]
        t.closem(m.e, [[E[i][j] for j in b] for i in a], 'every item belongs to its pair of labels (emissions)', 0)
    t.cover(ext)


def bad(t, hmm):
    P, lab, E, sy, items = model_items(t, hmm)
    ext = t.pick(EXT)
    what = t.pick(['missing', 'sum', 'negative', 'above', 'text', 'nan', 'extra'])
    k = t.choose(len(items))
    key, v = items[k]
    if what == 'missing':
        if ext == 'csv':
            items[k] = (key, '')
        else:
            del items[k]
    elif what == 'extra':
        if ext == 'csv':
            t.infeasible()
        items.insert(k, (key[:-1] + ('unheard',), t.const(0)))
    elif what == 'text':
        items[k] = (key, '"x"' if ext == 'json' else 'x')
    elif what == 'nan':
        items[k] = (key, 'NaN')
    elif what == 'sum':
        x = t.real('x', 0, 1)
        t.assume_or(x - v >= Fraction(1, 10000), x - v <= -Fraction(1, 10000))
        items[k] = (key, x)
    else:
        # the rows still sum to one
        row = [i for i, (q, _) in enumerate(items) if q[:-1] == key[:-1]]
        x = t.real('x', Fraction(1, 1000), 2)
        for i in row:
            items[i] = (items[i][0], t.const(0))
        o = row[(row.index(k) + 1) % len(row)]
        if what == 'negative':
            items[k], items[o] = (key, -x), (items[o][0], 1 + x)
        else:
            items[k], items[o] = (key, 1 + x), (items[o][0], -x)
    with tempfile.TemporaryDirectory(prefix='pydtmc') as d:
        f = os.path.join(d, f'model.{ext}')
        write(t, f, ext, items, hmm)
        t.rejects((t.api.HiddenMarkovModel if hmm else t.api.MarkovChain).from_file, f, msg=f'{ext} file, {what}, item {key}', kind=BAD)
    t.cover(what)


def structure(t):
    hmm = t.flag()
    P, lab, E, sy, items = model_items(t, hmm)
    what = t.pick(['root', 'other-kind', 'no-list', 'renamed', 'short-line', 'long-line', 'empty', 'missing-file', 'extension', 'not-xml', 'not-json', 'one-state', 'dup-header', 'rows', 'columns', 'reference'])
    C = t.api.HiddenMarkovModel if hmm else t.api.MarkovChain
    with tempfile.TemporaryDirectory(prefix='pydtmc') as d:
        f = os.path.join(d, 'model.')

        def put(ext, s):
            with open(f + ext, 'w', newline='') as o:
                o.write(s)
            return f + ext

        exts = EXT
        if what == 'root':
            write(t, f + 'xml', 'xml', items, hmm, root='Chain')
            p = [f + 'xml']
        elif what == 'other-kind':
            for e in exts:
                write(t, f + e, e, items, hmm)
            C = t.api.MarkovChain if hmm else t.api.HiddenMarkovModel
            # the header of a chain may well be that of any csv file: only the number of rows differs
            p = [f + e for e in exts]
        elif what == 'no-list':
            p = [put('json', '{}'), ]
        elif what == 'renamed':
            p = []
            for e in ('json', 'xml'):
                write(t, f + e, e, items, hmm)
                with open(f + e) as o:
                    s = o.read()
                p.append(put(e, s.replace('probability', 'p')))
        elif what in ('short-line', 'long-line'):
            p = []
            for e in ('txt', 'csv'):
                write(t, f + e, e, items, hmm)
                with open(f + e) as o:
                    L = o.read().splitlines()
                L[-1] = L[-1].rsplit(' ' if e == 'txt' else ',', 1)[0] if what == 'short-line' else L[-1] + (' 0' if e == 'txt' else ',0')
                p.append(put(e, '\n'.join(L) + '\n'))
        elif what == 'empty':
            p = [put(e, '') for e in exts]
        elif what == 'missing-file':
            p = [f + e for e in exts]
        elif what == 'extension':
            write(t, f + 'txt', 'txt', items, hmm)
            os.rename(f + 'txt', f + 'dat')
            p = [f + 'dat']
        elif what == 'not-xml':
            p = [put('xml', '<MarkovChain><Item></MarkovChain>'), put('xml', '<MarkovChain><Other/></MarkovChain>')]
        elif what == 'not-json':
            p = [put('json', '[{"state_from": 1}')]
        elif what == 'one-state':
            it = [((lab[0], lab[0]), t.const(1))] if not hmm else [(('P', lab[0], lab[0]), t.const(1)), (('E', lab[0], 'x'), t.const(1))]
            for e in exts:
                write(t, f + e, e, it, hmm)
            p = [f + e for e in exts]
        elif what == 'dup-header':
            p = [put('csv', 'a,a\n0.5,0.5\n0.5,0.5\n' if not hmm else 'P_a,P_b,E_x,E_x\n0.5,0.5,0.5,0.5\n0.5,0.5,0.5,0.5\n')]
        elif what == 'rows':
            p = [put('csv', 'a,b\n0.5,0.5\n' if not hmm else 'P_a,P_b,E_x,E_y\n0.5,0.5,0.5,0.5\n')]
        elif what == 'columns':
            p = [put('csv', 'a,b\n0.5,0.5\n1.0\n' if not hmm else 'P_a,P_b,E_x,E_y\n0.5,0.5,0.5,0.5\n0.5,0.5,1\n')]
        else:
            if not hmm:
                t.infeasible()
            it = [((('Q',) + k[1:]) if k[0] == 'E' else k, v) for k, v in items]
            for e in ('json', 'txt', 'xml'):
                write(t, f + e, e, it, hmm)
            p = [f + e for e in ('json', 'txt', 'xml')]
        for x in p:
            t.rejects(C.from_file, x, msg=f'{what}: {x[-4:]}', kind=BAD + ('JSONDecodeError',))
    t.cover(what)


HARNESSES = [
    Harness('mc', mc, quick=[{'n': 2}, {'n': 3}], thorough=[{'n': 2}, {'n': 3}, {'n': 4, 'max_succ': 2}], must_cover=EXT),
    Harness('hmm', hmm, quick=[{'n': 2, 'k': 2}, {'n': 2, 'k': 3, 'vary': 'E'}, {'n': 3, 'k': 2, 'vary': 'P', 'max_succ': 2}], thorough=[{'n': 2, 'k': 3}, {'n': 3, 'k': 2, 'max_succ': 2}, {'n': 3, 'k': 3, 'vary': 'P'}], must_cover=EXT),
    Harness('mc_large', mc_large, quick=[{'n': 11}], thorough=[{'n': 11}, {'n': 25}], must_cover=EXT),
    Harness('hmm_large', hmm_large, quick=[{'n': 11, 'k': 10}], thorough=[{'n': 11, 'k': 14}, {'n': 12, 'k': 3}, {'n': 3, 'k': 12}], must_cover=EXT),
    Harness('odd_labels', odd, quick=[{'space': 0}, {'space': 1}], must_cover=('csv', 'json', 'xml')),
    Harness('by_hand', by_hand, quick=[{'hmm': 0}, {'hmm': 1}], must_cover=EXT),
    Harness('bad', bad, quick=[{'hmm': 0}, {'hmm': 1}]),
    Harness('structure', structure),
]
