"""The Clojure hypergraph: what its operations and queries answer, over any history."""
import contextlib
import os

from hypothesis import strategies as st

import cljhg
import gen
from cljhg import Hg
from model import Model, agree, all_edges, apply_real, canon, same_edges, vertices_of
from vf import Prop, expect, expect_eq, scratch_dir

cljhg.runtime().require('graphbrain.hg.sqlite')
cljhg.runtime().require('graphbrain.hg.beliefs')

RULE = ('Cases are histories of up to 10 operations (add, remove, several at once, batches, remove by pattern, destroy) over a pool of related edges, run by the Clojure code over '
        'SQLite, with all queries compared to a set of edges after each. Non-trivial: some edge is stored and another one was removed.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc and math.combinatorics that follow the versions in project.clj: the '
               'sandbox has no Clojure', 'edges are vectors of 2 to 5 elements: symbols, long integers, doubles and edges; symbols are those of the edge notation without '
               'characters outside of the basic plane, and do not read as numbers']


def plain(x):
    if isinstance(x, tuple):
        return all(plain(e) for e in x)
    if isinstance(x, str):
        return all(ord(c) < 0xd7ff or 0xe000 <= ord(c) < 0xffff for c in x) and not x.strip('-.0123456789E+') == ''
    return not isinstance(x, int) or -2 ** 63 <= x < 2 ** 63


def in_domain(case):
    return all(plain(x) for x in case['atoms'] + case['edges'])


@contextlib.contextmanager
def store():
    with scratch_dir() as d:
        try:
            yield os.path.join(d, 'gb.db')
        finally:
            cljhg.close()


def patterns(case):
    out = []
    for e in case['edges']:
        out += [e[:1] + (None,) * (len(e) - 1), (None,) * (len(e) - 1) + e[-1:], (None,) * len(e), e + (None,), e[:-1] + (None, None)]
        if len(e) > 2:
            out += [e[:2], (None,) + e[1:], e[:1] + (None,) + e[2:]]
    return list({canon(p): p for p in out}.values())


def history(case, rec):
    """Membership, patterns, stars, degrees, timestamps, symbols with a root and f-all, after each operation."""
    with store() as path:
        hg = Hg(path)
        model = Model()
        removed = False
        vs = vertices_of(case)
        for op in case['ops']:
            before = set(model.edges)
            apply_real(hg, op)
            model.apply(op)
            removed = removed or bool(before - set(model.edges))
            agree(hg, model, vs, case['edges'], what='after %r: ' % (op,))
        agree(hg, model, [], [e[:-1] for e in case['edges'] if len(e) > 2] + [e + e[:1] for e in case['edges']] + [e[::-1] for e in case['edges']], patterns(case), 'at the end: ')
        finish(hg, model, case)
        cljhg.close()
        hg = Hg(path)
        agree(hg, model, vs, case['edges'], what='opened again: ')
        rec.nontrivial(removed and len(model.edges) > 0)
        rec.label('stored %s' % min(len(model.edges), 6))


def finish(hg, model, case):
    same_edges(all_edges(hg), model.edges.values(), 'stored edges')
    roots = {v.split('/')[0] for v in case['atoms'] if isinstance(v, str)} | {'zz'}
    for r in sorted(roots):
        if r and not r.startswith('http') and plain(r):
            expect_eq(hg.symbols_with_root(r), model.symbols_with_root(r), 'symbols-with-root %r' % r)
    seen = hg.f_all(lambda m: (m['vertex'], m['degree']))
    got = {}
    for v, d in seen:
        expect(canon(v) not in got, 'f-all visits %r twice', v)
        got[canon(v)] = d
    for c, v in model.vertex.items():
        if c in model.edges or model.deg.get(c, 0) > 0:
            expect(got.get(c) == model.deg.get(c, 0), 'f-all: %r has degree %r, expected %r', v, got.get(c), model.deg.get(c, 0))
    for c, d in got.items():
        expect(d == model.deg.get(c, 0), 'f-all: %r has degree %r, expected %r', c, d, model.deg.get(c, 0))


class Boom(Exception):
    pass


def batches(case, rec):
    """The functions of a batch see what was written before them; a batch that fails leaves no trace."""
    hist, fail, nested = case
    with store() as path:
        hg = Hg(path)
        model = Model()
        ops = hist['ops']
        half = len(ops) // 2
        for op in ops[:half]:
            apply_real(hg, op)
            model.apply(op)
        inner = model.copy()
        calls = []

        def run(i, op):
            def f(h):
                calls.append(i)
                apply_real(h, op)
                inner.apply(op)
                agree(h, inner, hist['atoms'], hist['edges'], what='in the batch, after %r: ' % (op,))
                if nested and i == 0:
                    h.batch_exec([lambda h2: None])
            return f
        funs = [run(i, op) for i, op in enumerate(ops[half:])]

        def boom(h):
            raise cljhg.JEx('java.lang.Exception', 'boom')
        if fail:
            funs.append(boom)
        failed = False
        try:
            hg.batch_exec(funs)
        except cljhg.JEx as e:
            failed = True
            expect(fail and e.msg == 'boom', 'batch: %s', e)
        expect_eq(failed, fail, 'the batch failed')
        expect_eq(calls, list(range(len(ops) - half)), 'functions called')
        if not fail:
            model = inner
        agree(hg, model, vertices_of(hist), hist['edges'], what='after the batch: ')
        hg.add(('after/1', 'a', 'b'), 3)
        expect(hg.exists(('after/1', 'a', 'b')), 'not usable after the batch')
        rec.nontrivial(len(ops) - half > 1)
        rec.label('fails' if fail else 'succeeds')


def null(case, rec):
    """The null storage takes everything and answers that nothing is there."""
    hg = Hg(hg=cljhg.fn('graphbrain.hg.connection', 'create')(cljhg.kw('null'), 'x'))
    model = Model()
    for op in case['ops']:
        if op[0] != 'batch':
            apply_real(hg, op)
    agree(hg, model, vertices_of(case), case['edges'], patterns(case), timestamps=False)
    for v in vertices_of(case):
        expect_eq(hg.timestamp(v), -1, 'timestamp')
    rec.nontrivial(len(case['ops']) > 2)


def apart(case, rec):
    """Stores in different files are apart; the connection of `create` is to the file it names."""
    one, two = case
    create = cljhg.fn('graphbrain.hg.connection', 'create')
    with scratch_dir() as d:
        try:
            hgs = [Hg(hg=create(cljhg.kw('sqlite'), os.path.join(d, n))) for n in ('a.db', 'b.db')]
            models = [Model(), Model()]
            for i, op in [(0, o) for o in one['ops']] + [(1, o) for o in two['ops']]:
                apply_real(hgs[i], op)
                models[i].apply(op)
            for hg, m, c in zip(hgs, models, (one, two)):
                agree(hg, m, vertices_of(c), one['edges'] + two['edges'])
            rec.nontrivial(all(m.edges for m in models))
        finally:
            cljhg.close()
    bad = None
    try:
        create(cljhg.kw('nothing'), 'x')
    except cljhg.JEx as e:
        bad = e
    expect(bad is not None, 'create with an unknown type of storage did not raise')


def ego(case, rec):
    """ego is the edges within a number of steps, each from an entity to those at the other places of its edges."""
    hist, depth = case
    with store() as path:
        hg = Hg(path)
        model = Model()
        for e in hist['edges']:
            hg.add([e])
            model.add(e)
        for center in vertices_of(hist):
            got = cljhg.fn('graphbrain.hg.ops', 'ego')(hg.hg, cljhg.to_clj(center), depth)
            want = walk(model, center, depth)
            same_edges(cljhg.edge_set(got, 'ego'), want.values(), 'ego of %r at depth %s' % (center, depth))
            if depth > 1 and len(want) > len(model.star(center)):
                rec.nontrivial(True)


def close_by(case, rec):
    """Symbols that others begin with: what is right after them in the order of the storage is not theirs."""
    atoms, shapes = case
    edges = list(dict.fromkeys(tuple(atoms[i % len(atoms)] for i in shape) for shape in shapes))
    edges += [(('x', e), 'y') if i % 3 == 2 else e[:-1] + (('x', e[-1]),) for i, e in enumerate(edges[:3])]
    with store() as path:
        hg = Hg(path)
        model = Model()
        hg.add(edges)
        for e in edges:
            model.add(e)
        vs = atoms + [e for e in edges] + [('x', a) for a in atoms]
        patterns = [(a, None) for a in atoms] + [(a, None, None) for a in atoms] + [(None, a) for a in atoms] + [e[:i] + (None,) + e[i + 1:] for e in edges for i in range(len(e))]
        agree(hg, model, vs, edges, patterns, timestamps=False)
        for a in atoms:
            if '/' not in a and plain(a):
                expect_eq(hg.symbols_with_root(a), model.symbols_with_root(a), 'symbols-with-root %r' % a)
        rec.nontrivial(True)


def walk(model, center, depth):
    """As (set (flatten ...)) reads edges: what is reached is the atoms, at any depth, of the elements after the first."""
    if depth <= 0:
        return {}
    out = {}
    ids = {}
    for e in model.star(center):
        out[canon(e)] = e
        for x in gen.leaves(e[1:]):
            ids[canon(x)] = x
    for x in ids.values():
        out.update(walk(model, x, depth - 1))
    return out


TAILS = ['', '!', '"', '#', '.', '/', '/1', '0', '/0', '/!', "'", '(b)', '-']
CLOSE = st.tuples(st.tuples(st.sampled_from(['a', 'is', 'a/1', 'dog/wn', '\u00e9', 'f(x)', '1a']), st.lists(st.sampled_from(TAILS), min_size=2, max_size=5, unique=True)).map(
    lambda t: [t[0] + x for x in t[1]]), st.lists(st.lists(st.integers(0, 9), min_size=2, max_size=3), min_size=1, max_size=5))

HISTORY = gen.history(max_ops=8, max_arity=4, max_edges=5, min_ops=2).filter(in_domain)
SMALL = gen.history(max_ops=6, max_arity=4, max_edges=4, min_ops=2).filter(in_domain)

SELF = ('self/1', 'a', 'a', 'b', 'a')
MENTION = ('says/1', 'mary/1', ('is', 'a', 'b'))
EX = [{'atoms': ['a', 'b', 'is'], 'edges': [SELF, ('is', 'a', 'b'), MENTION, (('is', 'a', 'b'), 'x', 'a')],
       'ops': [('add', SELF, 1), ('add', MENTION, 2), ('add', ('is', 'a', 'b'), 3), ('addn', [(('is', 'a', 'b'), 'x', 'a')], 4), ('remove', ('is', 'a', 'b')), ('remove', SELF)]},
      {'atoms': ['-', '.', 10 ** 12, -7.0, 1e20, 2.5e-10], 'edges': [('-', '.', 'a'), ('size', 'a', 10 ** 12), ('size', 'a', -7.0), ('size', 1e20, 2.5e-10)],
       'ops': [('addn', [('-', '.', 'a'), ('size', 'a', 10 ** 12), ('size', 'a', -7.0), ('size', 1e20, 2.5e-10)], 5), ('remove', ('-', '.', 'a'))]}]

def many(case, rec):
    """Vertices of many edges."""
    n, root, at = case
    edges = [('is', root + '/%d' % i, 'hub') if i % 3 else ('likes', 'hub', ('is', root + '/%d' % i, 'hub')) for i in range(n)]
    gone = edges[at::7]
    with store() as path:
        hg = Hg(path)
        model = Model()
        hg.add(edges)
        for e in edges:
            model.add(e, hg.timestamp(e))
        hg.remove(gone)
        for e in gone:
            model.remove(e)
        same_edges(hg.pattern2edges((None, None, None)), model.pattern((None, None, None)), 'all of %d edges' % n)
        for p in (('is', None, 'hub'), (None, 'hub', None), (None, None, 'hub'), ('is', None, None)):
            same_edges(hg.pattern2edges(p), model.pattern(p), '%r, of %d edges' % (p, n))
        same_edges(hg.star('hub'), model.star('hub'), 'star of a vertex of %d edges' % n)
        expect_eq(set(hg.symbols_with_root(root)), set(model.symbols_with_root(root)), 'symbols with the root %s, of %d edges' % (root, n))
        for v in ('hub', 'is', 'likes'):
            expect_eq(hg.degree(v), model.degree(v), 'degree of %s, of %d edges' % (v, n))
        rec.nontrivial(True)


PROPS = [
    Prop('history', HISTORY, history, quick=60, thorough=1500, examples=EX),
    Prop('batches', st.tuples(SMALL, st.booleans(), st.booleans()), batches, quick=30, thorough=600),
    Prop('null', SMALL, null, quick=10, thorough=60),
    Prop('apart', st.tuples(SMALL, SMALL), apart, quick=10, thorough=100),
    Prop('close_by', CLOSE, close_by, quick=60, thorough=1500),
    Prop('ego', st.tuples(SMALL, st.integers(0, 3)), ego, quick=20, thorough=400),
    Prop('many', st.tuples(st.sampled_from([150, 320, 520]), st.sampled_from(['dog', 'a_b']), st.integers(0, 6)), many, quick=1, thorough=20, examples=[(520, 'dog', 3)]),
]
