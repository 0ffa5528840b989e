"""The null backend stores nothing and accepts every operation."""

from hypothesis import strategies as st

import gen
from model import apply_real, close, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are histories applied to a hypergraph on the null backend, asked everything after each operation and compared to an empty SQLite store. '
        'Non-trivial: edges were added; or the answer can be changed by the caller, and was.')
ASSUMPTIONS = []


def plain(x):
    return sorted(map(repr, x)) if not isinstance(x, (bool, int)) else x


def run(case, rec):
    from gb.hypergraph.hypergraph import HyperGraph
    import gb.hypergraph.queries as queries
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    null, empty = HyperGraph({'backend': 'null'}), sqlite_hg()
    try:
        vs = vertices_of(case)
        for i, op in enumerate(case['ops']):
            calls = []
            if op[0] == 'batch':
                def fun(o):
                    def f(h):
                        calls.append(o)
                        apply_real(h, o)
                        expect(not any(h.exists(e) for e in case['edges']), 'within a batch, an edge is stored')
                    return f
                null.batch_exec([fun(o) for o in op[1]])
                expect(calls == list(op[1]), 'functions of the batch were called with %r, expected %r', calls, op[1])
            else:
                apply_real(null, op)
            if op[0] in ('add', 'addn', 'batch'):
                rec.nontrivial()
            for v in vs:
                for name in ('star', 'degree', 'timestamp', 'symbols_with_root', 'sources'):
                    arg = v
                    if name == 'symbols_with_root' and not isinstance(v, str):
                        continue
                    if name == 'sources' and not isinstance(v, tuple):
                        continue
                    a, b = getattr(null, name)(arg), getattr(empty, name)(arg)
                    expect(plain(a) == plain(b), 'after step %s, %s(%r) is %r', i, name, arg, a)
                expect(not null.ego(v, 2), 'ego(%r, 2) is not empty', v)
            for e in case['edges']:
                expect(null.exists(e) is False, 'after step %s, exists(%r) is %r', i, e, null.exists(e))
                expect(not null.pattern2edges(e) and not null.pattern2edges((None,) * len(e)), 'after step %s, a pattern of %r is found', i, e)
            seen = []
            expect(not list(null.f_all(lambda v: seen.append(v)) or []) and not seen, 'after step %s, f_all() visits %r', i, seen)
            expect(not queries.intersect(null, vs[:2]), 'intersect() finds something')
        for e in case['edges']:
            null.add_belief('mary/1', [e], 3)
            expect(not null.sources(e), 'sources(%r) is not empty', e)
            null.remove_belief('mary/1', e) if not isinstance(e[0], tuple) else None
        bhg = BatchHyperGraph(null, 2)
        for e in case['edges']:
            bhg.add([e])
        bhg.flush()
        expect(not any(null.exists(e) for e in case['edges']), 'an edge is stored')
        null.destroy()
    finally:
        close(empty)


def apart(case, rec):
    """A null hypergraph does not affect others, nor they it."""
    from gb.hypergraph.hypergraph import HyperGraph
    from model import Model, agree
    null, other = HyperGraph({'backend': 'null'}), sqlite_hg()
    try:
        model = Model()
        for op in case['ops']:
            apply_real(other, op)
            model.apply(op)
            apply_real(null, op)
        null.destroy()
        agree(other, model, vertices_of(case), case['edges'], what='a store used next to a null one: ')
        expect(not any(null.exists(e) for e in case['edges']), 'an edge is stored')
        rec.nontrivial(len(model.edges) > 0)
    finally:
        close(other)


def given(case, rec):
    """What a caller does with an answer does not show in later answers, here or on another null hypergraph."""
    from gb.hypergraph.hypergraph import HyperGraph
    first, second = HyperGraph({'backend': 'null'}), HyperGraph({'backend': 'null'})
    edges, names = case

    def ask(h, name, e):
        if name == 'pattern2edges':
            return h.pattern2edges((None,) + e[1:])
        if name == 'ego':
            return h.ego(e, 2)
        if name == 'f_all':
            return h.f_all(lambda v: v)
        return getattr(h, name)(e)
    for name, e in zip(names, edges * len(names)):
        for h in (first, second, HyperGraph({'backend': 'null'})):
            got = ask(h, name, e)
            expect(not list(got if got is not None else []), '%s(%r) is %r', name, e, got)
            if isinstance(got, (set, list, dict)):
                rec.nontrivial()
                got.add(e) if isinstance(got, set) else got.append(e) if isinstance(got, list) else got.update({e: e})
    for e in edges:
        expect(first.exists(e) is False and first.degree(e) == 0, 'an edge is stored')


def many(case, rec):
    """Batches of many functions, and of functions that are made while the batch runs."""
    from gb.hypergraph.hypergraph import HyperGraph
    n, kind = case
    null = HyperGraph({'backend': 'null'})
    seen = []

    def function(i):
        def f(h):
            seen.append(i)
            h.add(('is', 'a', str(i)))
            expect(not h.exists(('is', 'a', str(i))), 'an edge is stored')
        return f
    funs = (function(i) for i in range(n)) if kind else [function(i) for i in range(n)]
    null.batch_exec(funs)
    expect(seen == list(range(n)), 'of %s functions, %s were called', n, len(seen))
    rec.nontrivial(n > 1)


NAMES = ['star', 'pattern2edges', 'symbols_with_root', 'sources', 'ego', 'f_all']
PROPS = [
    Prop('given', st.tuples(gen.edge_pool(max_size=3, max_arity=3).map(lambda p: p[1]), st.lists(st.sampled_from(NAMES), min_size=2, max_size=12)), given, 500, 5000),
    Prop('history', gen.history(max_ops=8, max_arity=4), run, 1500, 25000),
    Prop('many', st.tuples(st.integers(0, 400), st.booleans()), many, 60, 600, examples=[(2500, False)]),
    Prop('apart', gen.history(max_ops=6, max_arity=3), apart, 300, 4000),
]
