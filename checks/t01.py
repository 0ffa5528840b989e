"""Operations in a batch do the same as one after another, and see each other."""
import os

from hypothesis import strategies as st

import again
import gen
from model import Model, agree, apply_real, canon, close, observe, same_edges, sqlite_hg, vertices_of
from vf import Prop, expect, scratch_dir

RULE = ('Cases are trees of operations and queries run in (nested) batches on a store in a file; queries inside of the batch are '
        'compared to the model as it is at that point, and the final state to that of a store where the same operations ran one '
        'by one. Non-trivial: a batch has a write followed by a query, or a batch inside.')
ASSUMPTIONS = []


def steps(pool, eds):
    v = st.sampled_from(list(pool) + list(eds))
    query = st.one_of(
        st.tuples(st.just('?exists'), st.sampled_from(eds)),
        st.tuples(st.sampled_from(['?degree', '?timestamp', '?star']), v),
        st.tuples(st.sampled_from(['?degree', '?timestamp', '?star']), v),
        st.tuples(st.just('?pattern'), gen.patterns(pool, eds)),
        st.just(('?visit',)),
    )
    simple = gen.simple_ops(pool, eds)
    rare = st.one_of(st.tuples(st.just('rmpat'), gen.patterns(pool, eds)),
                     st.sampled_from([('destroy',), ('noop',), ('noop',), ('noop',)]))
    return gen.pick(simple, simple, simple, query, query, query, rare)


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=6, max_arity=4))
    step = steps(pool, eds)
    inner = st.tuples(st.just('batch'), st.lists(step, max_size=4))
    mid = st.tuples(st.just('batch'), st.lists(gen.pick(step, step, step, inner), max_size=6))
    ops = draw(st.lists(gen.pick(step, mid, mid), min_size=1, max_size=5))
    return {'atoms': pool, 'edges': eds, 'ops': ops}


def query(hg, model, op):
    name = op[0]
    if name == '?exists':
        expect(hg.exists(op[1]) is model.has(op[1]), 'in a batch exists(%r) is %r', op[1], hg.exists(op[1]))
    elif name == '?degree':
        expect(hg.degree(op[1]) == model.degree(op[1]), 'in a batch degree(%r) is %r, expected %r', op[1], hg.degree(op[1]), model.degree(op[1]))
    elif name == '?timestamp':
        want = model.timestamp(op[1])
        expect(want is None or hg.timestamp(op[1]) == want, 'in a batch timestamp(%r) is %r, expected %r', op[1], hg.timestamp(op[1]), want)
    elif name == '?star':
        same_edges(hg.star(op[1]), model.star(op[1]), 'in a batch star(%r)' % (op[1],))
    elif name == '?pattern':
        same_edges(hg.pattern2edges(op[1]), model.pattern(op[1]), 'in a batch pattern2edges(%r)' % (op[1],))
    elif name == '?visit':
        def visit(vm):
            v = vm['vertex']
            degree = hg.degree(v)
            expect(degree == vm['degree'], 'in a batch f_all() visits %r with degree %r, and degree() is %r', v, vm['degree'], degree)
            return v
        seen = [canon(v) for v in hg.f_all(visit)]
        expect(len(seen) == len(set(seen)), 'in a batch f_all() visits a vertex twice: %r', seen)
        for c in model.edges:
            expect(c in set(seen), 'in a batch f_all() does not visit %r', c)


class Problem(Exception):
    pass


def run_op(hg, model, op, calls):
    name = op[0]
    if name == 'batch':
        def fun(o):
            def f(h):
                calls.append(o)
                run_op(h, model, o, calls)
                return 'ignored'
            return f
        hg.batch_exec([fun(o) for o in op[1]])
    elif name.startswith('?'):
        query(hg, model, op)
    else:
        apply_real(hg, op)
        model.apply(op)


def flat(op):
    if op[0] == 'batch':
        return [x for o in op[1] for x in flat(o)]
    return [op]


def count(op):
    return 1 + sum(count(o) for o in op[1]) if op[0] == 'batch' else 1


def run(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg, plain = sqlite_hg(path), sqlite_hg()
        other = None
        try:
            model = Model()
            calls = []
            for op in case['ops']:
                run_op(hg, model, op, calls)
                for o in flat(op):
                    if not o[0].startswith('?'):
                        apply_real(plain, o)
            want = sum(count(op) - 1 for op in case['ops'])
            expect(len(calls) == want, '%s functions were called, expected %s', len(calls), want)
            vs = vertices_of(case)
            agree(hg, model, vs, case['edges'], what='after the batches: ')
            a, b = observe(hg, vs, case['edges']), observe(plain, vs, case['edges'])
            for k in a:
                if k[0] != 'timestamp':
                    expect(a[k] == b[k], '%s of %r is %r with batches, %r without', k[0], k[1], a[k], b[k])
            other = sqlite_hg(path)
            agree(other, model, vs, case['edges'], what='another handle after the batches: ')
            batches = [op for op in case['ops'] if op[0] == 'batch']
            for op in batches:
                fl = flat(op)
                writes = [i for i, o in enumerate(fl) if not o[0].startswith('?')]
                if writes and any(o[0].startswith('?') for o in fl[writes[0]:]):
                    rec.nontrivial()
                    rec.label('query after a write')
                if any(o[0] == 'batch' for o in op[1]):
                    rec.nontrivial()
                    rec.label('nested')
        finally:
            close(hg)
            close(plain)
            if other is not None:
                close(other)


def arguments(case, rec):
    """Each function is called once, in order, with the hypergraph that runs the batch."""
    n, kind = case
    hg = sqlite_hg()
    try:
        order = []
        funs = [lambda h, i=i: order.append((i, h)) for i in range(n)]
        hg.batch_exec(tuple(funs) if kind else funs)
        expect([i for i, _ in order] == list(range(n)), 'the functions were called in the order %r', [i for i, _ in order])
        for _, h in order:
            expect(all(hasattr(h, m) for m in ('add', 'remove', 'exists', 'star', 'degree', 'add_belief', 'sources', 'ego', 'remove_by_pattern')),
                   'the functions are given %r', h)
        rec.nontrivial(n > 1)
    finally:
        close(hg)


def large(case, rec):
    """A batch with many functions."""
    n, every, nested = case
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        other = sqlite_hg(path)
        try:
            edges = [('r/1', 'n%s' % (i % 50), i) for i in range(n)]
            seen = []

            def add(h, i):
                h.add(edges[i], i)
                if i % every == 0:
                    expect(h.degree('r/1') == i + 1, 'in a batch the degree is %s, expected %s', h.degree('r/1'), i + 1)
                    expect(h.exists(edges[0]) and h.exists(edges[i // 2]) and h.timestamp(edges[i // 2]) == i // 2, 'in a batch, an edge is not there after %s', i)
                    expect(other.degree('r/1') == 0, 'edges of a batch that is running are seen by another handle')
                seen.append(i)
            funs = [lambda h, i=i: add(h, i) for i in range(n)]
            if nested:
                funs = [lambda h, a=a: h.batch_exec(funs_of(a)) for a in range(0, n, nested)]

                def funs_of(a):
                    return [lambda h, i=i: add(h, i) for i in range(a, min(n, a + nested))]
            hg.batch_exec(funs)
            expect(seen == list(range(n)), 'the functions ran in another order, or not all of them')
            for h in (hg, other):
                same_edges(h.pattern2edges((None, None, None)), edges, 'edges after a batch of %s' % n)
                expect(h.degree('r/1') == n, 'the degree is %s, expected %s', h.degree('r/1'), n)
            rec.nontrivial()
        finally:
            close(hg)
            close(other)


PROPS = [
    Prop('large', st.tuples(st.one_of(st.integers(1, 8), st.integers(10, 250)), st.integers(1, 60), st.sampled_from([0, 0, 1, 7])), large, 36, 150, examples=[(1, 1, 0), (1, 1, 1), (2, 1, 7), (1100, 100, 0), (600, 50, 3)]),
    Prop('batches', cases(), run, 1500, 25000),
    Prop('arguments', st.tuples(st.integers(0, 20), st.booleans()), arguments, 60, 60),
    again.prop('all', 500, 8000, hows=('batch', 'batch', 'nested', 'call')),
]
