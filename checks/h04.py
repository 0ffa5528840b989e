"""The degree of an entity is the number of times it is an element of stored edges."""
from hypothesis import strategies as st

import again
import gen
from model import Model, all_edges, apply_real, canon, close, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are histories (adds, repeated adds, removes, removes of absent edges, batches, destroy); after each operation the '
        'degree of each entity of the pool is compared to a count over the edges in the model. Non-trivial: an edge was removed '
        'or added twice, or an entity occurs twice in an edge, or an edge is an element of another one.')
ASSUMPTIONS = ['an entity that occurs twice in an edge counts twice']


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        vs = vertices_of(case)
        for op in case['ops']:
            before = len(model.edges)
            stored = set(model.edges)
            apply_real(hg, op)
            model.apply(op)
            if len(model.edges) < before:
                rec.nontrivial()
                rec.label('removal')
            if op[0] == 'add' and canon(op[1]) in stored:
                rec.nontrivial()
                rec.label('added twice')
            count = model.recount()
            for v in vs:
                want = count.get(canon(v), 0)
                got = hg.degree(v)
                expect(got == want and type(got) is int, 'after %r: degree(%r) is %r, expected %r', op, v, got, want)
        for e in model.edges.values():
            if len(set(map(canon, e))) < len(e):
                rec.nontrivial()
                rec.label('repeated element')
            if model.degree(e) > 0:
                rec.nontrivial()
                rec.label('edge that is an element')
        # an independent recount, from the edges that the store has
        total = sum(len(e) for e in all_edges(hg))
        expect(sum(model.recount().values()) == total, 'the stored edges have %s elements', total)
        for v in ('never_added/1', ('never', 'added'), 987654321):
            if canon(v) in model.vertex:
                continue
            expect(hg.degree(v) == 0, 'degree(%r) is %r', v, hg.degree(v))
    finally:
        close(hg)


def hub(n, rec):
    hg = sqlite_hg()
    try:
        edges = [('r', 'hub', 'n%s' % i) for i in range(n)]
        hg.add(edges)
        hg.add(edges[: n // 2])
        expect(hg.degree('hub') == n and hg.degree('r') == n, 'degree of a hub of %s edges is %s', n, hg.degree('hub'))
        hg.remove(edges[: n // 3])
        hg.remove(edges[: n // 3])
        expect(hg.degree('hub') == n - n // 3, 'degree of a hub of %s edges is %s after removals', n - n // 3, hg.degree('hub'))
        rec.nontrivial()
    finally:
        close(hg)


@st.composite
def repeats(draw):
    """Few entities, several times in the same edges."""
    pool = draw(gen.atom_pool(1, 3))
    eds = []
    for _ in range(draw(st.integers(1, 3))):
        k = draw(st.sampled_from([2, 3, 4, 5, 5, 6]))
        e = tuple(draw(st.lists(st.sampled_from(pool + eds[:1]), min_size=k, max_size=k)))
        eds = eds if e in eds or gen.depth(e) > 3 or len(str(e)) > 900 else eds + [e]
    eds = eds or [(pool[0],) * 3]
    ops = gen.pick(gen.simple_ops(pool, eds), st.tuples(st.just('remove'), st.sampled_from(eds)), gen.all_ops(pool, eds))
    return {'atoms': pool, 'edges': eds, 'ops': [('addn', eds, 1)] + draw(st.lists(ops, min_size=1, max_size=3))}


PROPS = [
    Prop('repeats', repeats(), run, 300, 5000),
    Prop('history', gen.history(max_ops=14, max_arity=4), run, 1300, 25000, examples=[
        {'atoms': ['a', 'b'], 'edges': [('a', 'b'), ('r', ('a', 'b'), 'c')],
         'ops': [('add', ('r', ('a', 'b'), 'c'), 1), ('add', ('a', 'b'), 2), ('add', ('a', 'b'), 3), ('remove', ('a', 'b'))]}]),
    Prop('hub', st.integers(10, 300), hub, 12, 60, examples=[1200]),
    again.prop(('degree',), 300, 6000),
    again.huge_prop(('degree',)),
]
