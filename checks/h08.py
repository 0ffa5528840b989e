"""remove_by_pattern() removes what pattern2edges() finds, destroy() removes everything."""
from hypothesis import strategies as st

import again
import gen
from model import Model, agree, all_edges, apply_real, canon, close, is_collection, same_edges, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are stores built by histories, then reduced by a pattern or destroyed, and used again. Non-trivial: the pattern '
        'matches some, but not all, of the stored edges; or the destroyed store was not empty.')
ASSUMPTIONS = []


@st.composite
def cases(draw):
    c = draw(gen.history(max_ops=6, min_ops=2, max_arity=4))
    c['pattern'] = draw(gen.patterns(c['atoms'], c['edges']))
    c['after'] = draw(st.lists(gen.simple_ops(c['atoms'], c['edges']), max_size=5))
    return c


@st.composite
def nested(draw):
    """Stores of edges that are elements of each other, and patterns that match several of them."""
    pool = draw(gen.atom_pool(2, 4))
    eds = draw(gen.webs(pool, draw(st.integers(3, 7)), 3))
    ops = [('add', e, draw(gen.TIMESTAMPS)) for e in draw(st.permutations(eds))]
    ops += draw(st.lists(gen.simple_ops(pool, eds), max_size=2))
    n = draw(st.integers(2, 3))
    p = (draw(st.sampled_from(pool[:2] + [None])),) + tuple(draw(st.sampled_from([None, None, pool[0], pool[-1]])) for _ in range(n - 1))
    return {'atoms': pool, 'edges': eds, 'ops': ops, 'pattern': p,
            'after': draw(st.lists(gen.simple_ops(pool, eds), max_size=4))}


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        for op in case['ops']:
            apply_real(hg, op)
            model.apply(op)
        p = case['pattern']
        hit = model.pattern(p)
        if any(is_collection(e) for e in hit):
            rec.label('first element is an edge')
        n = len(model.edges)
        hg.remove_by_pattern(p)
        model.apply(('rmpat', p))
        same_edges(hg.pattern2edges(p), [], 'pattern2edges(%r) after the removal' % (p,))
        same_edges(all_edges(hg), model.edges.values(), 'remaining edges')
        agree(hg, model, vertices_of(case), case['edges'], what='after removing %r: ' % (p,))
        hg.remove_by_pattern(p)
        same_edges(all_edges(hg), model.edges.values(), 'remaining edges after a second time')
        for op in case['after']:
            apply_real(hg, op)
            model.apply(op)
        agree(hg, model, vertices_of(case), case['edges'], what='after more operations: ')
        rec.nontrivial(0 < len(hit) < n)
    finally:
        close(hg)


def destroy(case, rec):
    hg = sqlite_hg()
    fresh = sqlite_hg()
    try:
        model = Model()
        for op in case['ops']:
            apply_real(hg, op)
            model.apply(op)
        rec.nontrivial(len(model.edges) > 0)
        hg.destroy()
        vs = vertices_of(case)
        for v in vs:
            same_edges(hg.star(v), [], 'star(%r) after destroy()' % (v,))
            expect(hg.degree(v) == 0, 'degree(%r) is %r after destroy()', v, hg.degree(v))
            expect(hg.timestamp(v) == -1, 'timestamp(%r) is %r after destroy()', v, hg.timestamp(v))
            if isinstance(v, str):
                expect(hg.symbols_with_root(v) == set(), 'symbols_with_root(%r) after destroy()', v)
        for e in case['edges']:
            expect(hg.exists(e) is False, 'exists(%r) after destroy()', e)
        same_edges(all_edges(hg), [], 'edges after destroy()')
        visited = list(hg.f_all(lambda vm: vm['vertex']))
        expect(visited == [], 'vertices after destroy(): %r', visited)
        # as good as new
        model = Model()
        for op in case['after']:
            apply_real(hg, op)
            apply_real(fresh, op)
            model.apply(op)
        agree(hg, model, vs, case['edges'], what='used after destroy(): ')
        for v in vs:
            expect(hg.timestamp(v) == fresh.timestamp(v), 'timestamp(%r) is %r after destroy(), %r in a new store', v, hg.timestamp(v), fresh.timestamp(v))
    finally:
        close(hg)
        close(fresh)


def large(case, rec):
    """A pattern that matches many edges."""
    n, which, how = case
    hg = sqlite_hg()
    try:
        hit = [('rel/1', 'n%s' % i, 'hub/1') for i in range(n)]
        rest = [('rel/2', 'n%s' % i, 'hub/1') for i in range(0, n, 2)] + [('rel/1', 'n%s' % i, 'hub/12') for i in range(0, n, 3)]
        hg.add(hit + rest, 5)
        if how == 'destroy':
            hg.destroy()
            hit, rest = hit + rest, []
        elif how == 'batch':
            hg.batch_exec([lambda h: h.remove_by_pattern(('rel/1', None, 'hub/1'))])
        else:
            hg.remove_by_pattern(('rel/1', None, 'hub/1'))
        same_edges(hg.pattern2edges((None, None, None)), rest, 'edges after %s of %s' % (how, n))
        expect(hg.degree('hub/1') == len([e for e in rest if 'hub/1' in e]), 'degree of the hub is %s', hg.degree('hub/1'))
        for i in range(n):
            v = 'n%s' % i
            expect(hg.degree(v) == len([e for e in rest if e[1] == v]), 'degree(%r) is %s', v, hg.degree(v))
        e = hit[which % n]
        expect(not hg.exists(e) and hg.timestamp(e) == -1, '%r is still there', e)
        rec.nontrivial()
    finally:
        close(hg)


PROPS = [
    Prop('large', st.tuples(st.integers(20, 300), st.integers(0, 299), st.sampled_from(['pattern', 'pattern', 'batch', 'destroy'])), large, 20, 100,
         examples=[(1100, 1050, 'pattern')]),
    Prop('by_pattern', cases(), run, 2000, 30000),
    Prop('nested', nested(), run, 1500, 20000),
    Prop('destroy', cases(), destroy, 1200, 20000),
    again.prop('all', 500, 10000, ops=lambda pool, eds: gen.pick(st.just(('destroy',)), st.tuples(st.just('rmpat'), gen.patterns(pool, eds)), st.tuples(st.just('rmpat'), gen.patterns(pool, eds)), gen.simple_ops(pool, eds))),
]
