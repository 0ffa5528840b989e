"""ego(): the edges reached within a number of steps."""
from hypothesis import strategies as st

import again
import gen
from model import Model, apply_real, canon, close, same_edges, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are stores built by histories, and the ego networks of all entities for depths 0 to 4, compared to a search over the edges of the '
        'model. Non-trivial: for some entity the networks of depth 1 and 2 differ, and that of depth 2 is not the whole store.')
ASSUMPTIONS = ['the edges of an ego network are connected by the entities they relate, not by their relationship (first element)']


@st.composite
def cases(draw):
    kind = draw(st.integers(0, 2))
    if kind == 0:
        case = draw(gen.history(max_ops=8, max_arity=4))
        case['depths'] = [0, 1, 2, 3, -1]
        return case
    # chains, stars and trees over few entities, with relationships that are entities too
    names = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'e', 'f/1', 'f/2', 'g', 7, 'is']), min_size=3, max_size=8, unique=True))
    rels = ['is', 'r/1', 'r/2', names[0]]
    pool = names + rels
    eds = []
    for _ in range(draw(st.integers(2, 10))):
        n = draw(st.sampled_from([1, 2, 2, 2, 3]))
        elem = st.sampled_from(names + eds) if eds and draw(st.integers(0, 3)) == 0 else st.sampled_from(names)
        e = (draw(st.sampled_from(rels)),) + tuple(draw(st.lists(elem, min_size=n, max_size=n)))
        if gen.depth(e) <= 3 and e not in eds:
            eds.append(e)
    return {'atoms': pool, 'edges': eds, 'ops': [('addn', eds, 1)], 'depths': [0, 1, 2, 3, 4]}


@st.composite
def chains(draw):
    """Long chains and rings, some with a branch."""
    n = draw(st.integers(3, 14))
    vs = ['v%s' % i for i in range(n)]
    if draw(st.booleans()):
        vs[draw(st.integers(0, n - 1))] = ('is', 'x')
    eds = [(draw(st.sampled_from(['r', 'is'])), a, b) if draw(st.booleans()) else ('r', b, a) for a, b in zip(vs, vs[1:])]
    if draw(st.integers(0, 2)) == 0:
        eds.append(('r', vs[-1], vs[0]))
    if draw(st.booleans()):
        eds.append(('r', vs[draw(st.integers(0, n - 1))], 'leaf'))
    return {'edges': eds, 'centers': draw(st.lists(st.sampled_from(vs), min_size=1, max_size=2)), 'depths': draw(st.lists(st.integers(0, 8), min_size=2, max_size=3))}


def long(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        hg.add(case['edges'])
        for e in case['edges']:
            model.add(e)
        for v in case['centers']:
            for d in case['depths']:
                got = hg.ego(v, d)
                same_edges(got, reach(model, v, d), 'ego(%r, %s)' % (v, d))
                rec.nontrivial(d > 4 and len(got) < len(model.edges))
    finally:
        close(hg)


def reach(model, center, depth):
    """Breadth-first: entities by the number of steps from the center."""
    seen = {canon(center)}
    layer = [center]
    found = {}
    for _ in range(depth):
        following = []
        for v in layer:
            for e in model.star(v):
                found[canon(e)] = e
                for x in e[1:]:
                    if canon(x) not in seen:
                        seen.add(canon(x))
                        following.append(x)
        layer = following
    return list(found.values())


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        for op in case['ops']:
            apply_real(hg, op)
            model.apply(op)
        for v in vertices_of(case):
            sizes = {}
            for d in case['depths']:
                if d > 2 and sizes.get(d - 1, 0) > 12:
                    continue        # the number of ways to walk grows too fast
                got = hg.ego(v, d)
                same_edges(got, reach(model, v, max(d, 0)), 'ego(%r, %s)' % (v, d))
                sizes[d] = len(got)
            expect(hg.ego(v, 1) == hg.star(v), 'ego(%r, 1) is not the star', v)
            if sizes.get(1, 0) < sizes.get(2, 0):
                rec.label('depth 2 adds to depth 1')
                rec.nontrivial(sizes[2] < len(model.edges))
            if sizes.get(2, 0) < sizes.get(3, 0):
                rec.label('depth 3 adds to depth 2')
            if sizes.get(3, 0) < sizes.get(4, 0):
                rec.label('depth 4 adds to depth 3')
    finally:
        close(hg)


def hub(case, rec):
    """Entities with many edges."""
    n, k, d = case
    hg = sqlite_hg()
    try:
        model = Model()
        eds = [('r', 'hub', 'n%s' % i) for i in range(n)] + [('r', 'n%s' % (i * 7 % n), 'm%s' % i) for i in range(k)] + [('r', 'm0', 'far')]
        hg.add(eds)
        for e in eds:
            model.add(e)
        for v in ('hub', 'm0', 'far'):
            same_edges(hg.ego(v, d), reach(model, v, d), 'ego(%r, %s)' % (v, d))
        rec.nontrivial(d > 1)
    finally:
        close(hg)


PROPS = [
    Prop('hub', st.tuples(st.integers(10, 60), st.integers(1, 60), st.integers(1, 2)), hub, 30, 200, examples=[(330, 330, 2)]),
    Prop('long', chains(), long, 250, 4000, examples=[{'edges': [('r', 'v%s' % i, 'v%s' % (i + 1)) for i in range(14)], 'centers': ['v0'], 'depths': [6, 9]}]),
    Prop('search', cases(), run, 1200, 25000, examples=[
        {'atoms': ['a', 'b', 'c', 'd', 'e'], 'edges': [('r', 'a', 'b'), ('r', 'b', 'c'), ('r', 'c', 'd'), ('r', 'd', 'e')],
         'ops': [('addn', [('r', 'a', 'b'), ('r', 'b', 'c'), ('r', 'c', 'd'), ('r', 'd', 'e')], 1)], 'depths': [0, 1, 2, 3, 4]},
        {'atoms': ['a', 'b', 'c'], 'edges': [('r', 'a', 'b'), ('r', 'c', 'd'), ('x', 'r', 'd')],
         'ops': [('addn', [('r', 'a', 'b'), ('r', 'c', 'd'), ('x', 'r', 'd')], 1)], 'depths': [0, 1, 2, 3]}]),
    again.prop(('ego',), 500, 10000),
]
