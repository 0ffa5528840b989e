"""intersect(): the edges along the walks that join the seeds."""
from hypothesis import strategies as st

import again
import gen
from model import Model, canon, close, sqlite_hg
from vf import Prop, expect

RULE = ('Cases are small stores and lists of one to four seeds (related, unrelated, repeated, edges), compared to a reference search over the edges of '
        'the model; "hubs" has entities with 249 to 252 edges. Non-trivial: the result has an edge and is not the union of the neighbourhoods.')
ASSUMPTIONS = ['the result is a collection of edges, in no given order and perhaps with repetitions',
               'from an entity, a walk goes on to the arguments of the edges that contain it at any position']
LIMIT = 250


@st.composite
def cases(draw):
    names = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'e', 'f/1', 'g', 7]), min_size=3, max_size=6, unique=True))
    rels = ['is', 'r/1', names[0]]
    eds = []
    for _ in range(draw(st.integers(1, 8))):
        n = draw(st.sampled_from([1, 2, 2, 2, 2, 3]))
        elem = st.sampled_from(names + eds) if eds and draw(st.integers(0, 5)) == 0 else st.sampled_from(names)
        e = (draw(st.sampled_from(rels)),) + tuple(draw(st.lists(elem, min_size=n, max_size=n)))
        if gen.depth(e) <= 2 and e not in eds:
            eds.append(e)
    seed = gen.pick(st.sampled_from(names), st.sampled_from(names), st.sampled_from(names), st.sampled_from(names + rels + eds + ['zzz']))
    return {'atoms': names, 'edges': eds, 'seeds': draw(st.lists(seed, min_size=1, max_size=4)), 'tuple': draw(st.booleans())}


@st.composite
def chains(draw):
    """Paths of different lengths between two or three seeds."""
    eds = []
    for p in range(draw(st.integers(1, 3))):
        inner = ['%s%s' % ('xyz'[p], i) for i in range(draw(st.integers(0, 3)))]
        path = ['s'] + inner + ['t']
        eds += [('r', a, b) if draw(st.booleans()) else ('r', b, a) for a, b in zip(path, path[1:])]
    if draw(st.booleans()):
        eds.append(draw(st.sampled_from([('q', 's', 'u'), ('q', 'x0', 'u'), ('q', 't', 'u'), ('q', 'x0', 'y0'), ('q', 's', 't', 'u')])))
    seeds = draw(st.sampled_from([['s', 't'], ['t', 's'], ['s', 't', 'u'], ['u', 's', 't'], ['x0', 't'], ['s', 'x0', 't'], ['s', 'y0']]))
    return {'atoms': [], 'edges': list(dict.fromkeys(eds)), 'seeds': seeds, 'tuple': False}


def neighbourhood(model, center):
    found = {}
    for e in model.star(center):
        found[canon(e)] = e
        for x in e[1:]:
            for f in model.star(x):
                found[canon(f)] = f
    return {c: e for c, e in found.items() if all(model.degree(x) <= LIMIT for x in e[1:])}


def reference(model, seeds):
    edges = {}
    for s in seeds:
        edges.update(neighbourhood(model, s))
    step = {}
    for e in edges.values():
        for v in e:
            step.setdefault(canon(v), set()).update(canon(x) for x in e[1:])
    targets = set(map(canon, seeds))
    found = []
    todo = [(canon(seeds[0]),)]
    while todo:
        walk = todo.pop()
        if targets <= set(walk):
            found.append(walk)
        else:
            todo += [walk + (v,) for v in step.get(walk[-1], ()) if v not in walk]
    shortest = {}
    for walk in found:
        for v in walk:
            shortest[v] = min(len(walk), shortest.get(v, len(walk)))
    kept = set(v for walk in found if all(v in targets or shortest[v] == len(walk) for v in walk) for v in walk)
    return edges, [e for e in edges.values() if all(canon(x) in kept for x in e[1:])]


def compare(hg, model, seeds, as_tuple, rec):
    import gb.hypergraph.queries as queries
    union, want = reference(model, seeds)
    arg = tuple(seeds) if as_tuple else list(seeds)
    got = queries.intersect(hg, arg)
    expect(list(arg) == list(seeds), 'intersect() changed the seeds to %r', arg)
    g, w = {canon(e): e for e in got}, {canon(e): e for e in want}
    expect(set(g) == set(w), 'intersect(%r): missing %r, unexpected %r', seeds,
           [w[c] for c in w if c not in g], [g[c] for c in g if c not in w])
    rec.nontrivial(0 < len(w) < len(union))
    rec.label('%s seeds' % len(set(map(canon, seeds))))
    rec.label('nothing' if not w else 'all' if len(w) == len(union) else 'some')


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        hg.add(case['edges'])
        for e in case['edges']:
            model.add(e)
        compare(hg, model, case['seeds'], case['tuple'], rec)
    finally:
        close(hg)


@st.composite
def hub_cases(draw):
    """An entity with a degree around the limit, in any place of the edges between the seeds."""
    names = st.sampled_from(['a', 'b', 'c', 'hub', 'hub'])
    rels = st.sampled_from(['r', 'r', 'hub', 'hub'])
    core = draw(st.lists(st.tuples(rels, names, names) | st.tuples(rels, names, names, names), min_size=1, max_size=4, unique=True))
    return draw(st.sampled_from([249, 250, 251, 251, 252])), core, draw(st.booleans()), draw(st.sampled_from([['a', 'b'], ['b', 'a'], ['a', 'c', 'b'], ['a', 'hub'], ['a']]))


def hubs(case, rec):
    """Edges with an argument of too high a degree are left out."""
    degree, core, argument, seeds = case
    hg = sqlite_hg()
    try:
        model = Model()
        eds = list(core)
        have = sum(e.count('hub') for e in eds)
        eds += [('q', 'hub') if argument and i == 0 else ('hub', 'n%s' % i) for i in range(degree - have)]
        hg.add(eds)
        for e in eds:
            model.add(e)
        compare(hg, model, seeds, False, rec)
        if any(e[0] == 'hub' for e in core):
            rec.label('hub as a relationship')
        rec.nontrivial()
    finally:
        close(hg)


PROPS = [
    Prop('search', gen.pick(cases(), chains()), run, 8000, 100000, examples=[
        {'atoms': [], 'edges': [('r', 'a', 'b'), ('r', 'b', 'c'), ('r', 'a', 'd'), ('r', 'd', 'e'), ('r', 'e', 'c')], 'seeds': ['a', 'c'], 'tuple': False}]),
    Prop('hubs', hub_cases(), hubs, 240, 2400, examples=[
        (n, [('r', 'a', 'hub'), ('r', 'hub', 'b'), ('r', 'a', 'c'), ('r', 'c', 'd'), ('r', 'd', 'b')], False, ['a', 'b']) for n in (250, 251)] + [
        (251, [('hub', 'a', 'c'), ('r', 'c', 'b')], False, ['a', 'b'])]),
    again.prop(('intersect',), 300, 5000),
]
