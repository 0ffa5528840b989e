"""Queries over the Clojure hypergraph: what a name means in a text, and the walks that join vertices."""
import itertools

from hypothesis import strategies as st

import cljhg
import gen
from c01 import plain, store
from cljhg import Hg, from_clj, to_clj
from clj import Seq, Vec, pr
from model import Model, canon
from vf import Prop, expect, expect_eq

RT = cljhg.runtime()
for ns in ('sqlite', 'queries'):
    RT.require('graphbrain.hg.' + ns)
RT.require('graphbrain.disambig.edgeguesser')
RT.require('graphbrain.graphs.graphtools')

RULE = ('Cases are small hypergraphs with a name and a text, or with the vertices to join, or lists of arcs. Non-trivial: more than one meaning is there to choose from; the vertices are '
        'joined by a walk; an arc is there twice.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc and math.combinatorics', 'parts of symbols are not empty',
               'no vertex of the hypergraphs that are searched has a degree over 250, but in one case']


def is_concept(x):
    return isinstance(x, str) and not x.startswith(('http://', 'https://'))


def words_of(model, sym):
    out = set()
    for e in model.star(sym):
        for x in e[1:]:
            for leaf in gen.leaves(x[1:] if isinstance(x, tuple) else (x,)):
                if is_concept(leaf):
                    out.update(w for w in leaf.split('/')[0].replace('_', ' ').split(' ') if w)
    return out


def load(path, edges):
    hg = Hg(path)
    model = Model()
    hg.add([e for e in edges])
    for e in edges:
        model.add(e)
    return hg, model


def meanings(model, name, text):
    """The symbols that a name may stand for; None if it gets a new one."""
    if '/' in name or not is_concept(name):
        return [name]
    can = [s for s in model.symbols_with_root(name) if s.split('/')[1].startswith('WN')]
    if not can:
        return None
    best = [(len([w for w in words_of(model, s) if w in text.lower()]), model.degree(s), s) for s in can]
    top = max(b[:2] for b in best)
    return [b[2] for b in best if b[:2] == top]


def agrees(model, sym, text, got, what):
    if isinstance(sym, tuple):
        expect(isinstance(got, (Vec, Seq)), '%s: %s for an edge', what, pr(got))
        got = list(got)
        expect_eq(len(got), len(sym), '%s: elements' % what)
        for a, b in zip(sym, got):
            agrees(model, a, text, b, what)
    elif is_concept(sym):
        can = meanings(model, sym, text)
        if can is None:
            name = ''.join('_' if c in '/ ()' else c for c in sym.lower()) + '/WN?'
            expect(isinstance(got, str) and got.startswith(name) and len(got) > len(name) and all(c in '0123456789abcdef' for c in got[len(name):]), '%s: %r means %s, expected a new '
                   'symbol that starts with %s', what, sym, pr(got), name)
        else:
            expect(got in can, '%s: %r means %s, expected %r', what, sym, pr(got), can)
    else:
        expect(canon(got) == canon(sym), '%s: %r became %s', what, sym, pr(got))


def guess(case, rec):
    edges, sym, text = case
    with store() as path:
        hg, model = load(path, edges)
        got = cljhg.fn('graphbrain.disambig.edgeguesser', 'guess')(hg.hg, to_clj(sym), text)
        agrees(model, sym, text, got, 'in %r' % text)
        for x in gen.leaves((sym,)):
            if is_concept(x):
                agrees(model, x, text, cljhg.fn('graphbrain.disambig.entityguesser', 'guess')(hg.hg, x, text), 'entity, in %r' % text)
                expect_eq(from_clj(cljhg.fn('graphbrain.disambig.entityguesser', 'symbol->words')(hg.hg, x)), words_of(model, x), 'symbol->words of %r' % x)
                n = len([s for s in model.symbols_with_root(x) if '/WN' in s]) if '/' not in x else 0
                rec.label('meanings %s' % min(n, 3))
                rec.nontrivial(n > 1)


def joined(model, seeds):
    """The edges between the vertices of the shortest walks that join the seeds."""
    near = {}
    for s in seeds:
        for e in walk2(model, s):
            if all(model.degree(x) <= 250 for x in e[1:]):
                near[canon(e)] = e
    links = {}
    for e in near.values():
        for x in e[1:]:
            links.setdefault(canon(x), set()).update(canon(y) for y in e[1:])
    want = {canon(s) for s in seeds}
    found = []

    def step(walk):
        if want <= set(walk):
            found.append(walk)
            return
        for n in links.get(walk[-1], ()):
            if n not in walk:
                step(walk + (n,))
    step((canon(seeds[0]),))
    best = {}
    for w in found:
        for x in w:
            best[x] = min(best.get(x, len(w)), len(w))
    verts = {x for w in found if all(x in want or best[x] == len(w) for x in w) for x in w}
    return {c: e for c, e in near.items() if all(canon(x) in verts for x in e[1:])}, found


def walk2(model, center):
    out = list(model.star(center))
    for e in model.star(center):
        for x in gen.leaves(e[1:]):
            out += model.star(x)
    return out


def intersect(case, rec):
    edges, seeds = case
    with store() as path:
        hg, model = load(path, edges)
        want, found = joined(model, seeds)
        got = cljhg.fn('graphbrain.hg.queries', 'intersect')(hg.hg, to_clj(seeds))
        got = {canon(from_clj(e)): from_clj(e) for e in got}
        expect(set(got) == set(want), 'intersect of %r: missing %r, unexpected %r', seeds, [want[c] for c in want if c not in got], [got[c] for c in got if c not in want])
        rec.label('walks %s' % min(len(found), 4))
        rec.nontrivial(len(found) > 0 and len(seeds) > 1 and len(want) < len(edges))


def busy(case, rec):
    """Vertices of a high degree do not join others."""
    n, place = case
    edges = [('is', 'hub', 'x%d' % i) for i in range(n)] + [('is', 'a', 'hub'), ('is', 'hub', 'b'), ('gives',) + ('a', 'b')[:place] + ('hub',) + ('a', 'b')[place:], ('is', 'hub'), ('likes', 'a', 'm'), ('likes', 'm', 'n'), ('likes', 'n', 'b')] + [('is', 'y', 'z%d' % i) for i in range(8)]
    with store() as path:
        hg, model = load(path, edges)
        want, found = joined(model, ['a', 'b'])
        got = {canon(from_clj(e)) for e in cljhg.fn('graphbrain.hg.queries', 'intersect')(hg.hg, to_clj(['a', 'b']))}
        expect_eq(got, set(want), 'intersect over a hub of degree %d' % model.degree('hub'))
        rec.nontrivial(True)


def graph(case, rec):
    """Arcs are counted at both ends."""
    pairs, start = case
    fn = {n: cljhg.fn('graphbrain.graphs.graphtools', n) for n in ('add-arc', 'add-edge', 'inc-field', 'node-in-arcs', 'node-out-arcs', 'add-field-all-nodes')}
    g = to_clj({})
    out, inn, hits = {}, {}, {}
    for kind, a, b in pairs:
        before = from_clj(g)
        g2 = fn['inc-field'](g, a, cljhg.kw('hits')) if kind == 'inc' else fn['add-' + kind](g, to_clj((a, b)))
        expect(from_clj(g) == before, 'the graph was changed')
        g = g2
        if kind == 'inc':
            hits[a] = hits.get(a, 0) + 1
        for x, y in {'arc': [(a, b)], 'edge': [(a, b), (b, a)], 'inc': []}[kind]:
            out.setdefault(x, {})[y] = out.get(x, {}).get(y, 0) + 1
            inn.setdefault(y, {})[x] = inn.get(y, {}).get(x, 0) + 1
    nodes = set(out) | set(inn) | set(hits)
    got = from_clj(g)
    expect_eq(set(got), nodes, 'nodes')
    for n in nodes:
        node = cljhg.clj.get(g, n)
        for name, arcs in (('node-in-arcs', inn), ('node-out-arcs', out)):
            expect_eq({k: v[':weight'] for k, v in from_clj(fn[name](node)).items()}, arcs.get(n, {}), '%s of %r' % (name, n))
        expect_eq(got[n].get(':hits'), hits.get(n), 'counter of %r' % n)
    marked = from_clj(fn['add-field-all-nodes'](g, cljhg.kw('pr'), 1.5))
    expect_eq(marked, {n: dict(v, **{':pr': 1.5}) for n, v in got.items()}, 'add-field-all-nodes')
    rec.nontrivial(any(w > 1 for arcs in out.values() for w in arcs.values()))


NAMES = ['dog', 'cat', 'Bank', 'river_bank', 'x(1)']
MEANINGS = ['dog/WN1', 'dog/WN2', 'dog/WN.n.3', 'dog/1', 'cat/WN1', 'cat/wn1', 'Bank/WN1', 'Bank/WN2', 'dogs/WN1', 'river_bank/WN', 'dog/x/WN', 'dog/myWN']
OTHER = ['money/1', 'water', 'loud_animal/2', 'Pet', 'river', 'bark/1', 'q/1', 'http://water.com/dog', 7, 1.5]
PLACE = st.one_of(st.sampled_from(MEANINGS), st.sampled_from(MEANINGS), st.sampled_from(OTHER), st.sampled_from(OTHER), st.sampled_from(NAMES))
FLAT = st.tuples(st.sampled_from(['is/1', 'likes', 'water/r', 'dog/WN1']), PLACE, PLACE) | st.tuples(st.sampled_from(['is/1', 'has']), PLACE)
KNOWN = st.lists(FLAT | st.tuples(st.just('says'), PLACE, FLAT) | st.tuples(st.just('says'), FLAT, PLACE), min_size=1, max_size=8)
WORDS = ['money', 'Water', 'waters', 'loud', 'animal', 'pet', 'dog', 'bank', 'RIVER', 'the', 'bark', '']
TEXTS = st.lists(st.sampled_from(WORDS), max_size=6).map(' '.join)
NAME = st.one_of(st.sampled_from(NAMES), st.sampled_from(['dog', 'dog', 'Bank']), PLACE)
SYM = NAME | st.tuples(NAME, NAME, NAME) | st.tuples(NAME, st.tuples(NAME, NAME), NAME)

VERT = st.sampled_from(['a', 'b', 'c', 'd', 'e/1'])
LINK = st.tuples(st.sampled_from(['is', 'likes/1']), VERT, VERT) | st.tuples(st.just('is'), VERT, VERT, VERT) | st.tuples(st.just('is'), VERT)
NET = st.lists(LINK | LINK | st.tuples(st.just('says'), VERT, LINK) | st.tuples(st.just('says'), LINK, VERT), min_size=3, max_size=8)
SEEDS = gen.pick(*[st.lists(VERT, min_size=n, max_size=n, unique=True) for n in (1, 2, 2, 2, 3)])
E = ('is', 'c', 'd')

PROPS = [
    Prop('guess', st.tuples(KNOWN, SYM, TEXTS), guess, quick=80, thorough=1500, examples=[([('is/1', 'dog/WN1', 'money/1'), ('is/1', 'dog/WN2', 'water')], ('dog', 'dog', 7), 'the Water'),
        ([('is/1', 'dog/WN1', 'q/1'), ('has', 'dog/WN1'), ('is/1', 'dog/WN2', 'q/1'), ('is/1', 'Bank/WN1', 'q/1'), ('is/1', 'Bank/WN2', 'q/1'), ('has', 'Bank/WN2')], ('dog', 'Bank', 'cat'), 'the river'),
        ([('is/1', 'dog/WN1', 'pet/1'), ('is/1', 'dog/myWN', 'q/1'), ('has', 'dog/myWN'), ('is/1', 'Bank/WN1', 'q/1'), ('is/1', 'Bank/WN2', 'river/1'), ('has', 'Bank/WN2')], ('has', 'Bank', 'dog'), 'q')]),
    Prop('intersect', st.tuples(NET, SEEDS), intersect, quick=60, thorough=1500, examples=[([('says', 'a', E), ('says', 'b', E), E], ['a', 'b'])]),
    Prop('busy', st.tuples(st.sampled_from([245, 246, 247, 248, 249]), st.integers(0, 2)), busy, quick=2, thorough=9, examples=[(246, 0), (247, 2), (247, 1)]),
    Prop('graph', st.tuples(st.lists(st.tuples(st.sampled_from(['arc', 'arc', 'edge', 'inc']), VERT, VERT), max_size=12), st.none()), graph, quick=100, thorough=1500),
]
