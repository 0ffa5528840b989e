"""Beliefs of the Clojure hypergraph: who said what, and facts that nobody says any more."""
from hypothesis import strategies as st

import cljhg
import gen
from c01 import in_domain, store
from cljhg import Hg
from model import Model, agree, apply_real, canon, is_collection, vertices_of
from vf import Prop, expect, expect_eq

cljhg.runtime().require('graphbrain.hg.sqlite')
cljhg.runtime().require('graphbrain.hg.beliefs')

RULE = ('Cases are histories of up to 8 operations (beliefs added, one or several at once, and removed, and edges added and removed) run by the Clojure code, with the sources of each '
        'edge and all queries compared to a model after each. Non-trivial: two sources supported an edge, and a belief was removed.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc and math.combinatorics',
               'sources are symbols; an edge that begins with an edge is given as a collection of one']
SOURCES = ['mary/1', 'john/1']


def sources(model, e):
    return {x[2] for x in model.pattern(('src/1', e, None))}


def history(case, rec):
    with store() as path:
        hg = Hg(path)
        model = Model()
        doubted = shared = False
        links = [('src/1', e, s) for e in case['edges'] for s in SOURCES]
        vs = vertices_of(case) + SOURCES
        for op in case['ops']:
            before = len(model.edges)
            apply_real(hg, op)
            model.apply(op)
            for e in case['edges']:
                want = sources(model, e)
                expect_eq(hg.sources(e), want, 'after %r: sources of %r' % (op, e))
                shared = shared or len(want) > 1
            agree(hg, model, vs, case['edges'] + links, what='after %r: ' % (op,))
            doubted = doubted or op[0] == 'doubt' and len(model.edges) < before
        rec.nontrivial(doubted and shared)


def ops(pool, eds):
    ts = st.sampled_from([-1, -1, 0, 5, 123456789])
    source = st.sampled_from(SOURCES)
    return gen.pick(
        st.tuples(st.just('believe'), source, st.lists(st.sampled_from(eds), min_size=1, max_size=3), ts),
        st.tuples(st.just('believe'), source, st.lists(st.sampled_from(eds), min_size=1, max_size=1), ts),
        st.tuples(st.just('doubt'), source, st.sampled_from(eds)), st.tuples(st.just('doubt'), source, st.sampled_from(eds)),
        gen.simple_ops(pool, eds))


HISTORY = gen.history(max_ops=9, ops=ops, max_arity=4, max_edges=3, min_ops=3).filter(in_domain)
F = ('is', 'a', 'b')
G = (('is', 'a'), 'b')
EX = [{'atoms': ['a', 'b'], 'edges': [F, G], 'ops': [('believe', 'mary/1', [F, G], 5), ('believe', 'john/1', [F], -1), ('doubt', 'mary/1', F), ('doubt', 'john/1', F), ('doubt', 'mary/1', G)]}]

PROPS = [Prop('history', HISTORY, history, quick=60, thorough=1500, examples=EX)]
