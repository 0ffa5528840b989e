"""Measures of a Wikipedia that was imported: who is near what, who edited what, who claims and denies what."""
from hypothesis import strategies as st

import cljhg
from c01 import store
from c06 import load
from cljhg import from_clj
from model import canon
from vf import Prop, expect, expect_eq

RT = cljhg.runtime()
RT.require('graphbrain.hg.sqlite')
RT.require('graphbrain.metrics.wiki')

RULE = ('Cases are up to 14 beliefs (links and their negations, stated by users, and who edited which page), other edges, and two pages and two users to ask about. '
        'Non-trivial: the two pages share some neighbours but not all, or some editors but not all.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc and math.combinatorics',
               'links are between symbols and not in sections; the hypergraph does not change once a measure was asked for (answers are kept)']
PAGES = ['dog/1', 'cat/1', 'tree/1', 'paris/1', 'e/1']
USERS = ['ann/u', 'bob/u', 'dog/1']
LINKS = ('related/1', '~related/1')


def f(name):
    return cljhg.fn('graphbrain.metrics.wiki', name)


def measures(case, rec):
    edges = list(dict.fromkeys(case))
    edges = [e for x in edges for e in ([x, x[1]] if x[0] == 'src/1' else [x])]
    edges = list(dict.fromkeys(edges))
    with store() as path:
        hg, model = load(path, edges)

        def near(p):
            return {x for r in LINKS for q in ((r, p, None), (r, None, p)) for e in model.pattern(q) for x in e[1:]} - {p}

        def who(p):
            return {e[1] for e in model.pattern(('editor/1', None, p))}
        told = {}
        for p in PAGES:
            for name, queries in (('in-related', [('related/1', None, p)]), ('out-related', [('related/1', p, None)]), ('in-not-related', [('~related/1', None, p)]), ('out-not-related', [('~related/1', p, None)]),
                                  ('related', [('related/1', None, p), ('related/1', p, None)]), ('not-related', [('~related/1', None, p), ('~related/1', p, None)])):
                expect_eq({canon(from_clj(e)) for e in f(name)(hg.hg, p) or ()}, {canon(e) for q in queries for e in model.pattern(q)}, '%s of %s' % (name, p))
            got = list(f('neighbors')(hg.hg, p))
            expect_eq(sorted(got), sorted(near(p)), 'neighbors of %s' % p)
            expect_eq(sorted(f('editors')(hg.hg, p)), sorted(who(p)), 'editors of %s' % p)
        for u in USERS:
            expect_eq(sorted(f('edited-by')(hg.hg, u)), sorted({e[2] for e in model.pattern(('editor/1', u, None))}), 'edited by %s' % u)
            for name, rel in (('claims', 'related/1'), ('refutations', '~related/1')):
                want = [e for e in model.pattern(('src/1', None, u)) if isinstance(e[1], tuple) and e[1][0] == rel]
                got = [canon(from_clj(e)) for e in f(name)(hg.hg, u) or ()]
                expect_eq(sorted(map(repr, got)), sorted(repr(canon(e)) for e in want), '%s of %s' % (name, u))
        some = False
        for a in PAGES:
            for b in PAGES:
                for name, sets in (('semantic-overlap', near), ('editor-overlap', who)):
                    both, either = sets(a) & sets(b), sets(a) | sets(b)
                    if either:
                        got = f(name)(hg.hg, a, b)
                        expect(abs(got - len(both) / len(either)) < 1e-6, '%s of %s and %s: %r, of %d in common of %d' % (name, a, b, got, len(both), len(either)))
                        told[name, a, b] = got
                        some = some or 0 < len(both) < len(either)
        for (name, a, b), x in told.items():
            expect(told[name, b, a] == x, '%s depends on the order' % name)
        rec.nontrivial(some)
        rec.label('edges %d' % (len(edges) // 5 * 5))


P, U = st.sampled_from(PAGES), st.sampled_from(USERS)
LINK = st.tuples(st.sampled_from(LINKS), P, P)
EDGE = st.one_of(st.tuples(st.just('src/1'), LINK, U), st.tuples(st.just('src/1'), LINK, U), st.tuples(st.just('editor/1'), U, P), st.tuples(st.just('editor/1'), U, P), LINK,
                 st.sampled_from([('src/1', ('is', 'dog/1', 'cat/1'), 'ann/u'), ('knows', 'dog/1', 'tree/1'), ('related/2', 'dog/1', 'tree/1'), ('src/1', ('editor/1', 'ann/u', 'e/1'), 'ann/u')]))
PROPS = [Prop('measures', st.lists(EDGE, max_size=14), measures, quick=150, thorough=4000, examples=[
    [('src/1', ('related/1', 'dog/1', 'cat/1'), 'ann/u'), ('src/1', ('~related/1', 'tree/1', 'cat/1'), 'ann/u'), ('related/1', 'dog/1', 'e/1'), ('editor/1', 'ann/u', 'dog/1'), ('editor/1', 'bob/u', 'dog/1'), ('editor/1', 'ann/u', 'cat/1')]])]
