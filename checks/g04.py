"""The delta stage merges relationships at the root in the way that fits best."""
import golden
import parses
import trees
from hypothesis import strategies as st
from vf import Prop, expect

RULE = ('Cases are sentences with generated dependency trees (N01) and the annotated sentences of the existing tests; their trees go through the first three stages (or only some). '
        'The result is compared to the best of all candidates, built independently. Non-trivial: the root has a relationship in front, and there are other candidates than the tree itself.')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy',
               'elements in front of a node that is not the root may be flattened: the existing tests expect it in some cases',
               'where a relationship in front is nested more than once, the result has to keep the words and be flat in front, but need not be the best candidate: candidates are flattened while others are tried']


def run(case, rec):
    s, stages = case
    ((tokens,),) = parses.parse([[s]])
    tokens = list(tokens)
    tree = trees.run_alpha(tokens)
    for name in stages:
        tree = trees.run_stage(name, tree)
    before, state = trees.plain(tree, tokens), trees.state(tokens)
    out = trees.run_stage('delta', tree)
    got = trees.plain(out, tokens)
    what = 'delta of %s' % trees.text(before, s)
    expect(sorted(trees.leaves(got)) == sorted(trees.leaves(before)), '%s has other words: %s', what, trees.text(got, s))
    for n in trees.nodes(got):
        expect(len(n[1]) >= 2, '%s has a node of one element: %s', what, trees.text(got, s))
        expect(not n[0] or all(m[0] for m in trees.nodes(n)), '%s: a part of a compound is none: %s', what, trees.text(got, s))
    if not trees.relational(before, s):
        expect(got == before, '%s, which has no relationship in front, is %s', what, trees.text(got, s))
    want = trees.delta(before, s)
    if not trees.relational(before, s) or trees.simple_rels(before, s):
        expect(trees.fronts(got, want) and (trees.is_leaf(want) or got[1][0] == want[1][0]), '%s is %s, expected %s', what, trees.text(got, s), trees.text(want, s))
    else:
        # trying a candidate can flatten a relationship that was nested twice, so that later candidates have it flat
        expect(trees.is_leaf(got[1][0]) or all(trees.terminal(k) for k in got[1][0][1]), '%s is %s: the relationship is not flat', what, trees.text(got, s))
        rec.label('relationship nested twice')
    expect(str(out) == trees.text(got, s), 'the text of %s is %r', what, str(out))
    expect(trees.state(tokens) == state, 'the tokens were changed')
    if trees.relational(before, s):
        n = len(set(trees.candidates(before, s)))
        rec.nontrivial(n > 1)
        rec.label('relationship in front')
        if want[1][1:] != before[1][1:]:
            rec.label('merged')
        if n > 3:
            rec.label('more than three candidates')


REL = ['aux', 'prep', 'prep', 'prep', 'xcomp', 'xcomp', 'nsubj', 'dobj', 'pobj', 'pobj', 'pcomp', 'advcl', 'relcl', 'attr', 'advmod', 'amod', 'det']
STAGES = st.sampled_from([('beta', 'gamma')] * 4 + [('beta',), ('gamma',), ()])

PROPS = [
    Prop('parses', st.tuples(parses.sentences(max_tokens=9), STAGES), run, 3000, 60000, examples=[(g[0], ('beta', 'gamma')) for g in golden.GOLDEN]),
    Prop('relationships', st.tuples(parses.sentences(max_tokens=9, deps=REL), STAGES), run, 3000, 60000),
    Prop('phrases', st.tuples(parses.phrases(max_tokens=9, deps=REL), STAGES), run, 9000, 180000),
    Prop('merges', st.tuples(parses.merges(max_tokens=8), st.sampled_from([('beta', 'gamma')] * 2 + [('beta',), ('gamma',), (), ()])), run, 6000, 120000),
]
