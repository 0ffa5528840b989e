"""The gamma stage combines relationships and drops articles only."""
import golden
import parses
import trees
from hypothesis import strategies as st
from vf import Prop, expect

RULE = ('Cases are sentences with generated dependency trees (N01) and the annotated sentences of the existing tests; their trees go through the first two stages (or the first one). '
        'Non-trivial: the stage changes the tree.')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy']


def droppable(t, s):
    """The articles that are the first of two elements, also when a part has become a single word."""
    dropped = set()

    def reduced(n):
        if trees.is_leaf(n):
            return n
        kids = [reduced(k) for k in n[1]]
        a = kids[0]
        if len(kids) == 2 and trees.is_leaf(a) and s[a][2] == 'DET' and s[a][1] in trees.ARTICLES:
            dropped.add(a)
            return kids[1]
        return (n[0], tuple(kids))
    reduced(t)
    return dropped


def run(case, rec):
    s, both = case
    ((tokens,),) = parses.parse([[s]])
    tokens = list(tokens)
    tree = trees.run_alpha(tokens)
    if both:
        tree = trees.run_stage('beta', tree)
    before, state = trees.plain(tree, tokens), trees.state(tokens)
    out = trees.run_stage('gamma', tree)
    got = trees.check_tree(out, tokens, 'gamma')
    what = 'gamma of %s' % trees.text(before, s)
    lost = sorted(set(trees.leaves(before)) - set(trees.leaves(got)))
    expect(len(trees.leaves(got)) == len(set(trees.leaves(got))), '%s has words twice: %s', what, trees.text(got, s))
    expect(set(trees.leaves(got)) <= set(trees.leaves(before)), '%s has new words: %s', what, trees.text(got, s))
    expect(set(lost) == droppable(before, s), '%s drops %r: %s', what, [s[i][0] for i in lost], trees.text(got, s))
    for n in trees.nodes(got):
        expect(not n[0] or all(m[0] for m in trees.nodes(n)), '%s: a part of a compound is none: %s', what, trees.text(got, s))
    want = trees.gamma(before, s)
    expect(got == want, '%s is %s, expected %s', what, trees.text(got, s), trees.text(want, s))
    expect(str(out) == trees.text(want, s), 'the text of %s is %r', what, str(out))
    expect(trees.state(tokens) == state, 'the tokens were changed')
    if lost:
        rec.label('articles')
    if trees.shape(got) != trees.shape(before) and not lost:
        rec.label('relationships combined')
    rec.nontrivial(got != before)


REL = ['aux', 'aux', 'auxpass', 'advmod', 'prep', 'xcomp', 'nsubj', 'dobj', 'pobj', 'det', 'det', 'pcomp', 'prt', 'agent', 'advcl', 'compound', 'neg']

PROPS = [
    Prop('parses', st.tuples(parses.sentences(max_tokens=10), st.booleans()), run, 4000, 60000, examples=[(g[0], True) for g in golden.GOLDEN]),
    Prop('relationships', st.tuples(parses.sentences(max_tokens=8, deps=REL), st.booleans()), run, 4000, 60000),
    Prop('long', st.tuples(parses.sentences(max_tokens=40), st.booleans()), run, 120, 2000),
    Prop('merges', st.tuples(parses.merges(max_tokens=14), st.booleans()), run, 3000, 60000),
]
