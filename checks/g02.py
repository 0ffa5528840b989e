"""The beta stage marks compounds and gives namespaces, and nothing else."""
import golden
import parses
import trees
from hypothesis import strategies as st
from vf import Prop, expect

RULE = ('Cases are sentences with generated dependency trees (N01), with runs of tokens of the same entity, and the annotated sentences of the existing tests; the tree of the first stage is given to the second one. '
        'Non-trivial: some node is marked as a compound and some other is not.')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy']


def run(case, rec):
    ((tokens,),) = parses.parse([[case]])
    tokens = list(tokens)
    tree = trees.run_alpha(tokens)
    before, state = trees.plain(tree, tokens), trees.state(tokens)
    out = trees.run_stage('beta', tree)
    got = trees.check_tree(out, tokens, 'beta')
    what = 'beta of %s' % trees.text(before, case)
    expect(trees.shape(got) == trees.shape(before), '%s is %s', what, trees.text(got, case))
    want = trees.beta(before, case)
    expect(got == want, '%s is %s, expected %s', what, trees.text(got, case), trees.text(want, case))
    for n in trees.nodes(got):
        expect(not n[0] or all(m[0] for m in trees.nodes(n)), '%s: a part of a compound is none: %s', what, trees.text(got, case))
    expect(str(out) == trees.text(want, case), 'the text of %s is %r', what, str(out))
    expect(set(trees.namespaces(out)) == {'1'}, 'the namespaces of %s are %r', what, trees.namespaces(out))
    expect(trees.state(tokens) == state, 'the tokens were changed')
    again = trees.run_stage('beta', out)
    expect(trees.plain(again, tokens) == want, '%s, twice, is %s', what, again)
    marks = set(n[0] for n in trees.nodes(got))
    rec.nontrivial(len(marks) == 2)
    if any(n[0] and not all(case[i][3] in trees.NOMINAL for i in trees.leaves(n)) for n in trees.nodes(got)):
        rec.label('by entity')
    if any(n[0] and any(not trees.is_leaf(k) for k in n[1]) for n in trees.nodes(got)):
        rec.label('compound of compounds')


NOMINAL = ['compound', 'pobj', 'dobj', 'nsubj', 'compound', 'compound', 'amod', 'nsubjpass', 'conj', 'det', 'prep']

PROPS = [
    Prop('parses', parses.sentences(max_tokens=10), run, 4000, 60000, examples=[g[0] for g in golden.GOLDEN]),
    Prop('nominal', parses.sentences(max_tokens=7, deps=NOMINAL), run, 4500, 60000),
    Prop('long', parses.sentences(max_tokens=40), run, 120, 2000),
    Prop('phrases', st.one_of(parses.phrases(), parses.merges(max_tokens=12)), run, 2000, 30000),
]
