"""The alpha stage builds the tree of the parse without losing words."""
from hypothesis import strategies as st

import golden
import parses
import trees
from vf import Prop, expect

RULE = ('Cases are sentences with generated projective dependency trees, parts of speech and entities (N01), and the annotated sentences of the existing tests. The tree is compared to an '
        'independent construction, and its leaves to the tokens of the parse. Non-trivial: the tree has depth two or more, and at least one compound or argument and one modifier.')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy']


def run(case, rec):
    from gb.knowledge.stages import alpha
    from gb.nlp.sentence import Sentence
    ((tokens,),) = parses.parse([[case]])
    tokens = list(tokens)
    before = trees.state(tokens)
    tree = trees.run_alpha(tokens)
    got = trees.check_tree(tree, tokens, 'alpha')
    kept = trees.kept_tokens(case)
    expect(sorted(trees.leaves(got)) == sorted(kept), 'the leaves are %r, expected each of %r once',
           [case[i][0] for i in trees.leaves(got)], [case[i][0] for i in kept])
    want = trees.alpha(case)
    expect(trees.shape(got) == trees.shape(want), 'the tree is %s, expected %s', trees.text(got, case), trees.text(want, case))
    expect(got == want, 'nodes are marked as compounds: %s', trees.text(got, case))
    expect(str(tree) == trees.text(want, case), 'the text of the tree is %r, expected %r', str(tree), trees.text(want, case))
    expect(trees.state(tokens) == before, 'the tokens were changed')
    again = trees.run_alpha(tokens)
    expect(trees.plain(again, tokens) == want, 'the second time the tree is %s', again)
    expect(trees.plain(alpha.transform(Sentence(tokens)), tokens) == want, 'transform() gives another tree')
    expect(trees.plain(tree, tokens) == want, 'the first tree changed: %s', tree)
    deps = set(case[i][3] for i in kept)
    rec.nontrivial(trees.depth(got) > 1 and any(d in trees.NEST for d in deps) and any(d not in trees.NEST and d not in ('ROOT', 'prep') for d in deps))
    if 'prep' in deps:
        rec.label('preposition')
    if any(d in trees.FIRST for d in deps):
        rec.label('compound')
    if len(kept) < len(case):
        rec.label('ignored tokens')


# many words of a compound on both sides, chains of modifiers
DENSE = ['compound', 'compound', 'pcomp', 'amod', 'det', 'advmod', 'prep', 'pobj', 'nsubj', 'punct']

PROPS = [
    Prop('parses', parses.sentences(max_tokens=12), run, 4000, 60000, examples=[g[0] for g in golden.GOLDEN]),
    Prop('dense', parses.sentences(max_tokens=7, deps=DENSE), run, 2500, 30000),
    Prop('every', parses.sentences(max_tokens=5, deps=parses.DEPS), run, 2500, 30000),
    Prop('long', parses.sentences(max_tokens=40), run, 120, 2000),
    Prop('phrases', st.one_of(parses.phrases(), parses.merges(max_tokens=12)), run, 2000, 30000),
]
