"""The epsilon stage writes the tree as an edge with the same structure."""
import golden
import parses
import trees
from hypothesis import strategies as st
from vf import Prop, expect

RULE = ('Cases are sentences with generated dependency trees (N01), with any words, and the annotated sentences of the existing tests; their trees go through the stages before the last one (or only some). '
        'Non-trivial: the result is an edge with another edge in it, or with a compound.')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy']


def edge(t, s):
    if trees.is_leaf(t):
        return trees.symbol_of(s[t][0].lower().strip()) + '/1'
    if t[0]:
        return trees.symbol_of('_'.join(s[i][0].lower().strip() for i in trees.leaves(t))) + '/?'
    return tuple(edge(k, s) for k in t[1])


def same(a, b):
    return type(a) is type(b) and (a == b if isinstance(a, str) else len(a) == len(b) and all(map(same, a, b)))


def symbols(e):
    return [x for k in e for x in symbols(k)] if isinstance(e, tuple) else [e]


def run(case, rec):
    import gb.hypergraph.edge as ed
    import gb.hypergraph.symbol as sym
    s, stages = case
    ((tokens,),) = parses.parse([[s]])
    tokens = list(tokens)
    tree = trees.run_stage('beta', trees.run_alpha(tokens))
    for name in stages:
        tree = trees.run_stage(name, tree)
    before, state = trees.plain(tree, tokens), trees.state(tokens)
    got = trees.run_stage('epsilon', tree)
    want = edge(before, s)
    expect(same(got, want), 'epsilon of %s is %r, expected %r', trees.text(before, s), got, want)
    expect(trees.plain(tree, tokens) == before and trees.state(tokens) == state, 'the tree or the tokens were changed')
    expect(same(trees.run_stage('epsilon', tree), want), 'the second time, the edge is another one')
    if isinstance(got, tuple):
        text = ed.edge2str(got)
        expect(same(ed.str2edge(text), got), '%r is read back as %r', text, ed.str2edge(text))
    for x in symbols(got):
        expect(sym.nspace(x) in ('1', '?'), 'the namespace of %r is %r', x, sym.nspace(x))
    rec.nontrivial(isinstance(got, tuple) and (any(isinstance(x, tuple) for x in got) or any(x.endswith('/?') for x in symbols(got))))
    if any(x.endswith('/?') for x in symbols(got)):
        rec.label('compound')


STAGES = st.sampled_from([('gamma', 'delta')] * 3 + [('gamma',), ('delta',), ()])
ODD = ['and/or', '(', ')', ':(', 'f(x)', 'http://x.org/a_(b)', '1/2', '24/7', '~a', '10%', "o'neill", '\u00c9t\u00e9', '\u0130', 'a_b', '"', '-', '3.5', '2016', '\u4e2d\u6587', '/', '//', 'a\u00a0b', '%', '?']


@st.composite
def any_words(draw):
    s = draw(parses.sentences(max_tokens=8))
    word = st.one_of(st.sampled_from(ODD), st.text(st.characters(exclude_categories=('Cs', 'Cc', 'Zs', 'Zl', 'Zp')), min_size=1, max_size=5))
    return [(draw(word),) + t[1:] if draw(st.booleans()) else t for t in s]


PROPS = [
    Prop('parses', st.tuples(parses.sentences(max_tokens=9), STAGES), run, 3500, 60000, examples=[(g[0], ('gamma', 'delta')) for g in golden.GOLDEN]),
    Prop('words', st.tuples(any_words(), STAGES), run, 3000, 60000),
    Prop('merges', st.tuples(parses.merges(max_tokens=9), STAGES), run, 2000, 40000),
]
