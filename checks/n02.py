"""Views of sentences and tokens show every token of the parse."""
import contextlib
import io

from hypothesis import strategies as st

import parses
from vf import Prop, expect

RULE = ('Cases are texts with generated dependency trees (N01); words, tags and dependencies often repeat. All views of each sentence and of each token are compared '
        'to the generated parse, twice. Non-trivial: a sentence has four or more tokens, and two tokens with the same word or a token that is no word.')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy']


def word(t):
    return t[0].lower().strip()


def token_text(t):
    return '%s/%s (%s) {%s}' % (word(t), t[2], t[3], t[5])


def label_tree(s, i, prefix='*'):
    left, right = parses.children(s, i)
    return '[%s]%s' % (prefix, token_text(s[i])), [label_tree(s, k, 'L') for k in left] + [label_tree(s, k, 'R') for k in right]


def pairs(tree):
    return [(str(k), pairs(v)) for k, v in tree.items()]


def drawn(node):
    """The lines of a tree: each child below its parent, indented, with lines that join siblings."""
    label, kids = node
    lines = [label]
    for n, kid in enumerate(kids):
        last = n == len(kids) - 1
        sub = drawn(kid)
        lines.append(' +-- ' + sub[0])
        lines += [('    ' if last else ' |  ') + line for line in sub[1:]]
    return lines


def below(s, i):
    """The tokens of the subtree of token i, in the order of the sentence: all left ones, the token, all right ones."""
    left, right = parses.children(s, i)
    return [x for k in left for x in below(s, k)] + [i] + [x for k in right for x in below(s, k)]


def is_word(t, separator):
    return not separator and t[2] not in ('PUNCT', 'SPACE')


def state(tokens):
    return [(t.word, t.lemma, t.shape, t.logprob, t.pos, t.dep, id(t.parent), [id(x) for x in t.left_children], [id(x) for x in t.right_children],
             t.entity_type, t.separator) for t in tokens]


def same_tokens(got, want, tokens, what):
    expect(len(got) == len(want) and all(g is tokens[k] for g, k in zip(got, want)), '%s is %r, expected %r', what, got, [tokens[k] for k in want])


def views(s, tokens, separators):
    from gb.nlp.sentence import Sentence
    sentence = Sentence(tokens)
    r = parses.root_of(s)
    expect(sentence.root() is tokens[r], 'root() is %r, expected %r', sentence.root(), tokens[r])
    expect(str(sentence) == ' '.join(word(t) for t in s), 'the text of the sentence is %r', str(sentence))
    want = label_tree(s, r)
    got = pairs(sentence.label_tree())
    expect(got == [want], 'label_tree() is %r, expected %r', got, want)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sentence.print_tree()
    lines = out.getvalue().rstrip('\n').split('\n')
    expect([x.rstrip() for x in lines] == [x.rstrip() for x in drawn(want)], 'print_tree() shows %r, expected %r', lines, drawn(want))
    for i, t in enumerate(s):
        what = 'of token %s (%r)' % (i, t[0])
        expect(str(tokens[i]) == token_text(t), 'the text %s is %r', what, str(tokens[i]))
        expect(repr(tokens[i]) == token_text(t), 'repr() %s is %r', what, repr(tokens[i]))
        expect(tokens[i].is_word() is is_word(t, separators[i]), 'is_word() %s is %r', what, tokens[i].is_word())
        sub = below(s, i)
        same_tokens(tokens[i].to_list(), sub, tokens, 'to_list() ' + what)
        words = [k for k in sub if is_word(s[k], separators[k])]
        same_tokens(tokens[i].to_word_token_list(), words, tokens, 'to_word_token_list() ' + what)
        expect(tokens[i].chunk_str() == ' '.join(word(s[k]) for k in words), 'chunk_str() %s is %r', what, tokens[i].chunk_str())
    expect(below(s, r) == list(range(len(s))), 'the generated parse is not projective')


def run(case, rec):
    text, separators = case
    (got,) = parses.parse([text])
    for s, tokens in zip(text, got):
        tokens = list(tokens)
        seps = [separators[i % len(separators)] for i in range(len(s))]
        for t, x in zip(tokens, seps):
            t.separator = x
        before = state(tokens)
        views(s, tokens, seps)
        expect(state(tokens) == before, 'the views changed the tokens: %r', tokens)
        views(s, tokens, seps)
        words = [word(t) for t in s]
        rec.nontrivial(len(s) > 3 and (len(set(words)) < len(words) or any(not is_word(t, x) for t, x in zip(s, seps))))
        if len(set(x for x, _ in label_tree(s, parses.root_of(s))[1])) < len(label_tree(s, parses.root_of(s))[1]):
            rec.label('siblings with the same label')


@st.composite
def repeating(draw):
    """Sentences where many tokens look the same."""
    n = draw(st.integers(2, 7))
    hs = draw(parses.heads(n))
    kinds = draw(st.lists(st.tuples(st.sampled_from(['very', 'Ha', '-']), st.sampled_from(['ADV', 'PUNCT']), st.sampled_from(['advmod', 'dep'])), min_size=1, max_size=2))
    toks = []
    for i in range(n):
        w, pos, dep = draw(st.sampled_from(kinds))
        toks.append((w, w.lower(), pos, 'ROOT' if hs[i] == i else dep, hs[i], '', True))
    return [toks]


SEPARATORS = st.one_of(st.just([False]), st.lists(st.booleans(), min_size=1, max_size=8))

PROPS = [
    Prop('views', st.tuples(parses.texts(max_sentences=2), SEPARATORS), run, 1500, 25000),
    Prop('repeating', st.tuples(repeating(), SEPARATORS), run, 700, 10000),
    Prop('long', st.tuples(parses.texts(max_sentences=1, max_tokens=40), SEPARATORS), run, 60, 1000),
]
