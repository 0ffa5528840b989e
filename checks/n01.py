"""Parsed sentences mirror the parse, token by token."""
from hypothesis import strategies as st

import parses
from vf import Prop, expect

RULE = ('Cases are texts of one to three sentences with generated projective dependency trees, tags, lemmas and entities, given to the parser as spaCy '
        'documents; several texts go through one parser. Every token is compared to the generated parse. Non-trivial: a sentence has four or more tokens '
        'and a token with children on both sides.')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy; spaCy tells left and right children apart right']


def same_token(t, want, what):
    word, lemma, pos, dep, _, ent, _ = want
    for name, value in (('word', word.lower().strip()), ('lemma', lemma), ('pos', pos), ('dep', dep), ('entity_type', ent)):
        got = getattr(t, name)
        expect(got == value, '%s of %s is %r, expected %r', name, what, got, value)


def shape(word):
    """The shape of a word as spaCy defines it: runs of a class of characters are cut at four."""
    out, last, run = '', '', 0
    if len(word) >= 100:
        return 'LONG'
    for c in word:
        k = ('X' if c.isupper() else 'x') if c.isalpha() else 'd' if c.isdigit() else c
        run = run + 1 if k == last else 0
        last = k
        if run < 4:
            out += k
    return out


def compare(sents, got, what):
    expect(len(got) == len(sents), '%s: %s sentences, expected %s', what, len(got), len(sents))
    for s, g in zip(sents, got):
        g = list(g)
        expect(len(g) == len(s), '%s: %s tokens, expected %s', what, len(g), len(s))
        for i, want in enumerate(s):
            name = '%s: token %s (%r)' % (what, i, want[0])
            t = g[i]
            same_token(t, want, name)
            expect(t.shape == shape(want[0]), 'shape of %s is %r', name, t.shape)
            expect(isinstance(t.logprob, float), 'logprob of %s is %r', name, t.logprob)
            expect(t.separator is False, 'separator of %s is %r', name, t.separator)
            left, right = parses.children(s, i)
            for side, have, idx in (('left', t.left_children, left), ('right', t.right_children, right)):
                expect(len(have) == len(idx), '%s has %s %s children, expected %s', name, len(have), side, len(idx))
                for child, k in zip(have, idx):
                    expect(child is g[k], 'a %s child of %s is not token %s', side, name, k)
                    expect(child.parent is t, 'the parent of token %s is not its head, %s', k, name)
            if want[4] == i:
                expect(t.parent is None, '%s is the root, and has a parent', name)
            else:
                expect(t.parent is g[want[4]], 'the parent of %s is %r, expected token %s', name, t.parent, want[4])


def run(case, rec):
    from gb.nlp.parser import Parser
    names = parses.prepare(case)
    parser = Parser()
    results = []
    for n, doc in zip(names, case):
        got = parser.parse_text(n)
        results.append(got)
        compare(doc, got, n)
    for n, doc, got in zip(names, case, results):
        compare(doc, got, n + ', after the others')
    # read again, with the same parser and with another one
    compare(case[0], parser.parse_text(names[0]), 'again')
    compare(case[-1], Parser().parse_text(names[-1]), 'another parser')
    sents = [s for doc in case for s in doc]
    rec.nontrivial(any(len(s) > 3 and any(all(parses.children(s, i)) for i in range(len(s))) for s in sents))
    rec.label('%s sentences' % len(sents))


def equality(case, rec):
    """Tokens are equal if they have the same word, part of speech and dependency."""
    (got,) = parses.parse([case])
    flat = [(t, w) for s, g in zip(case, got) for w, t in zip(s, g)]
    for t, w in flat:
        for u, x in flat:
            want = (w[0].lower().strip(), w[2], w[3]) == (x[0].lower().strip(), x[2], x[3])
            expect((t == u) is want, '%r == %r is %r', t, u, t == u)
            expect((t != u) is (not want), '%r != %r is %r', t, u, t != u)
    rec.nontrivial(len(flat) > 3)


PROPS = [
    Prop('tokens', st.lists(parses.texts(), min_size=1, max_size=2), run, 1500, 25000),
    Prop('long', st.lists(parses.texts(max_sentences=1, max_tokens=40), min_size=1, max_size=1), run, 60, 1000),
    Prop('equality', parses.texts(max_sentences=2, max_tokens=6), equality, 300, 4000),
]
