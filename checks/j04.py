"""Words of a text, with their tags and lemmas."""
from hypothesis import strategies as st

import jvm
from vf import Prop, expect, expect_eq

jvm.build()

RULE = ('Cases are two lists of words, a position and a slice; texts; and texts with HTML tags for their words. Non-trivial: two or more words.')
ASSUMPTIONS = ['the Stanford tagger and lemmatiser are not installed: in what stands in for them words are separated by spaces, the tag of a word is T and its length, and '
               'its lemma is the word backwards; a tag has no underscore, as in the tag sets of the real one',
               'a slice is inside of the words']

WORDS = ['.', 'the', 'brain', 'Brain', 'of', ',', 'a_b', '_', '__', 'x_', '_y', 'été', 'C++', '..', '$1', 'a.', '日本語']
WORD = st.tuples(st.sampled_from(WORDS), st.sampled_from(['NN', 'DT', '.', 'VBZ']), st.sampled_from(['', 'brain', 'be', 'l']))


def read(v):
    """(length, position, text, words) and the fields that are left"""
    n = int(v[0])
    rows = [tuple(v[4 + 4 * i:8 + 4 * i]) for i in range(n)]
    expect_eq(v[3], v[2], 'toString()')
    expect_eq(v[2], ' '.join(r[0] for r in rows), 'text()')
    return rows, int(v[1]), v[4 + 4 * n:]


def operations(case, rec):
    """append, slice, removeFullStop, endsWith and copies are those of lists, and change none of the words they were called on."""
    one, two, pos, a, b = case
    if a is None or not one:
        lo, hi = -1, 0
    else:
        lo, hi = sorted((a % len(one), b % len(one)))
    v = jvm.call('words', 'ops', len(one), len(two), pos, lo, hi, *[f for w in one + two for f in w])

    def same(words, at, what):
        nonlocal v
        rows, p, v = read(v)
        expect_eq(rows, [w + (None,) for w in words], what)
        expect_eq(p, at, 'position of ' + what)
    same(one, pos, 'the words')
    same(two, 0, 'the other words')
    same(one + two, 0, 'both')
    stop = bool(one) and one[-1][0] == '.'
    same(one[:-1] if stop else one, pos, 'removeFullStop()')
    texts, ends = [w[0] for w in one], [w[0] for w in two]
    expect_eq(v[0], str(int(bool(ends) and texts[-len(ends):] == ends)), 'endsWith()')
    expect_eq(v[1], str(int(bool(ends))), 'endsWith() of both')
    expect_eq(v[2], '0', 'endsWith(null)')
    v = v[3:]
    if lo >= 0:
        same(one[lo:hi + 1], pos + lo, 'slice(%s, %s)' % (lo, hi))
    same(one, pos, 'copy')
    same(one, pos, 'the words, after the copy was changed')
    same(two, 0, 'the other words, at the end')
    same([], 0, 'empty()')
    if one and two:
        equal = one[0][:2] == two[0][:2]
        expect_eq(v[0], str(int(equal)), 'equals()')
        expect(not equal or v[1] == '1', 'equal words have different hash codes')
        v = v[2:]
    expect_eq(v, [], 'rest')
    rec.nontrivial(len(one) > 1)
    if stop:
        rec.label('full stop')
    if ends and texts[-len(ends):] == ends:
        rec.label('ends with')


def annotate(case, rec):
    """Each word of a text has its own tag and its own lemma, in the order of the text, and the HTML tag at its place."""
    words, seps, tags = case
    text = seps[0] + ''.join(w + seps[(i + 1) % len(seps)] + ' ' for i, w in enumerate(words))
    want = [(w, 'T%s' % len(w), w[::-1]) for w in words]
    rows, pos, rest = read(jvm.call('words', 'string', text))
    expect_eq((rows, pos, rest), ([w + (None,) for w in want], 0, []), 'words of %r' % text)
    rows, pos, rest = read(jvm.call('words', 'tags', text, *[' '.join(t) for t in tags]))
    expect_eq((rows, pos, rest), ([w + ((tags[i][0] + ' ' + (tags[i] + ('',))[1]) if i < len(tags) else None,) for i, w in enumerate(want)], 0, []),
              'words of %r with HTML tags' % text)
    rec.nontrivial(len(words) > 1)
    if '.' in words[:-1]:
        rec.label('sentences')
    if any('_' in w for w in words):
        rec.label('underscore')


LISTS = st.lists(WORD, max_size=6)
PAIRS = st.one_of(st.tuples(LISTS, LISTS), st.builds(lambda a, b: (a + b, b), LISTS, LISTS), st.builds(lambda a, b: (a + [(w[0], 'NN', 'l') for w in b], b), LISTS, LISTS),
                  st.builds(lambda a, b: (b + a, b), LISTS, LISTS), st.builds(lambda a: (a, [('brain', 'NN', '')] + a), LISTS))
TAG = st.one_of(st.tuples(st.sampled_from(['a', 'b'])), st.tuples(st.just('a'), st.sampled_from(['http://x', '#'])))
PROPS = [
    Prop('operations', st.tuples(PAIRS, st.integers(0, 5), st.one_of(st.none(), st.integers(0, 9), st.integers(0, 9)), st.integers(0, 9)).map(lambda x: x[0] + x[1:]), operations, 2000, 40000),
    Prop('annotate', st.tuples(st.lists(st.sampled_from(WORDS + ['.']), max_size=9), st.lists(st.sampled_from(['', ' ', '  ']), min_size=1, max_size=3),
                               st.lists(TAG, max_size=10)), annotate, 1500, 30000),
]
