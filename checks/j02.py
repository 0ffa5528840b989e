"""Which blocks of a page are its article."""
from hypothesis import strategies as st

import jvm
import pages
from jvm import Block
from pages import END, HEADING, LABELS, LI, LIKELY, MIGHT, NOT, TITLE
from vf import Prop, expect, expect_eq

jvm.build()

RULE = ('Cases are documents (blocks with numbers of words, links, depths, labels and texts around the limits of the rules), and one rule, a sequence '
        'of rules or an extractor that is applied; and whole pages. Non-trivial: the document has two or more blocks and the rule changes it.')
ASSUMPTIONS = ['NekoHTML and Xerces are not installed: pages are well-formed, and the parser of the JDK stands in for them',
               'the offsets of the blocks grow; the return value of a filter, which nothing uses, is not checked',
               'SurroundingToContentFilter, ArticleMetadataFilter and PrintDebugFilter, which no extractor uses, are not modelled']

LIMITS = st.one_of(st.sampled_from([0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 29, 30, 31, 40, 41, 59, 60, 61, 99, 100, 101, 149, 150, 151, 200, 201]),
                   st.integers(0, 250))
TITLES = ['A title of a page', 'News - The brain', 'The brain of the year | Graph.com', 'One: two (three, four) five six', "What's new? - a - b", 'x » y z', 'word',
          'a b c d - e f g h', 'a b c d | e.com f g h', ' - ', '|', 'hyper\u00a0graph - brain', 'short - a much longer part', 'ab cd - efghijklmnop', 'a (b) c', 'ab cd: efghijklmnop', 'efghijklmnop: a b c', 'x.com a b: cd', 'a b c (internationalisation) d', 'ab, cd ef, g h i']
PHRASES = ['Comments', 'comments (2)', 'No comments yet', '12 comments', '12 Comments on this', '12  comments', 'x12 comments', '3 users responded in this post',
           '3 users responded', '© Reuters 2009', 'Please rate this', 'rate this please', 'Post a comment', 'Do post a comment', 'Tell us what you think...', 'what you think',
           'Add your comment', 'please add comment now', 'Reader views', 'Have your say', 'reader comments', 'RÄTTA ARTIKELN', 'Comment', 'comment', 'Comment ', 'Comments!',
           'Thanks for your comments - this feedback is now closed', 'Thanks for your comments', 'thanks for your comments - this feedback is now closed.', '']
TEXTS = ['word', 'Some words, and others. And more of them', 'One two three four five. Six', 'one two three four five', 'One two three four, five six', 'a b c d e!',
         'line one\nline two', 'first. second\n\nthird: four five six seven eight; nine\nten', 'Why? Because of the graph, the brain and the words.', '5 6 7 8 9. 10', 'a b c d e. \nf']


def title_parts(t):
    return sorted(pages.potential_titles(t))


@st.composite
def docs(draw, max_blocks=9):
    title = draw(st.one_of(st.none(), st.sampled_from(TITLES), st.lists(st.sampled_from(['a', 'bc', 'def', ' - ', ' | ', ': ', ', ', ' (', ') ', '-', '.com', ' ', "'", '»', '\u00a0']), max_size=8).map(''.join)))
    own = sorted(x for x in ([] if title is None else title_parts(title) + [title]) if x)
    text = st.one_of(st.sampled_from(TEXTS), st.sampled_from(PHRASES), *([st.sampled_from(own), st.sampled_from([x.upper() + '?!' for x in own])] if own else []))
    n = draw(st.integers(0, max_blocks))
    blocks, offset = [], draw(st.integers(0, 1))
    for _ in range(n):
        words = draw(LIMITS)
        linked = draw(st.one_of(st.just(0), st.just(0), st.just(words), st.integers(0, words), st.sampled_from([words // 3, words // 3 + 1, -(-words * 5 // 9), words * 5 // 9])))
        linked = min(words, linked)
        if draw(st.booleans()) or words == 0:
            wrapped, lines = words, 1
        else:
            lines = draw(st.integers(1, 12))
            wrapped = draw(st.one_of(st.sampled_from([min(words, lines * k) for k in (4, 5, 8, 9, 10, 11, 12)]), st.integers(1, words)))
        labels = draw(st.lists(st.sampled_from([TITLE, END, MIGHT, LIKELY, NOT, LI, HEADING, LABELS + 'H1', '<P', '<DIV', '<.x', 'x']), max_size=3, unique=True))
        blocks.append((draw(st.booleans()), draw(text), words, linked, wrapped, lines, draw(st.integers(1, 4)), offset, tuple(sorted(labels))))
        offset += draw(st.sampled_from([1, 1, 1, 2, 3]))
    return title, tuple(blocks)


def make(blocks):
    return [Block(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], None, b[8], {3 * i, 3 * i + 2}) for i, b in enumerate(blocks)]


def normal(b):
    # as the constructor does
    if b.wrapped == 0:
        b.wrapped, b.lines = b.words, 1
    return b


def compare(got, want, what):
    expect(len(got) == len(want), '%s: %s blocks, expected %s: %r', what, len(got), len(want), [b['text'] for b in got])
    for i, (g, w) in enumerate(zip(got, want)):
        for k, v in w.view().items():
            expect(g[k] == v, '%s: %s of block %s is %r, expected %r', what, k, i, g[k], v)
        expect(abs(g['density'] - w.density) < 1e-4 and abs(g['link_density'] - w.link_density) < 1e-6,
               '%s: densities of block %s are %r %r, expected %r %r', what, i, g['density'], g['link_density'], w.density, w.link_density)


def rules(case, rec):
    """After the rules are applied one after the other, every block of the document is as in the model: kept, removed or fused, content or not, with its labels."""
    (title, blocks), names = case
    want = [normal(b) for b in make(blocks)]
    before = [b.view() for b in want]
    for name in names:
        pages.apply(name, title, want)
    fields = [f for b in make(blocks) for f in b.fields()]
    got_title, got, rest = jvm.read_blocks(jvm.call('filter', '\n'.join(names), '-' if title is None else '=' + title, *fields))
    expect_eq(got_title, title, 'title')
    compare(got, want, ', '.join(names))
    rec.label(*(x.split(' ')[0] for x in names))
    rec.nontrivial(len(blocks) > 1 and before != [b.view() for b in want])


def text(case, rec):
    """The text of a document is that of its content blocks (or of the others, or all, or none) in order; its statistics are of the same blocks; a copy can be changed on its own."""
    title, blocks = case
    bs = [normal(b) for b in make(blocks)]
    v = jvm.call('text', '-' if title is None else '=' + title, *[f for b in make(blocks) for f in b.fields()])

    def join(keep):
        return ''.join(b.text + '\n' for b in bs if keep(b))
    expect_eq(v[0], join(lambda b: b.content), 'content')
    expect_eq(v[1], join(lambda b: b.content), 'text of the content')
    expect_eq(v[2], join(lambda b: not b.content), 'text of the rest')
    expect_eq(v[3], join(lambda b: True), 'whole text')
    expect_eq(v[4], '', 'no text')
    a, c = sum(b.words for b in bs), sum(b.words for b in bs if b.content)
    n = sum(b.content for b in bs)
    expect_eq((int(v[5]), int(v[6])), (a, c), 'numbers of words')
    if bs:
        expect(abs(float(v[7]) - a / len(bs)) < 1e-3, 'average of words: %r, expected %r', v[7], a / len(bs))
    if n:
        expect(abs(float(v[8]) - c / n) < 1e-3, 'average of words of the content: %r, expected %r', v[8], c / n)
        expect_eq(v[9], str(int(a < 90 or c < 70 or c / n < 25)), 'low quality')
    t, got, rest = jvm.read_blocks(v[10:])
    expect_eq(t, title, 'title')
    compare(got, bs, 'after a copy was changed')
    t, got, rest = jvm.read_blocks(rest)
    expect_eq(t, title, 'title of the copy')
    copies = [normal(b) for b in make(blocks)]
    for b in copies:
        b.content = not b.content
        b.labels.add('copy')
        b.elements.add(1000)
    for b in copies[1:]:
        pages.merge(copies[0], b)
    compare(got, copies[:1], 'copy')
    rec.nontrivial(len(bs) > 1 and 0 < n < len(bs))


def page(case, rec):
    """The text that an extractor gets from a page is that of the model of the page and of the rules."""
    (head, children), name, how = case
    # (a title is compared with the blocks without a change of the white space inside it)
    source = pages.page(head and [pages.collapse(x) for x in head], [pages.collapse(x) for x in children])
    title, bs = pages.ref_blocks(pages.events(source, 'reader'))
    pages.apply(name, title, bs)
    want = [pages.words_of(b.text) for b in bs if b.content]
    got = jvm.call('extract', name, source, how)[0]
    expect_eq(pages.words_of(got), [w for ws in want for w in ws], 'text by ' + name)
    expect(got == '' or got.endswith('\n'), 'text does not end with a line: %r', got)
    rec.label(name, how)
    rec.nontrivial(len(want) > 0 and len(bs) > len(want))


N = st.sampled_from([0, 1, 2, 3, 5, 8, 9, 10, 15, 16, 17, 20, 30, 40, 60, 61, 99, 100, 101, 150, 151, 200])
BIT = st.sampled_from('01')
SOME = st.lists(st.sampled_from([TITLE, END, LI, HEADING, '<P', 'x', 'y']), min_size=1, max_size=3, unique=True).map(' '.join)
KINDS = {name: st.just(name) for name in pages.RULES}
KINDS.update({
    'IgnoreBlocksAfterContent': st.builds('IgnoreBlocksAfterContent {}'.format, st.one_of(st.sampled_from([60, 200]), N)),
    'MinFulltextWords': st.builds('MinFulltextWords {}'.format, st.one_of(st.just(30), N)),
    'MinWords': st.builds('MinWords {}'.format, N),
    'KeepLargestBlock': st.builds('KeepLargestBlock {}'.format, st.one_of(st.sampled_from([0, 150]), N)),
    'BlockProximityFusion': st.builds('BlockProximityFusion {} {} {}'.format, st.sampled_from([1, 1, 1, 0, 2, 3]), BIT, BIT),
    'MinClauseWords': st.builds('MinClauseWords {} {}'.format, st.sampled_from([5, 5, 1, 2, 3, 4, 6, 7]), BIT),
    'LabelToBoilerplate ...': SOME.map('LabelToBoilerplate {}'.format), 'LabelToContent': SOME.map('LabelToContent {}'.format),
    'KeepEverythingWithMinKWords': st.builds('KeepEverythingWithMinKWords {}'.format, N)})
MORE = ['TerminatingBlocksFinder', 'DocumentTitleMatchClassifier', 'NumWordsRulesClassifier', 'IgnoreBlocksAfterContent', 'TrailingHeadline', 'BlockProximityFusion',
        'KeepLargestBlock', 'ExpandTitleToContent', 'LargeBlockSameTagLevel', 'ListAtEnd', 'DensityRulesClassifier', 'Canola']
RULE_NAMES = st.sampled_from(MORE * 2 + sorted(KINDS)).flatmap(KINDS.get)
EXTRACTORS = st.one_of(st.just('Article'), st.sampled_from(['Article', 'Default', 'LargestContent', 'CanolaExtractor', 'KeepEverything', 'ArticleSentences', 'NumWordsRules']))


def chain(names):
    # blocks that were split have no numbers of words nor elements, so that nothing else is for them
    return 'SplitParagraphBlocks' not in names[:-1]


PROPS = [
    Prop('rule', st.tuples(docs(), RULE_NAMES.map(lambda x: (x,))), rules, 5000, 120000),
    Prop('rules', st.tuples(docs(), st.lists(RULE_NAMES, min_size=2, max_size=5).map(tuple).filter(chain)), rules, 2500, 60000),
    Prop('extractor', st.tuples(docs(12), EXTRACTORS.map(lambda x: (x,))), rules, 3000, 80000),
    Prop('text', docs(), text, 1500, 30000),
    Prop('page', st.tuples(pages.articles(), st.one_of(EXTRACTORS, st.just('KeepEverythingWithMinKWords 5')), st.sampled_from(['text', 'reader', 'document'])), page, 2000, 40000),
]
