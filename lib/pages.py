"""Pages, the blocks of text they have, and the rules that find their article: an independent model of what the Java code does."""
import re
import unicodedata

from hypothesis import strategies as st

import jvm
from jvm import Block, f32

IGNORED = ('STYLE', 'SCRIPT', 'OPTION', 'OBJECT', 'EMBED', 'APPLET', 'LINK', 'NOSCRIPT')
INLINE = ('STRIKE', 'U', 'B', 'I', 'EM', 'STRONG', 'SPAN', 'SUP', 'CODE', 'TT', 'SUB', 'VAR', 'FONT')
SPACED = ('ABBR', 'ACRONYM')
LABELS = 'de.l3s.boilerpipe/'
LABELLED = {'LI': ('LI',), 'H1': ('H1', 'HEADING'), 'H2': ('H2', 'HEADING'), 'H3': ('H3', 'HEADING')}
BLOCKS = ('P', 'DIV', 'TD', 'TABLE', 'UL', 'BLOCKQUOTE', 'ARTICLE', 'FORM', 'PRE', 'H4', 'BR', 'IMG', 'HR', 'CENTER', 'BIG', 'SMALL')
WHITE = ' \t\n\u2003\u3000'     # white space in Java, of what is generated


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def attr(s):
    return esc(s).replace('\n', '&#10;').replace('\t', '&#9;')


def html(node):
    """The text of a page: a node is a text, or (tag, attributes, children)."""
    if isinstance(node, str):
        return esc(node)
    tag, atts, children = node
    a = ''.join(' %s="%s"' % (k, attr(v)) for k, v in atts)
    return '<%s%s>%s</%s>' % (tag, a, ''.join(html(c) for c in children), tag)


def page(head, body, mixed=False):
    """The text of a page with these children of its head (None: no head) and body."""
    h = () if head is None else (('head' if mixed else 'HEAD', (), tuple(head)),)
    return html(('html' if mixed else 'HTML', (), h + (('body' if mixed else 'BODY', (), tuple(body)),)))


def events(text, how='text'):
    """What the parser says: ('<', name, attributes), ('>', name), ('t', text)"""
    v = jvm.call('events', text, how)
    res, i = [], 0
    while i < len(v):
        if v[i] == '<':
            n = int(v[i + 2])
            res.append(('<', v[i + 1], tuple((v[i + 3 + 2 * k], v[i + 4 + 2 * k]) for k in range(n))))
            i += 3 + 2 * n
        else:
            res.append((v[i], v[i + 1]))
            i += 2
    return res


def words_of(text):
    return [w for w in re.split('[%s]+' % WHITE, text) if w]


def tokens(text):
    """Words and other tokens: broken where letters and digits meet other characters, but not at these ones"""
    def inside(c):
        return c == '_' or unicodedata.category(c) in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nd')
    res = []
    for s in words_of(text):
        cur = s[0]
        for a, b in zip(s, s[1:]):
            if inside(a) != inside(b) and a not in '"\'.,!@-:;$?()/' and b not in '"\'.,!@-:;$?()/':
                res.append(cur)
                cur = ''
            cur += b
        res.append(cur)
    return res


def is_word(token):
    return any(unicodedata.category(c) in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nd', 'Nl', 'No') for c in token)


def make_block(runs, elements, level, labels, offset):
    text = ' '.join(words_of(''.join(t for t, _ in runs)))
    words = linked = 0
    lines, length = [[]], -1
    # runs with the same state of linkage are one text; others are apart
    joined = []
    for t, a in runs:
        if joined and joined[-1][1] == a:
            joined[-1][0] += t
        else:
            joined.append([t, a])
    for t, a in joined:
        for w in tokens(t):
            if is_word(w):
                words += 1
                linked += a
                if length + len(w) + 1 > 80:
                    lines.append([])
                    length = -1
                    if len(lines) > 1:
                        length = len(w)
                else:
                    length += len(w) + 1
                lines[-1].append(w)
    if len(lines) == 1:
        wrapped, n = words, 1
    else:
        wrapped, n = words - len(lines[-1]), len(lines) - 1
    if wrapped == 0:
        wrapped, n = words, 1
    return Block(False, text, words, linked, wrapped, n, level, offset, offset, labels, elements)


def ref_blocks(evs):
    """(title, blocks) of a page, from what the parser says of it"""
    title = None
    blocks = []
    cur = {'runs': [], 'elements': [], 'level': None, 'labels': None}
    stack = []
    index = 0
    title_text = None
    body = False

    def close():
        if any(words_of(t) for t, _ in cur['runs']):
            blocks.append(make_block(cur['runs'], cur['elements'], cur['level'], cur['labels'], len(blocks)))
        cur.update(runs=[], elements=[], level=None, labels=None)

    def state():
        names = [n.upper() for n in stack]
        return (sum(1 for n in names if n not in INLINE and n not in SPACED),
                {LABELS + x for n in names for x in LABELLED.get(n, ())},
                'A' in names, any(n in IGNORED for n in names))

    for e in evs:
        if e[0] == '<':
            name = e[1].upper()
            stack.append(e[1])
            if name == 'BODY':
                body = True
                close()
            elif name == 'TITLE' and not body:
                title_text = ''
            elif name in SPACED or name == 'A':
                cur['runs'].append((' ', False))
            elif name not in INLINE:
                close()
        elif e[0] == '>':
            name = e[1].upper()
            stack.pop()
            if name == 'BODY':
                close()
                body = False
            elif name == 'TITLE' and not body:
                title = ' '.join(words_of(title_text)) or title
                title_text = None
            elif name in SPACED or name == 'A':
                cur['runs'].append((' ', False))
            elif name not in INLINE:
                close()
        else:
            index += 1
            level, labels, linked, ignored = state()
            if title_text is not None:
                title_text += e[1]
            if ignored or not body:
                continue
            cur['runs'].append((e[1], linked))
            if words_of(e[1]):
                cur['elements'].append(index)
                if cur['level'] is None:
                    cur['level'], cur['labels'] = level, labels
    return title, blocks


# ---------------------------------------------------------------- rules

TITLE = LABELS + 'TITLE'
END = LABELS + 'INDICATES_END_OF_TEXT'
MIGHT = LABELS + 'MIGHT_BE_CONTENT'
LIKELY = LABELS + 'VERY_LIKELY_CONTENT'
NOT = LABELS + 'STRICTLY_NOT_CONTENT'
LI = LABELS + 'LI'
HEADING = LABELS + 'HEADING'


class Outside:
    """What is before the first and after the last block"""
    words = 0
    density = 0.0
    link_density = 0.0


def merge(a, b):
    a.text += '\n' + b.text
    a.words += b.words
    a.linked += b.linked
    a.wrapped += b.wrapped
    a.lines += b.lines
    if a.wrapped == 0:
        a.wrapped, a.lines = a.words, 1
    a.start, a.end = min(a.start, b.start), max(a.end, b.end)
    a.content = a.content or b.content
    a.labels |= b.labels
    a.elements |= b.elements
    a.level = min(a.level, b.level)


def neighbours(bs):
    return zip([Outside] + bs[:-1], bs, bs[1:] + [Outside])


def terminating(title, bs):
    for b in bs:
        if b.words >= 15:
            continue
        text = b.text.strip()
        low = text.lower()
        if len(text) >= 8:
            n = re.match('[0-9]+( comments| users responded in)', low)
            if (n or low.startswith(('comments', '© reuters', 'please rate this', 'post a comment'))
                    or any(x in low for x in ('what you think...', 'add your comment', 'add comment', 'reader views', 'have your say',
                                              'reader comments', 'rätta artikeln'))
                    or low == 'thanks for your comments - this feedback is now closed'):
                b.labels.add(END)
        elif text == 'Comment' and b.link_density == 1.0:
            b.labels.add(END)


def jsplit(pattern, s):
    parts = re.split(pattern, s)
    while len(parts) > 1 and parts[-1] == '':
        parts.pop()
    return parts if s == '' or parts != [''] else []


def potential_titles(title):
    """The texts that are taken for the title of a page: the title, and parts of it"""
    t = title.replace('\u00a0', ' ').replace("'", '').strip().lower()
    if not t:
        return set()
    res = {t}

    def count(p):
        return len(jsplit('[\b ]+', p))
    for seps in ('|»-', '|»:', '|»:()', '|»:()-', '|»,:()-', '|»,:()-\u00a0'):
        parts = jsplit('[ ]*[%s][ ]*' % re.escape(seps), t)
        if len(parts) == 1:
            continue
        most, best = 0, ''
        for p in parts:
            if '.com' not in p and (count(p) > most or len(p) > len(best)):
                most, best = count(p), p
        if best:
            res.add(best.strip())
    for sep in ('|', '-'):
        parts = jsplit('[ ]+[%s][ ]+' % sep, t)
        if len(parts) != 1:
            res.update(p for p in parts if '.com' not in p and count(p) >= 4)
    res.add(re.sub(' - [^-]+$', '', t, count=1))
    res.add(re.sub('^[^-]+ - ', '', t, count=1))
    return res


def title_match(title, bs):
    if title is None:
        return
    titles = potential_titles(title)
    for b in bs if titles else ():
        t = b.text.replace('\u00a0', ' ').replace("'", '').strip().lower()
        if t in titles or re.sub(r'[?!.\-:]+', '', t).strip() in titles:
            b.labels.add(TITLE)
            break


def num_words(title, bs):
    res = []
    for p, b, n in neighbours(bs):
        if b.link_density > 0.333333:
            res.append(False)
        elif p.link_density <= 0.555556:
            res.append(b.words > 16 or n.words > 15 or p.words > 4)
        else:
            res.append(b.words > 40 or n.words > 17)
    for b, c in zip(bs, res):
        b.content = c


def density(title, bs):
    res = []
    for p, b, n in neighbours(bs):
        if b.link_density > 0.333333:
            res.append(False)
        elif p.link_density <= 0.555556:
            res.append(n.density > 10 or p.density > 4 if b.density <= 9 else n.density != 0)
        else:
            res.append(n.density > 11)
    for b, c in zip(bs, res):
        b.content = c


def canola(title, bs):
    res = []
    for p, b, n in neighbours(bs):
        res.append(b.link_density > 0 and n.words > 11 or b.words > 19
                   or n.words > 6 and n.link_density == 0 and p.link_density == 0 and (b.words > 6 or p.words > 7 or n.words > 19))
    for b, c in zip(bs, res):
        b.content = c


def full_text(b):
    return b.words if b.density >= 9 else 0


def after_content(minimum):
    def f(title, bs):
        n, found = 0, False
        for b in bs:
            if b.content:
                n += full_text(b)
            found = found or END in b.labels and n >= minimum
            if found:
                b.content = False
    return f


def after_content_from_end(title, bs):
    n = 0
    for b in reversed(bs):
        if END in b.labels:
            b.labels = b.labels - {MIGHT} | {NOT}
            b.content = False
        elif b.content:
            n += b.words
            if n > 200:
                break


def keep_fulltext(title, bs):
    content = [b for b in bs if b.content]
    if len(bs) < 2 or not content:
        return
    best = max(content, key=full_text)
    for b in bs:
        b.content = b is best
        if b is not best:
            b.labels.add(MIGHT)


def min_fulltext(n):
    def f(title, bs):
        for b in bs:
            b.content = b.content and full_text(b) >= n
    return f


def proximity(distance, content_only, same_level):
    def f(title, bs):
        if len(bs) < 2:
            return
        if content_only:
            first = next((i for i, b in enumerate(bs) if b.content), None)
            if first is None:
                return
        else:
            first = 0
        res = bs[:first + 1]
        for b in bs[first + 1:]:
            p = res[-1]
            if (b.content and b.start - p.end - 1 <= distance and (p.content or not content_only)
                    and (p.level == b.level or not same_level)):
                merge(p, b)
            else:
                res.append(b)
        bs[:] = res
    return f


def expand_title(title, bs):
    start = next((i for i, b in enumerate(bs) if b.content), None)
    if start is None:
        return
    titles = [i for i, b in enumerate(bs[:start + 1]) if TITLE in b.labels]
    if titles:
        for b in bs[titles[-1]:start]:
            if MIGHT in b.labels:
                b.content = True


def keep_largest(expand, minimum):
    def f(title, bs):
        if len(bs) < 2:
            return
        content = [i for i, b in enumerate(bs) if b.content]
        n = max(content, key=lambda i: bs[i].words) if content else None
        for i, b in enumerate(bs):
            b.content = i == n
            b.labels.add(LIKELY if i == n else MIGHT)
        if expand and n is not None:
            level = bs[n].level
            for part in (bs[:n][::-1], bs[n:]):
                for b in part:
                    if b.level < level:
                        break
                    if b.level == level and b.words >= minimum:
                        b.content = True
    return f


def markup(labels):
    return {x for x in labels if x.startswith('<')}


def label_fusion(title, bs):
    res = bs[:1]
    for b in bs[1:]:
        p = res[-1]
        if p.labels and b.labels and markup(p.labels) == markup(b.labels):
            merge(p, b)
        else:
            res.append(b)
    bs[:] = res


def large_same_level(title, bs):
    level = next((b.level for b in bs if b.content and LIKELY in b.labels), -1)
    for b in bs:
        if level != -1 and b.words >= 100 and b.level == level:
            b.content = True


def list_at_end(title, bs):
    level = None
    for b in bs:
        if b.content and LIKELY in b.labels:
            level = b.level
        elif level is not None and b.level > level and MIGHT in b.labels and LI in b.labels and b.link_density == 0:
            b.content = True
        else:
            level = None


def simple_fusion(title, bs):
    res = bs[:1]
    for b in bs[1:]:
        if res[-1].density == b.density:
            merge(res[-1], b)
        else:
            res.append(b)
    bs[:] = res


def content_fusion(title, bs):
    # a content block takes in all that follows, up to one of links
    again = True
    while again:
        again = False
        res = bs[:1]
        for b in bs[1:]:
            if res[-1].content and b.link_density < 0.56 and NOT not in b.labels:
                merge(res[-1], b)
                again = True
            else:
                res.append(b)
        bs[:] = res


def preceding_labels(prefix):
    def f(title, bs):
        before = [set(b.labels) for b in bs]
        for b, labels in zip(bs[1:], before):
            b.labels |= {prefix + x for x in labels}
    return f


def trailing_headline(title, bs):
    for b in reversed(bs):
        if b.content:
            if HEADING not in b.labels:
                break
            b.content = False


def drop(keep_title):
    def f(title, bs):
        bs[:] = [b for b in bs if b.content or keep_title and TITLE in b.labels]
    return f


def inverted(title, bs):
    for b in bs:
        b.content = not b.content


def to_boilerplate(*labels):
    def f(title, bs):
        for b in bs:
            b.content = b.content and not b.labels & set(labels)
    return f


def to_content(*labels):
    def f(title, bs):
        for b in bs:
            b.content = b.content or bool(b.labels & set(labels))
    return f


def everything(content):
    def f(title, bs):
        for b in bs:
            b.content = content
    return f


def min_words(n):
    def f(title, bs):
        for b in bs:
            b.content = b.content and b.words >= n
    return f


def min_clause(n, without):
    def f(title, bs):
        for b in bs:
            if not b.content:
                continue
            clauses, start = [], 0
            for m in re.finditer(r'[^\W_][,.:;!?]+([ \n\r]+|$)', b.text):
                clauses.append(b.text[start:m.start() + 1])
                start = m.end()
            if without:
                clauses.append(b.text[start:])
            b.content = any(len(re.findall('[ \n\r]+', c)) + 1 >= n for c in clauses)
    return f


def split_paragraphs(title, bs):
    res = []
    for b in bs:
        parts = [p for i, p in enumerate(re.split('[\n\r]+', b.text.rstrip('\n\r')))]
        if len(parts) < 2:
            res.append(b)
        else:
            res += [Block(b.content, p, labels=b.labels) for p in parts]
    bs[:] = res


RULES = {
    'TerminatingBlocksFinder': terminating, 'DocumentTitleMatchClassifier': title_match, 'NumWordsRulesClassifier': num_words,
    'DensityRulesClassifier': density, 'Canola': canola, 'IgnoreBlocksAfterContentFromEnd': after_content_from_end,
    'KeepLargestFulltextBlock': keep_fulltext, 'ExpandTitleToContent': expand_title, 'LabelFusion': label_fusion,
    'LargeBlockSameTagLevel': large_same_level, 'ListAtEnd': list_at_end, 'SimpleBlockFusion': simple_fusion,
    'ContentFusion': content_fusion, 'TrailingHeadline': trailing_headline, 'Inverted': inverted,
    'MarkEverythingBoilerplate': everything(False), 'MarkEverythingContent': everything(True), 'SplitParagraphBlocks': split_paragraphs,
    'BoilerplateBlock': drop(False), 'BoilerplateBlock title': drop(True), 'LabelToBoilerplate': to_boilerplate(NOT),
    'AddPrecedingLabels': preceding_labels(''), 'AddPrecedingLabels ^': preceding_labels('^'),
    'KeepLargestBlock -': keep_largest(False, 0), 'NumWordsRules': num_words, 'CanolaExtractor': canola, 'KeepEverything': everything(True),
}
EXTRACTORS = {
    'Article': ('TerminatingBlocksFinder', 'DocumentTitleMatchClassifier', 'NumWordsRulesClassifier', 'IgnoreBlocksAfterContent 60',
                'TrailingHeadline', 'BlockProximityFusion 1 0 0', 'BoilerplateBlock title', 'BlockProximityFusion 1 1 1',
                'KeepLargestBlock 150', 'ExpandTitleToContent', 'LargeBlockSameTagLevel', 'ListAtEnd'),
    'Default': ('SimpleBlockFusion', 'BlockProximityFusion 1 0 0', 'DensityRulesClassifier'),
    'LargestContent': ('NumWordsRulesClassifier', 'BlockProximityFusion 1 0 0', 'KeepLargestBlock -'),
}
EXTRACTORS['ArticleSentences'] = EXTRACTORS['Article'] + ('SplitParagraphBlocks', 'MinClauseWords 5 0')


def apply(name, title, bs):
    """Applies the rule of this name to the blocks."""
    if name in RULES:
        return RULES[name](title, bs)
    if name in EXTRACTORS:
        for part in EXTRACTORS[name]:
            apply(part, title, bs)
        return None
    kind, *args = name.split(' ')
    if kind == 'KeepEverythingWithMinKWords':
        for part in ('SimpleBlockFusion', 'MarkEverythingContent', 'MinWords ' + args[0]):
            apply(part, title, bs)
        return None
    if kind == 'LabelToBoilerplate':
        return to_boilerplate(*args)(title, bs)
    if kind == 'LabelToContent':
        return to_content(*args)(title, bs)
    n = [int(a) for a in args]
    return {'IgnoreBlocksAfterContent': after_content, 'MinFulltextWords': min_fulltext, 'MinWords': min_words,
            'BlockProximityFusion': lambda d, c, s: proximity(d, bool(c), bool(s)), 'KeepLargestBlock': lambda k: keep_largest(True, k),
            'MinClauseWords': lambda k, w: min_clause(k, bool(w))}[kind](*n)(title, bs)


# ---------------------------------------------------------------- pages to try

VOCABULARY = ('a', 'the', 'word', 'Graph', 'brain', 'of', 'in', 'été', 'Straße', '42', '3.14', "it's", 'e-mail', 'x_y', 'foo@bar.org', 'C++', '&',
              '<', '>', '"', '|', '—', '½', 'Ⅳ', 'a&b', 'a/b', '$5', '$', '\\', '(no)', '...', 'Yes!', 'why?', 'Comment', 'Comments', 'add comment',
              'hyper\u00a0graph', '\u00a0', 'internationalisation', '日本語', 'x' * 85, 'y' * 40, '*', '%s', '\\1', '#')


def texts(max_words=8):
    core = st.lists(st.sampled_from(VOCABULARY), max_size=max_words)
    sep = st.sampled_from([' ', ' ', ' ', '\n', '  ', '\t', '\u3000'])
    edge = st.sampled_from(['', '', ' ', '\n', '  '])
    return st.builds(lambda ws, s, a, b: a + s.join(ws) + b, core, sep, edge, edge).filter(bool)


def long_texts():
    """Of many words: around the limits of the rules"""
    n = st.one_of(st.sampled_from([4, 5, 6, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 30, 39, 40, 41, 59, 60, 61, 99, 100, 101, 149, 150, 151]),
                  st.integers(1, 70))
    return st.builds(lambda n, w: ' '.join([w] * n), n, st.sampled_from(['word', 'a', 'brain', 'hypergraphs', 'end.']))


ATTRS = st.lists(st.tuples(st.sampled_from(['id', 'class', 'href', 'title', 'size', 'style']),
                           st.sampled_from(['', 'x', 'a b', 'a"b', '<&>', '$1', "it's", '+1', '3', 'x-boilerpipe-mark1'])),
                 max_size=2, unique_by=lambda x: x[0]).map(tuple)


def collapse(node):
    """The same with single spaces for white space"""
    if isinstance(node, str):
        return re.sub('[%s]+' % WHITE, ' ', node)
    return node[0], node[1], tuple(collapse(c) for c in node[2])


def nodes(depth, text, tags, anchors=True):
    """A child of an element"""
    if depth == 0:
        return text
    tag = st.sampled_from(tags)

    def build(name, atts, children, anchor):
        return (name, atts, tuple(children))
    plain = st.builds(lambda t, a, c: (t, a, tuple(c)), tag, ATTRS, st.lists(st.deferred(lambda: nodes(depth - 1, text, tags, anchors)), max_size=3))
    options = [text, plain]
    if anchors:
        options.append(st.builds(lambda a, c: ('A', a, tuple(c)), ATTRS, st.lists(st.deferred(lambda: nodes(depth - 1, text, tags, False)), max_size=2)))
    return st.one_of(*options)


TAGS = INLINE[:8] + ('SPAN', 'FONT', 'SUP', 'SUB', 'VAR', 'CODE', 'TT') + SPACED + ('P', 'P', 'P', 'DIV', 'DIV') + BLOCKS + tuple(LABELLED) + ('LI', 'H2') + IGNORED

HEADS = st.one_of(st.none(), st.lists(st.one_of(
    st.builds(lambda t: ('TITLE', (), (t,)), texts(6)), st.builds(lambda t: ('TITLE', (), (t,)), st.sampled_from(['A title of a page', 'News - The brain', ' ', 'One | two three four five'])),
    st.sampled_from([('META', (('name', 'x'),), ()), ('SCRIPT', (), ('var x;',)), ('STYLE', (), ('a {}',)), ('LINK', (), ()), '\n', ' '])), max_size=4))


def pages():
    """(head, children of the body)"""
    return st.tuples(HEADS, st.lists(nodes(4, texts(), TAGS), max_size=6))


def articles():
    """Pages of paragraphs, headings, lists and links of many sizes"""
    text = st.one_of(long_texts(), long_texts(), texts(3))
    link = st.builds(lambda t: ('A', (('href', 'u'),), (t,)), text)
    para = st.builds(lambda tag, c: (tag, (), tuple(c)), st.sampled_from(['P', 'P', 'P', 'DIV', 'LI', 'H1', 'H2', 'TD']),
                     st.lists(st.one_of(text, text, text, link), min_size=1, max_size=3))
    special = st.sampled_from([('P', (), ('Comments (3)',)), ('DIV', (), ('12 users responded in all',)), ('P', (), (('A', (), ('Comment',)),)),
                               ('P', (), ('Add your comment here',)), ('H1', (), ('A title of a page',)), ('H2', (), ('the BRAIN',)),
                               ('P', (), ('News',)), ('DIV', (), ('two three four five',))])
    group = st.builds(lambda tag, c: (tag, (), tuple(c)), st.sampled_from(['DIV', 'UL', 'BLOCKQUOTE']), st.lists(st.one_of(para, para, special), min_size=1, max_size=5))
    return st.tuples(HEADS, st.lists(st.one_of(para, para, para, special, group), min_size=1, max_size=9))
