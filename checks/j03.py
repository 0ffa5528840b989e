"""The HTML and the images of the article of a page."""
from hypothesis import strategies as st

import jvm
import pages
from vf import Prop, expect, expect_eq

jvm.build()

RULE = ('Cases are pages (as those of J01, with images), the texts of them that are content, and the settings of the highlighter; and whole pages whose article is '
        'extracted. Non-trivial: some of the texts are content and some are not.')
ASSUMPTIONS = ['NekoHTML and Xerces are not installed: pages are well-formed, and the parser of the JDK, with the names of elements in upper case, stands in for them',
               'fetching a page from the network is not tried']

IGNORED = pages.IGNORED + ('HEAD',)
EXTRACT_STYLE = '\n<style type="text/css">\n' + ''.join("%s { content:' '; } \n" % x for x in ('A:before', 'A:after', 'SPAN:before', 'SPAN:after')) + '</style>\n'
MARK = ('<span class="x-boilerpipe-mark1">', '</span>')
STYLE = ('\n<style type="text/css">\n.x-boilerpipe-mark1 { text-decoration:none; background-color: #ffff42 !important; color: black !important; '
         'display:inline !important; visibility:visible !important; }\n</style>\n')


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def content_of(evs, mask):
    """Numbers of the texts that are content"""
    n = sum(e[0] == 't' for e in evs)
    return {i for i in range(1, n + 1) if mask >> (i * 7 % 31) & 1}


def tree(evs, content, only, style, marks, allowed):
    """What is left of the page: texts, and [tag, nodes] with the whole start tag."""
    root = ['', []]
    stack = [root]
    ignored = index = 0
    for e in evs:
        if e[0] == '<':
            ignored += e[1] in IGNORED
            if ignored:
                continue
            atts = '' if e[1] == 'SPAN' and ('class', 'x-boilerpipe-mark1') in e[2] else ''.join(
                ' %s="%s"' % (k, esc(v)) for k, v in e[2] if allowed is None or k in allowed.get(e[1], ()))
            node = [e[1], [], '<%s%s>' % (e[1], atts)]
            if allowed is None or e[1] in allowed:
                stack[-1][1].append(node)
            else:
                node[1] = stack[-1][1]
            stack.append(node)
        elif e[0] == '>':
            if e[1] == 'HEAD' and style:
                stack[-1][1].append(style)
            if not ignored:
                stack.pop()
            ignored -= e[1] in IGNORED
        else:
            index += 1
            if ignored:
                continue
            if index in content:
                stack[-1][1].append(marks[0] + esc(e[1]) + marks[1])
            elif not only:
                stack[-1][1].append(esc(e[1]))
    return root[1]


def text_of(nodes):
    return ''.join(n if isinstance(n, str) else n[2] + text_of(n[1]) + '</%s>' % n[0] for n in nodes)


def trim(nodes):
    """Without elements that have nothing in them"""
    res = []
    for n in nodes:
        if not isinstance(n, str):
            n = [n[0], trim(n[1]), n[2]]
            if not n[1]:
                continue
        res.append(n)
    return res


def extracted(nodes):
    """What the extracted text may be: the elements around all the content are dropped, as far as elements are what they have and the text is on one line,
    or further (when what made them differ was dropped later)."""
    nodes = trim(nodes)
    res, least = [text_of(nodes)], 0
    go = True
    while len(nodes) == 1 and not isinstance(nodes[0], str):
        nodes = nodes[0][1]
        inside = text_of(nodes)
        go = go and inside.startswith('<') and inside.endswith('>') and not any(c in inside for c in '\n\r\u0085\u2028\u2029')
        res.append(inside)
        least += go
    return res[least:]


def images(evs, content):
    """Images after a text that is content, if one more such text comes later."""
    found, waiting, index, ignored, on = [], [], 0, 0, False
    for e in evs:
        if e[0] == '<':
            ignored += e[1] in IGNORED and e[1] != 'OBJECT'
            atts = dict(e[2])
            if not ignored and on and e[1] == 'IMG' and atts.get('src'):
                w, h, alt = (((atts.get(k) or '').strip() or None) for k in ('width', 'height', 'alt'))
                try:
                    area = int(atts['width']) * int(atts['height'])
                except (KeyError, ValueError):
                    area = -1
                waiting.append((atts['src'], w, h, alt, str(area)))
        elif e[0] == '>':
            ignored -= e[1] in IGNORED and e[1] != 'OBJECT'
        else:
            index += 1
            if ignored:
                continue
            if index in content:
                on = True
                found += waiting
                waiting = []
            elif pages.words_of(e[1]):
                on = False
    return found


def highlight(case, rec):
    """Highlighting keeps the page and marks the content; extracting keeps the content and the elements around it; images are those among the content."""
    (head, children), mask, only, style, marks, white = case
    source = pages.page(head, children)
    evs = pages.events(source, 'reader')
    content = content_of(evs, mask)
    allowed = None if white is None else {k: set(v) for k, v in white}
    # what is content is in two blocks; and there is one more that is not content
    blocks = [(1, {i for i in content if i % 2}), (0, set(range(1, 200, 3)) - content), (1, {i for i in content if i % 2 == 0})]
    v = jvm.call('highlight', source, 'extract' if only else 'highlight', '-' if style is None else '=' + style,
                 *('--' if marks is None else ['=' + m for m in marks]),
                 '-' if white is None else '=' + '\n'.join(' '.join((k,) + x) for k, x in white),
                 *['%s%s' % (c, ' '.join(str(i) for i in sorted(s))) for c, s in blocks])
    if style is None:
        style = EXTRACT_STYLE if only else STYLE
    if marks is None:
        marks = ('', '') if only else MARK
    expect_eq((v[2].split(), v[3], v[4]), (style.split(), marks[0], marks[1]), 'settings')
    style = v[2]
    nodes = tree(evs, content, only, style, marks, allowed)
    want = extracted(nodes) if only else [text_of(nodes)]
    expect(v[0] in want, 'HTML: got %r, expected %r', v[0], want[0])
    if pages.events(source, 'text') == evs:
        expect_eq(v[1], v[0], 'HTML from the bytes of the page')
    got = [tuple(v[6 + 5 * i:11 + 5 * i]) for i in range(int(v[5]))]
    expect_eq(got, images(evs, content), 'images')
    n = sum(e[0] == 't' for e in evs)
    rec.nontrivial(0 < len(content) < n)
    rec.label('extract' if only else 'highlight')
    if got:
        rec.label('images')
    if only and v[0] and not v[0].startswith('<HTML'):
        rec.label('unwrapped')


def meat(case, rec):
    """From a page, the HTML of its article: the texts that the rules find in it, with the elements around them."""
    head, children = case
    source = pages.page(head and [pages.collapse(x) for x in head], [pages.collapse(x) for x in children])
    evs = pages.events(source, 'text')
    title, bs = pages.ref_blocks(evs)
    pages.apply('Article', title, bs)
    content = set().union(*(b.elements for b in bs if b.content)) if bs else set()
    want = extracted(tree(evs, content, True, EXTRACT_STYLE, ('', ''), None))
    v = jvm.call('meat', source)
    expect(v[0].split() in [w.split() for w in want], 'HTML: got %r, expected %r', v[0], want[0])
    got_title, got, rest = jvm.read_blocks(v[1:])
    expect_eq([(b['content'], pages.words_of(b['text'])) for b in got], [(b.content, pages.words_of(b.text)) for b in bs], 'blocks')
    rec.nontrivial(bool(content) and any(e[0] == 't' and e[1].strip() and i not in content for i, e in enumerate((e for e in evs if e[0] == 't'), 1)))


SIZE = st.sampled_from(['10', '200', '0', '33', 'x', '', '5%'])
IMG = st.builds(lambda a: ('IMG', tuple(a), ()), st.lists(st.one_of(
    st.tuples(st.just('src'), st.sampled_from(['a.png', 'b.jpg', '', 'http://x/?a=1&b=2'])), st.tuples(st.just('width'), SIZE), st.tuples(st.just('height'), SIZE),
    st.tuples(st.just('alt'), st.sampled_from(['an image', ' x ', '', ' ']))), min_size=2, max_size=6, unique_by=lambda x: x[0]))
TEXT = st.one_of(pages.texts(), pages.texts(), pages.texts(), IMG)
PLAIN = st.one_of(st.sampled_from(['some text', 'x', 'more of it', '$1', 'a \\ b', '&lt;', ' ']), IMG)
ANY = st.tuples(pages.HEADS, st.lists(pages.nodes(4, TEXT, pages.TAGS), max_size=6))
GALLERY = st.tuples(st.none(), st.lists(st.one_of(st.sampled_from([('P', (), ('x',)), ('P', (), ('some text',)), ('DIV', (), (' ',)), ' ', '\n', 'y', ('OBJECT', (), ('z',)), ('SCRIPT', (), ('s',))]), IMG), max_size=10))
ONE_LINE = st.tuples(st.one_of(st.none(), st.none(), pages.HEADS), st.lists(pages.nodes(3, PLAIN, ('DIV', 'P', 'SPAN', 'LI', 'UL')), min_size=1, max_size=4))
WHITE = st.lists(st.tuples(st.sampled_from(['HTML', 'BODY', 'P', 'DIV', 'A', 'SPAN', 'IMG', 'LI', 'H1', 'B', 'EM']), st.lists(
    st.sampled_from(['id', 'class', 'href', 'src', 'title']), max_size=3, unique=True).map(tuple)), max_size=8, unique_by=lambda x: x[0]).map(tuple)
# all the content; none; some
MASK = st.one_of(st.just(2 ** 31 - 1), st.just(0), st.integers(0, 2 ** 31 - 1), st.integers(0, 2 ** 31 - 1), st.integers(0, 30).map(lambda i: 1 << i))

PROPS = [
    Prop('highlight', st.tuples(st.one_of(ANY, ANY, ONE_LINE, GALLERY), MASK, st.booleans(), st.one_of(st.none(), st.none(), st.sampled_from(['', '<style>x</style>', 'css', '\n<link>\n'])),
                                st.one_of(st.none(), st.none(), st.sampled_from([('', ''), ('<b>', '</b>'), ('[', ']'), ('<mark class="$1">', '</mark>')])),
                                st.one_of(st.none(), st.none(), WHITE.filter(bool))), highlight, 4000, 80000),
    Prop('meat', pages.articles(), meat, 1500, 30000),
]
