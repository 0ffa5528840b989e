"""The text of pages of HTML, with the links and the strong parts of it."""
from hypothesis import strategies as st

import cljhg
from cljhg import from_clj
from clj import Vec
from vf import Prop, expect_eq

RT = cljhg.runtime()

RULE = 'Cases are pages: trees of elements, texts and comments, up to 5 deep. Non-trivial: a link or a strong part with an element in it or with nothing in it comes before other text.'
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py); jsoup is replaced by trees of nodes with its interface', 'there are no links in links']


class Text:
    java_class = 'org.jsoup.nodes.TextNode'

    def __init__(self, s):
        self.text, self.nodeName, self.childNodes = lambda: s, lambda: '#text', lambda: Vec()


class Comment:
    java_class = 'org.jsoup.nodes.Comment'

    def __init__(self):
        self.nodeName, self.childNodes = lambda: '#comment', lambda: Vec()


class Element:
    java_class = 'org.jsoup.nodes.Element'

    def __init__(self, name, children, href=''):
        nodes = [node(c) for c in children]

        def child(i):
            if i >= len(nodes):
                raise cljhg.clj.JEx('java.lang.IndexOutOfBoundsException', 'Index: %d, Size: %d' % (i, len(nodes)))
            return nodes[i]
        self.nodeName, self.childNodes, self.childNode = lambda: name, lambda: Vec(nodes), child
        self.attr = lambda k: href if k in ('abs:href', 'href') else ''
        self.text = lambda: ' '.join(''.join(texts(children)).split())
        self.title = lambda: ''


def node(t):
    return Text(t) if isinstance(t, str) else Comment() if t is None else Element(*t)


def texts(children):
    for c in children:
        if isinstance(c, str):
            yield c
        elif c is not None:
            yield from texts(c[1])


RT.hosts.setdefault('graphbrain.kr.webtools', {'slurp-url': lambda url: url})
RT.hosts.setdefault('graphbrain.kr.meat', {'extract-meat': lambda html: html})
RT.static[('Jsoup', 'parse')] = lambda doc: doc
RT.require('graphbrain.kr.htmltools')


def pieces(children):
    """What is read: texts, links and strong parts, in order."""
    for c in children:
        if isinstance(c, str):
            yield c, None, None
        elif c is not None and c[0] in ('a', 'strong'):
            yield Element(*c).text(), c[0], c[2] if c[0] == 'a' else None
        elif c is not None:
            yield from pieces(c[1])


def size(s):
    return len(''.join(s.split()))


def read(case, rec):
    doc = Element('#document', case)
    got = from_clj(cljhg.fn('graphbrain.kr.htmltools', 'html->text+tags')(doc))
    want = list(pieces(case))
    expect_eq(list(got[':text-parts']), [t for t, _, _ in want], 'parts of the text')
    expect_eq(got[':text'], ''.join(' ' + t for t, _, _ in want), 'text')
    tags, at = [], 0
    for t, tag, href in want:
        if tag:
            tags.append((tag, t, at, at + size(t), href))
        at += size(t)
    expect_eq([(t[':tag'], t[':text'], t[':start'], t[':end'], t.get(':href')) for t in got[':tags']], tags, 'links and strong parts')
    rec.nontrivial(any(x is not None and not isinstance(x, str) and x[0] in ('a', 'strong') and (not x[1] or len(x[1]) > 1) for x in flat(case)))
    rec.label('parts %s' % min(len(want), 8))


def flat(children):
    for c in children:
        yield c
        if isinstance(c, tuple):
            yield from flat(c[1])


WORDS = st.sampled_from(['dogs', 'like cats ', ' ', ' a b\n', 'x', '1 < 2'])
INLINE = st.lists(WORDS | st.tuples(st.sampled_from(['b', 'i', 'img']), st.lists(WORDS, max_size=2)), max_size=3)
LINK = st.tuples(st.just('a'), INLINE, st.sampled_from(['', 'http://a.com/', 'http://b.com/x'])) | st.tuples(st.just('strong'), INLINE)
TREE = st.recursive(WORDS | WORDS | LINK | st.none(), lambda t: st.tuples(st.sampled_from(['p', 'div', 'em']), st.lists(t, max_size=4)), max_leaves=12)
PROPS = [Prop('read', st.lists(TREE, max_size=4), read, quick=150, thorough=4000, examples=[
    [('p', ['dogs ', ('a', ['like ', ('b', ['big'])], 'http://a.com/'), ' cats', ('strong', []), ' x'])], [('div', [('p', [('strong', ['a b']), 'c']), None, ('a', ['d'], '')]), 'e'], []])]
