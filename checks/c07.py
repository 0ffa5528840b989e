"""Pages of Wikipedia: the links that each user added and removed are what the user states and denies."""
import bz2
import contextlib
import io
import os
import re
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

import c02
import cljdump
import cljhg
import gen
from c01 import store
from cljhg import Hg, from_clj, to_clj
from clj import kw, pmap
from model import canon
from vf import Prop, expect, expect_eq, scratch

RT = cljhg.runtime()
RT.require('graphbrain.hg.sqlite')
RT.require('graphbrain.kr.wikipedia')
cljdump.install(RT)
RT.require('graphbrain.kr.wikidump')

RULE = ('Cases are one or two pages (or redirects) with up to 4 revisions each, made of links, headers and other text, imported into an empty hypergraph or one with meanings of words. '
        'Non-trivial: a user removed a link, a link is in a section, and a page has a header with a definition.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc and math.combinatorics; words are tagged by a table instead of the Stanford tagger',
               'headers are of level 2 or 3, and have no = inside; every revision has a text', 'which of the meanings of a word is taken in definitions is decided by C06',
               'the XML of dumps is read by stand-ins for bzip2, data.xml, data.zip and clj-time (lib/cljdump.py); the crawler is not run']


def link_symbol(title):
    root = title.split('#')[0]
    return symbol_of(root) + '/enwiki' if root else None


def symbol_of(text):
    return ''.join('_' if c in '/ ()' else c for c in text.lower())


def text_of(pieces):
    out = []
    for p in pieces:
        if p[0] == 'header':
            level = p[2] if p[1] else 2
            out.append('\n' + '=' * level + p[1] + '=' * level + '\n')
        elif p[0] == 'link':
            out.append('[[' + p[1] + (('|' + p[2]) if p[2] is not None else '') + ']]')
        else:
            out.append(p[1])
    return ''.join(out)


def clean(header):
    return header.strip().strip("'")


def definitions(header):
    """What a header or a title may be parsed to; None if there is nothing to parse."""
    words = [c02.word(x) for x in header.split()]
    if not words:
        return None
    return c02.best(c02.parses_of(c02.HEADER, words, c02.ENV) or [])


def section_of(header):
    """The symbol of a link, the root of the symbol of a definition, or None."""
    h = header.strip()
    if '[[' in h:
        target = h.split('[[')[1].split(']]')[0].split('|')[0]
        return ('link', link_symbol(target))
    if 0 < len(h) < 70 and definitions(clean(h)):
        return ('root', symbol_of(clean(h)))
    return None


def links_of(pieces):
    """(section, target) of the links of a revision."""
    found, section = set(), None
    for p in pieces:
        if p[0] == 'header':
            section = section_of(p[1])
            if section == ('link', None):
                section = None
        elif p[0] == 'link' and ':' not in p[1]:
            target = link_symbol(p[1])
            if target:
                found.add((section, target))
    return found


def user_symbol(user):
    if user is None:
        return 'anon/enwiki_usr_spec'
    if user.count('.') == 3:
        return 'anon/enwikiusr*'
    return symbol_of(user) + '/enwikiusr'


class Beliefs:
    """A set of edges, with who states them."""
    def __init__(self):
        self.edges = set()

    def add(self, edge, source):
        self.edges |= {edge, ('src/1', edge, source)}

    def remove(self, edge, source):
        self.edges.discard(('src/1', edge, source))
        if not any(e[0] == 'src/1' and e[1] == edge for e in self.edges if len(e) == 3):
            self.edges.discard(edge)


def all_edges(hg):
    vertices = {x['vertex'] for x in hg.f_all(lambda v: v)}
    return {v for v in vertices if isinstance(v, tuple) and hg.exists(v)}


def means(want, got, known):
    """Is `got` one of the ways to say `want` with the meanings of its words?"""
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(got) == len(want) and all(means(a, b, known) for a, b in zip(want, got))
    if not isinstance(got, str):
        return False
    if '/' in want:
        return got == want
    can = [s for s in known if s.split('/')[0] == want and s.split('/')[1].startswith('WN')]
    return got in can if can else got.startswith(want + '/WN?') and len(got) > len(want) + 4


def leaves(edge):
    return [x for e in edge[1:] for x in leaves(e)] if isinstance(edge, tuple) else [edge]


def page_map(page):
    if page[0] == 'redirect':
        return pmap([(kw('title'), page[1]), (kw('redirect'), page[2]), (kw('revisions'), to_clj([]))])
    revs = [pmap([(kw('user'), u), (kw('text'), text_of(pieces))]) for u, pieces in page[2]]
    return pmap([(kw('title'), page[1]), (kw('redirect'), None), (kw('revisions'), to_clj(revs))])


def expected(page, beliefs, sections):
    title = link_symbol(page[1])
    if page[0] == 'redirect':
        beliefs.add(('synonym/1', title, link_symbol(page[2])), 'wiki/enwikiusr*')
        return
    before = set()
    for user, pieces in page[2]:
        now = links_of(pieces)
        who = user_symbol(user)
        edges = {k: [('related/1', title) + ((sections[s[1]] if s[0] == 'root' else s[1],) if s else ()) + (t,) for s, t in links] for k, links in (('new', now - before), ('lost', before - now))}
        beliefs.add(('editor/1', who, title), 'wiki/enwikiusr*')
        for e in edges['new']:
            beliefs.add(e, who)
        for e in edges['new']:
            beliefs.remove(('~' + e[0],) + e[1:], who)
        for e in edges['lost']:
            beliefs.add(('~' + e[0],) + e[1:], who)
        for e in edges['lost']:
            beliefs.remove(e, who)
        before = now


def headers_of(page):
    return {clean(p[1]) for _, pieces in page[2] for p in pieces if p[0] == 'header' and (section_of(p[1]) or ('',))[0] == 'root'} if page[0] == 'page' else set()


def imported(case, rec):
    pages, known = case
    with store() as path:
        hg = Hg(path)
        start = [('is/1', s, 'x/1') for s in known]
        if start:
            hg.add(start)
        beliefs = Beliefs()
        beliefs.edges |= set(start)
        defined = set()
        for page in pages:
            cljhg.fn('graphbrain.kr.wikipedia', 'process-page!')(hg.hg, page_map(page))
            edges = all_edges(hg)
            about = {e for e in edges if e[0] == 'definition/1'} - defined
            # what the headers and the title are said to be
            sections = {}
            todo = [(None, link_symbol(page[1]), definitions(clean(page[1])))] if page[0] == 'page' and len(page[1]) < 70 else []
            todo += [(h, None, definitions(h)) for h in sorted(headers_of(page))]
            if page[0] == 'page':
                known_now = set(known) | {x for e in defined for x in leaves(e) if '/WN?' in x}
            for header, symbol, can in todo:
                found = [e for e in sorted(about | defined, key=repr) if len(e) == 3 and isinstance(e[1], str) and
                         (e[1] == symbol if header is None else e[1].split('/')[0] == symbol_of(header) and e[1].count('/') == 1 and not e[1].endswith('/enwiki')) and
                         any(means(w, e[2], known_now) or means(w, e[2], known_now | {x for d in about for x in leaves(d[2])}) for w in can)]
                expect(found, '%s %r of %r has no definition as one of %r; there are %r', 'title' if header is None else 'header', header, page[1], can[:3], sorted(about, key=repr)[:4])
                if header is not None:
                    expect(len({e[1] for e in found}) == 1, 'header %r has the symbols %r', header, sorted({e[1] for e in found}))
                    sections[symbol_of(header)] = found[0][1]
                for e in found:
                    if e not in defined:
                        about.discard(e)
                        defined.add(e)
                        beliefs.add(e, 'graphbrain/1')
                        for x in leaves(e[2]):
                            beliefs.add(('related/2', e[1], x), 'graphbrain/1')
            expect(not about, 'definitions of nothing: %r', sorted(about, key=repr))
            expected(page, beliefs, sections)
            expect(edges == beliefs.edges, 'after %r: missing %r, unexpected %r', page[1], sorted(beliefs.edges - edges, key=repr)[:4], sorted(edges - beliefs.edges, key=repr)[:4])
        lost = any(e[0].startswith('~') for e in beliefs.edges)
        section = any(len(e) == 4 for e in beliefs.edges)
        rec.nontrivial(lost and section and any(headers_of(p) for p in pages))
        rec.label('lost %s, sections %s' % (lost, section))


def page_xml(page):
    title, ns, redirect, revs = page
    out = '<page><title>%s</title><ns>%s</ns><id>7</id>' % (escape(title), ns)
    if redirect:
        out += '<redirect title=%s />' % quoteattr(redirect)
    for number, user, when, text in revs:
        who = '<ip>1.2.3.4</ip>' if user is None else '<username>%s</username><id>3</id>' % escape(user)
        out += '\n<revision>\n<id>%d</id><parentid>1</parentid><timestamp>%s</timestamp><contributor>%s</contributor><comment>== no ==</comment>' % (number, stamp(when), who)
        out += '<text xml:space="preserve">%s</text><sha1>x</sha1></revision>' % escape(text) if text else '<text deleted="deleted" /></revision>'
    return out + '</page>\n'


def stamp(days):
    import datetime
    return (datetime.datetime(2004, 2, 27) + datetime.timedelta(days=days, seconds=days * 7)).strftime('%Y-%m-%dT%H:%M:%SZ')


def seconds(days):
    return 1077840000 + days * (86400 + 7)


def squeeze(s):
    return re.sub('[ \t\n\r\u00a0]+', ' ', s)


def dump(case, rec):
    """Every article of a dump is imported once, in order, with all its revisions."""
    pages, cut = case
    xml = ['<mediawiki><siteinfo><sitename>W</sitename><page>no</page></siteinfo>\n'] + [page_xml(p) for p in pages] + ['</mediawiki>\n']
    streams = [''.join(xml[:cut]), ''.join(xml[cut:])] if cut else [''.join(xml)]
    path = os.path.join(scratch(), 'dump.bz2')
    with open(path, 'wb') as f:
        f.write(b''.join(bz2.compress(s.encode()) for s in streams if s))
    seen = []
    var = RT.ns('graphbrain.kr.wikipedia').vars['process-page!']
    real, var.root = var.root, lambda hg, page: seen.append((hg, from_clj(page)))
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            cljhg.fn('graphbrain.kr.wikidump', 'process!')('the hypergraph', path)
    finally:
        var.root = real
        os.remove(path)
    expect(all(hg == 'the hypergraph' for hg, _ in seen), 'another hypergraph was given')
    want = [(squeeze(t), ns, r, [(str(n), None if u is None else squeeze(u), seconds(w), squeeze(x)) for n, u, w, x in revs]) for t, ns, r, revs in pages if ':' not in t]
    got = [(p.get(':title'), p.get(':ns'), p.get(':redirect'), [tuple(r.get(k) for k in (':id', ':user', ':timestamp', ':text')) for r in p.get(':revisions') or ()]) for _, p in seen]
    expect_eq(len(got), len(want), 'articles of %r' % [p[0] for p in pages])
    for g, w in zip(got, want):
        expect_eq(g, w, 'article')
    rec.nontrivial(any(len(w[3]) > 1 for w in want))
    rec.label('pages %d of %d, streams %d' % (len(want), len(pages), len(streams)))


NOUNS = ['dogs', 'cats', 'tree', 'Paris']
TITLE = st.sampled_from(['Dogs', 'Big dogs', 'Cats in Paris', 'Tree', 'The tree', 'Dogs and cats', "''Paris''", 'Very ' * 15 + 'big', 'Big_dogs', 65 * "'" + 'Tree', 66 * "'" + 'Tree'])
TARGET = gen.pick(st.sampled_from(['Dog', 'cat', 'Big Cat', 'Paris', 'a/b', 'C#', 'x(1)', 'big_cat', 'Dogs', 'Tree', 'Big dogs']), st.sampled_from(['Dog', 'cat', 'Paris']), st.sampled_from(['#History', '', 'File:x.png', 'Dog#Tail', 'Category:Dogs', ':x']))
LABEL = st.sampled_from([None, None, 'a dog', '', 'x|y'])
HEADER = gen.pick(st.sampled_from(['History', ' History ', 'Dogs', ' Cats in Paris', "'''Tree'''", ' Big dogs', 'Likes dogs', 30 * "'" + 'Dogs', 65 * "'" + 'Tree']), st.sampled_from(['', ' ', '[[Dog]]', ' [[cat|Cats]] and dogs', 'The [[Dog]]', '[[#x]]', 'very ' * 14 + 'big', "''", 66 * "'" + 'Tree']))
PIECE = gen.pick(st.tuples(st.just('link'), TARGET, LABEL), st.tuples(st.just('link'), TARGET, LABEL), st.tuples(st.just('header'), HEADER, st.sampled_from([2, 2, 3])),
                 st.tuples(st.just('text'), st.sampled_from(['some text ', 'a = b\n', '[x]', ']] ', '{{cite|a=b}}', "''it''", '[http://a.com x]', 'dogs and Paris'])))
USER = st.sampled_from(['Mary', 'Mary', 'John Smith', None, '1.2.3.4', '5.6.7.8', 'a.b', 'a.b.c.d.e'])


@st.composite
def page(draw):
    if draw(st.integers(0, 7)) == 0:
        return ('redirect', draw(TITLE), draw(st.sampled_from(['Dog', 'Big Cat', 'Paris#History'])))
    pieces = draw(st.lists(PIECE, min_size=1, max_size=7))
    revs = []
    for _ in range(draw(st.integers(1, 4))):
        revs.append((draw(USER), list(pieces)))
        for _ in range(draw(st.integers(0, 2))):
            if pieces and draw(st.booleans()):
                pieces.pop(draw(st.integers(0, len(pieces) - 1)))
            else:
                pieces.insert(draw(st.integers(0, len(pieces))), draw(PIECE))
    return ('page', draw(TITLE), revs)


DUMPED = st.tuples(st.sampled_from(['Dogs', 'File:x', 'a & b <c>', 'Talk:Dogs', 'Two  words', 'caf\u00e9', ':']), st.sampled_from(['0', '1', '']), st.sampled_from([None, None, 'Cats', 'a"b & c']),
                   st.lists(st.tuples(st.integers(1, 99), st.sampled_from(['Ann', 'Bob Lee', None, 'a<b']), st.integers(-400, 9000), st.sampled_from(['', '[[Dog]] & <ref>x</ref>', '== H ==\n[[Cat]]', 'a  b\u00a0c'])), max_size=4))
KNOWN = st.sampled_from([[], [], ['dog/WN1', 'dog/WN2', 'tree/1'], ['paris/WN', 'cat/WN1']])
L = ('link', 'Dog', None)
PROPS = [Prop('imported', st.tuples(st.lists(page(), min_size=1, max_size=2), KNOWN), imported, quick=250, thorough=4000, examples=[
    ([('page', 'Dogs', [('Mary', [L, ('header', 'History', 2), ('link', '#x', None), ('link', 'cat', None)]), ('John', [('header', 'History', 2), ('link', 'cat', 'c')]), ('Mary', [L])])], [])]),
         Prop('dump', st.tuples(st.lists(DUMPED, max_size=4), st.integers(0, 4)), dump, quick=60, thorough=1500, examples=[([('Dogs', '0', None, [(1, 'Ann', 0, 'a'), (2, None, 9, 'b')]), ('Cats', '0', 'Dogs', [])], 2)])]
