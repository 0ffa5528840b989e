"""Pages become blocks of text."""
from hypothesis import strategies as st

import jvm
import pages
from vf import Prop, Violation, expect, expect_eq

jvm.build()

RULE = 'Cases are pages (a head with titles, a tree of block, inline, link, list, heading and ignored elements with text around them), parsed as the code does it. Non-trivial: two or more blocks.'
ASSUMPTIONS = ['NekoHTML and Xerces are not installed: pages are well-formed, and the parser of the JDK stands in for them, with the names of elements in upper (as NekoHTML) or lower case (as TagSoup)',
               'links are not nested; text is in the body, in the title or in elements whose content is ignored; text has no characters that boilerpipe uses as marks (U+2063, U+E00A)']


def body(case, rec):
    """The blocks and the title are those of the model: text, words, words of links, densities, depth, labels, places and elements of each of them."""
    (head, children), how, names = case
    text = pages.page(head, children, mixed=names == 'lower')
    if how not in ('reader', 'text'):
        try:
            text.encode(how)
        except UnicodeEncodeError:
            how = 'utf-16'
    want_title, want = pages.ref_blocks(pages.events(text, how))
    title, got, rest = jvm.read_blocks(jvm.call('page', text, how, names))
    expect_eq(' '.join(pages.words_of(title)) if title is not None else None, want_title, 'title')
    expect_eq([' '.join(pages.words_of(b['text'])) for b in got], [b.text for b in want], 'texts of the blocks')
    for g, w in zip(got, want):
        for k, v in w.view().items():
            if k != 'text':
                expect(g[k] == v, '%s of the block %r: got %r, expected %r', k, w.text, g[k], v)
        expect(g['text'] == g['text'].strip(pages.WHITE), 'white space around %r', g['text'])
        expect(abs(g['density'] - w.density) < 1e-4, 'text density of %r: %r, expected %r', w.text, g['density'], w.density)
        expect(abs(g['link_density'] - w.link_density) < 1e-6, 'link density of %r: %r, expected %r', w.text, g['link_density'], w.link_density)
    rec.nontrivial(len(want) > 1)
    rec.label(how, names)
    if want_title:
        rec.label('title')
    if any(b.linked for b in want):
        rec.label('links')
    if any(b.labels for b in want):
        rec.label('labels')
    if any(b.lines > 1 for b in want):
        rec.label('many lines')


def same(case, rec):
    """Elements that are ignored, comments, and inline elements around text make no difference to the text of the blocks."""
    head, children = case
    plain = pages.page(head, children)

    def text_of(page):
        title, got, rest = jvm.read_blocks(jvm.call('page', page, 'text', 'upper'))
        return [(' '.join(pages.words_of(b['text'])), b['words'], b['linked'], b['labels'], b['level']) for b in got]

    def wrap(node):
        if isinstance(node, str):
            cut = len(node) // 2
            return ('SPAN', (('class', 'x'),), (node[:cut], ('B', (), (node[cut:],)))) if node[:cut] else ('I', (), (node,))
        return (node[0], node[1], tuple(wrap(c) for c in node[2])) if node[0] not in pages.IGNORED else node
    want = text_of(plain)
    expect_eq(text_of(pages.page(head, [wrap(c) for c in children])), want, 'blocks of the page with inline elements around texts')
    expect_eq(text_of(pages.page(head, [('SCRIPT', (), ('var a;',))] + list(children) + [('STYLE', (), ('b',))])), want, 'blocks of the page with a script and a style')
    expect_eq(text_of(plain.replace('<BODY>', '<BODY><!-- comment <P>x</P> -->')), want, 'blocks of the page with a comment')
    rec.nontrivial(len(want) > 1)


def cases(p):
    return st.tuples(p, st.sampled_from(['reader', 'text', 'text', 'utf-8', 'utf-16', 'iso-8859-1']), st.sampled_from(['upper', 'upper', 'lower']))


PROPS = [
    Prop('page', cases(pages.pages()), body, 3000, 60000),
    Prop('article', cases(pages.articles()), body, 2000, 40000),
    Prop('same', pages.pages(), same, 800, 16000),
]
