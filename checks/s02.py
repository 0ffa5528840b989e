"""Text to symbols and back."""
from hypothesis import strategies as st

import gb.hypergraph.edge as ed
import gb.hypergraph.symbol as sym
import gen
from model import canon
from vf import Prop, expect, expect_eq

RULE = ('Cases are arbitrary texts (any unicode, with spaces, slashes, parentheses, line breaks) made into symbols, and symbols '
        'made into text. Non-trivial: the text has a character that a symbol can not have, or an upper case one.')
ASSUMPTIONS = ['texts are not empty and have no control characters other than white space']


def to_symbol(s, rec):
    r = sym.str2symbol(s)
    expect(isinstance(r, str), 'str2symbol(%r) is %r', s, r)
    bad = [c for c in r if c in '/()' or c.isspace()]
    expect(not bad, 'str2symbol(%r) is %r, with %r', s, r, bad)
    want = ''.join('_' if (c in '/()' or c.isspace()) else c for c in s.lower())
    expect_eq(r, want, 'str2symbol(%r)' % s)
    expect_eq(sym.str2symbol(r), r if r.lower() == r else sym.str2symbol(r), 'str2symbol(%r)' % r)
    expect_eq(sym.is_root(r), True, 'is_root(%r)' % r)
    expect_eq(sym.sym_type(r), sym.SymbolType.CONCEPT, 'sym_type(%r)' % r)
    expect_eq(sym.symbol2str(r), want.replace('_', ' '), 'symbol2str(%r)' % r)
    if gen.valid_symbol(r):
        edge = ('title/1', r, (r, 'x'))
        expect(canon(ed.str2edge(ed.edge2str(edge))) == canon(edge), 'an edge with the symbol %r is not read back', r)
        rec.label('used in an edge')
    rec.nontrivial(r != s)


def plain_text(s, rec):
    """Lower case words separated by single spaces survive."""
    r = sym.symbol2str(sym.str2symbol(s))
    expect_eq(r, s, 'symbol2str(str2symbol(%r))' % s)
    ns = sym.build([sym.str2symbol(s), '1'])
    expect_eq(sym.symbol2str(ns), s, 'symbol2str(%r)' % ns)
    rec.nontrivial(' ' in s)


def to_text(x, rec):
    r = sym.symbol2str(x)
    if isinstance(x, str):
        if x.startswith('http://') or x.startswith('https://'):
            want = x
        else:
            want = x.split('/')[0].replace('_', ' ')
    else:
        want = repr(x)
    expect_eq(r, want, 'symbol2str(%r)' % (x,))
    rec.nontrivial(r != x)


TEXT = st.one_of(
    st.text(st.sampled_from('abcXYZ 019_-()/.,\'"!\t\n~'), min_size=1, max_size=20),
    st.text(st.characters(exclude_categories=('Cs', 'Cc')), min_size=1, max_size=12),
    st.text(st.sampled_from(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u1680\u2000\u2028\u2029\u202f\u205f\u3000ab('), min_size=1, max_size=8),
)
WORDS = st.lists(st.text(st.sampled_from('abcdeé中\'-.,1~'), min_size=1, max_size=6), min_size=1, max_size=5).map(' '.join)
def sequence(case, rec):
    """What was asked before makes no difference; values that compare equal are not the same."""
    for x in case + case[::-1]:
        to_text(x, rec)
        if isinstance(x, str) and x:
            expect_eq(sym.str2symbol(x), ''.join('_' if (c in '/()' or c.isspace()) else c for c in x.lower()), 'str2symbol(%r)' % x)
    rec.nontrivial(len(set(case)) < len(case))


@st.composite
def alike(draw):
    out = []
    for n in draw(st.lists(st.integers(-3, 300) | st.sampled_from([10 ** 15, 2 ** 53]), min_size=1, max_size=3)):
        out += [n, float(n), 'n_%s' % n, 'N_%s/1' % n, 'n_%s/1' % n, 'n %s' % n]
    return draw(st.lists(st.sampled_from(out), min_size=2, max_size=8))


PROPS = [
    Prop('sequence', alike(), sequence, 1500, 20000),
    Prop('to_symbol', TEXT, to_symbol, 9000, 200000, examples=['Mercury (planet)', 'a/b', 'A  B', 'x\ty\nz', 'a\xa0b']),
    Prop('plain_text', WORDS, plain_text, 4000, 80000),
    Prop('to_text', st.one_of(gen.atoms(), gen.symbols()), to_text, 5000, 100000),
]
