"""Anatomy of symbols: type, parts, root, namespace."""
from hypothesis import strategies as st

import gb.hypergraph.symbol as sym
import gen
from model import canon
from vf import Prop, expect, expect_eq

RULE = ('Cases are lists of parts put together, and symbols, numbers, URLs and edges taken apart. Non-trivial: there are two or '
        'more parts, or the symbol is not a plain concept.')
ASSUMPTIONS = ['parts are non-empty strings without slashes, the first one does not make the symbol a URL']


def build(parts, rec):
    s = sym.build(parts)
    expect_eq(s, '/'.join(parts), 'build(%r)' % (parts,))
    expect_eq(sym.build(tuple(parts)), s, 'build of a tuple')
    expect_eq(list(sym.parts(s)), list(parts), 'parts(%r)' % s)
    expect_eq(sym.root(s), parts[0], 'root(%r)' % s)
    expect_eq(sym.nspace(s), parts[1] if len(parts) > 1 else None, 'nspace(%r)' % s)
    expect_eq(sym.is_root(s), len(parts) == 1, 'is_root(%r)' % s)
    expect_eq(sym.sym_type(s), sym.SymbolType.CONCEPT, 'sym_type(%r)' % s)
    expect_eq(sym.build(sym.parts(s)), s, 'build(parts(%r))' % s)
    # the root is a root
    expect(sym.is_root(sym.root(s)), 'the root of %r is not a root', s)
    rec.label('%s parts' % min(4, len(parts)))
    rec.nontrivial(len(parts) > 1)


TYPES = {'URL': 'URL', 'int': 'INTEGER', 'float': 'FLOAT', 'str': 'CONCEPT', 'tuple': 'EDGE', 'list': 'EDGE'}


def other(x, rec):
    kind = type(x).__name__
    if kind == 'str' and (x.startswith('http://') or x.startswith('https://')):
        kind = 'URL'
    want = getattr(sym.SymbolType, TYPES[kind])
    expect_eq(sym.sym_type(x), want, 'sym_type(%r)' % (x,))
    if kind == 'str':
        want_parts = x.split('/')
    else:
        want_parts = [x]
        expect_eq(sym.is_root(x), True, 'is_root(%r)' % (x,))
        expect_eq(sym.nspace(x), None, 'nspace(%r)' % (x,))
    got = sym.parts(x)
    expect(canon(got) == canon(want_parts), 'parts(%r) is %r', x, got)
    expect(canon(sym.root(x)) == canon(want_parts[0]), 'root(%r) is %r', x, sym.root(x))
    rec.label(kind)
    rec.nontrivial(kind != 'str')


def types_differ(_, rec):
    names = ['CONCEPT', 'EDGE', 'INTEGER', 'FLOAT', 'URL']
    values = [getattr(sym.SymbolType, n) for n in names]
    expect(len(set(values)) == len(values), 'the types of symbols are not distinct: %r', values)
    rec.nontrivial()


PART = st.one_of(st.text(st.sampled_from('abchtps:_-~+.1?!%'), min_size=1, max_size=6), gen.fresh_symbols(8).map(lambda s: s.replace('/', '.')),
                 st.sampled_from(['http:', 'https:', 'http', 'wn.dog.n.01', '1', 'gb', '?']))
URLS = st.tuples(st.sampled_from(['http://', 'https://']), st.text(st.sampled_from('ab./?&=_-()~1'), max_size=15)).map(''.join)
NEAR_URLS = st.tuples(st.sampled_from(['http:/', 'https:/', 'HTTP://', 'Https://', 'http:', 'httpss://', 'ftp://', 'xhttp://', ' http://', 'http//']),
                      st.text(st.sampled_from('ab.'), min_size=1, max_size=8)).map(''.join)


def not_url(parts):
    s = '/'.join(parts)
    return not s.startswith('http://') and not s.startswith('https://')


def sequence(case, rec):
    """What was asked before makes no difference; values that compare equal are not the same."""
    for x in case + case[::-1]:
        other(x, rec)
    rec.nontrivial(len(set(case)) < len(case))


@st.composite
def alike(draw):
    """Numbers that are equal and of different types, symbols that differ in case, in no given order."""
    out = []
    for n in draw(st.lists(st.integers(-3, 300) | st.sampled_from([10 ** 15, 2 ** 53]), min_size=1, max_size=3)):
        out += [n, float(n), 'n%s' % n, 'N%s/1' % n, 'n%s/1' % n]
    return draw(st.lists(st.sampled_from(out), min_size=2, max_size=8))


PROPS = [
    Prop('sequence', alike(), sequence, 1500, 20000),
    Prop('build', gen.pick(st.lists(PART, min_size=1, max_size=5), st.lists(PART, min_size=1, max_size=5), st.lists(PART, min_size=6, max_size=40)).filter(not_url),
         build, 8000, 150000),
    Prop('other', st.one_of(gen.atoms(), URLS, NEAR_URLS, gen.edges(4), st.lists(gen.symbols(), min_size=2, max_size=3)),
         other, 8000, 150000, examples=['http://', 'https://', 'http:/', 'https:/', 'http:', 'https', '', '/', 'a/']),
    Prop('types', st.none(), types_differ, 6, 6),
]
