"""The Clojure notation: edges are read back as they were written, symbols are taken apart as they were built."""
from hypothesis import strategies as st

import cljhg
import gen
from c01 import plain
from clj import Char, JEx, Kw, Seq, Vec, kw, pr
from cljhg import from_clj, to_clj
from model import canon
from vf import Prop, expect, expect_eq

RT = cljhg.runtime()
RT.require('graphbrain.hg.edge')
RT.require('graphbrain.hg.symbol')

RULE = ('Cases are nested edges, tokens, symbols, parts of symbols and texts, given to the Clojure code. Non-trivial: the edge is nested or has a number; the symbol has parts or '
        'is not a concept; the text has a character that can not be in a symbol.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py)', 'edges are vectors of two or more elements; symbols have no white space, have balanced '
               'parentheses, do not read as numbers and have characters of the basic plane only; integers are 64 bit, doubles finite and not -0.0']


def E(name, *args):
    return cljhg.fn('graphbrain.hg.edge', name)(*args)


def Y(name, *args):
    return cljhg.fn('graphbrain.hg.symbol', name)(*args)


def jfloat(x):
    """Double.toString, from the shortest digits that Python gives."""
    m, e = ('%r' % x, 0) if 'e' not in repr(x) else (repr(x).split('e')[0], int(repr(x).split('e')[1]))
    neg, m = ('-', m[1:]) if m[0] == '-' else ('', m)
    a, b = (m.split('.') + ['0'])[:2]
    digits = (a + b).lstrip('0')
    point = len(a) + e - (len(a + b) - len(digits))
    digits = digits.rstrip('0') or '0'
    if x == 0:
        return '0.0'
    if 1e-3 <= abs(x) < 1e7:
        d = '0' * max(0, 1 - point) + digits + '0' * max(0, point - len(digits))
        point = max(point, 1)
        return neg + d[:point] + '.' + (d[point:] or '0')
    return neg + digits[0] + '.' + (digits[1:] or '0') + 'E%d' % (point - 1)


def text(x):
    if isinstance(x, tuple):
        return '(%s)' % ' '.join(text(e) for e in x)
    return x if isinstance(x, str) else jfloat(x) if isinstance(x, float) else '%d' % x


def roundtrip(edge, rec):
    c = to_clj(edge)
    s = E('edge->str', c)
    expect_eq(s, text(edge), 'edge->str of %r' % (edge,))
    back = E('str->edge', s)
    expect(canon(from_clj(back)) == canon(edge), 'str->edge of %r is %s', s, pr(back))
    expect(vectors(back), 'str->edge of %r is %s, with other than vectors', s, pr(back))
    inner = E('nodes->str', c)
    expect_eq('(%s)' % inner, s, 'nodes->str of %r' % (edge,))
    expect_eq(from_clj(E('split-edge-str', s)), tuple(text(e) for e in edge), 'split-edge-str of %r' % s)
    if not isinstance(edge[0], tuple):
        expect_eq(from_clj(E('split-edge-str', inner)), tuple(text(e) for e in edge), 'split-edge-str of %r' % inner)
    expect(canon(from_clj(c)) == canon(edge), 'the edge was changed')
    rec.label('depth %s' % min(gen.depth(edge), 4))
    rec.nontrivial(gen.depth(edge) > 1 or any(not isinstance(x, str) for x in gen.leaves(edge)))


def vectors(x):
    return all(isinstance(e, Vec) and vectors(e) if isinstance(e, (Vec, Seq)) else True for e in x)


def atom(x, rec):
    s = E('edge->str', x)
    expect_eq(s, text(x), 'edge->str of %r' % (x,))
    back = E('str->edge', s)
    expect(canon(back) == canon(x), 'str->edge of %r is %s', s, pr(back))
    rec.nontrivial(not isinstance(x, str))
    rec.label(type(x).__name__)


def negation(case, rec):
    edge = case
    c = to_clj(edge)
    neg = E('negative?', c)
    expect_eq(bool(neg), edge[0].startswith('~'), 'negative? of %r' % (edge,))
    other = E('negative', c)
    want = ((edge[0][1:] if edge[0].startswith('~') else '~' + edge[0]),) + edge[1:]
    expect(canon(from_clj(other)) == canon(want), 'negative of %r is %s', edge, pr(other))
    expect_eq(from_clj(E('negative', other)), from_clj(c), 'negative of the negative')
    expect_eq(Y('negative', edge[0]), want[0], 'negative of %r' % edge[0])
    expect_eq(bool(Y('negative?', edge[0])), edge[0].startswith('~'), 'negative? of %r' % edge[0])
    rec.nontrivial(neg)


def build(parts, rec):
    s = Y('build', to_clj(parts))
    expect_eq(s, '/'.join(parts), 'build of %r' % (parts,))
    expect_eq(list(from_clj(Y('parts', s))), parts, 'parts of %r' % s)
    expect_eq(Y('root', s), parts[0], 'root of %r' % s)
    expect_eq(Y('nspace', s), parts[1] if len(parts) > 1 else None, 'nspace of %r' % s)
    expect_eq(Y('root?', s), len(parts) == 1, 'root? of %r' % s)
    expect(Y('sym-type', s) is kw('concept'), 'sym-type of %r is %s', s, pr(Y('sym-type', s)))
    expect_eq(Y('symbol->str', s), parts[0].replace('_', ' '), 'symbol->str of %r' % s)
    many = [Y('new-meaning', s), Y('new-meaning', s), Y('new-meaning', 'WN?', s)]
    if len(parts) > 1:
        expect_eq(many, [s] * 3, 'new-meaning of %r' % s)
    else:
        expect(len(set(many)) == 3, 'new-meaning of %r: %r', s, many)
        for m, prefix in zip(many, ('', '', 'WN?')):
            expect(m.startswith(s + '/' + prefix), 'new-meaning of %r is %r', s, m)
            tail = m[len(s + '/' + prefix):]
            expect(tail and all(c in '0123456789abcdef' for c in tail), 'new-meaning of %r is %r', s, m)
    rec.nontrivial(len(parts) > 1)


def other(x, rec):
    kind = ('url' if x.startswith(('http://', 'https://')) else 'concept') if isinstance(x, str) else {int: 'integer', float: 'float', tuple: 'edge'}[type(x)]
    c = to_clj(x)
    got = Y('sym-type', c)
    expect(got is kw(kind), 'sym-type of %r is %s', x, pr(got))
    if kind != 'concept':
        expect(canon(from_clj(Y('parts', c))) == canon((x,)), 'parts of %r is %s', x, pr(Y('parts', c)))
        expect(canon(from_clj(Y('root', c))) == canon(x), 'root of %r is %s', x, pr(Y('root', c)))
        expect(Y('nspace', c) is None, 'nspace of %r is %s', x, pr(Y('nspace', c)))
        expect(Y('root?', c) is True, 'root? of %r is not true', x)
        if kind == 'url':
            expect_eq(Y('symbol->str', x), x, 'symbol->str of %r' % x)
        elif kind in ('integer', 'float'):
            expect_eq(Y('symbol->str', x), text(x), 'symbol->str of %r' % x)
    rec.label(kind)
    rec.nontrivial(kind != 'concept')


def to_symbol(s, rec):
    got = Y('str->symbol', s)
    want = ''.join('_' if c in '/ ()' else c for c in s.lower())
    expect_eq(got, want, 'str->symbol of %r' % s)
    expect_eq(Y('str->symbol', got), got, 'str->symbol of %r' % got)
    if got and not got.startswith('http:__') and plain(got):
        expect_eq(Y('root?', got), True, 'root? of %r' % got)
        expect_eq(Y('symbol->str', got), got.replace('_', ' '), 'symbol->str of %r' % got)
    rec.nontrivial(want != s)


def hashing(s, rec):
    h = 1125899906842597
    for c in s:
        h = (31 * (h + ord(c))) & (2 ** 64 - 1)
    expect_eq(Y('hashed', s), '%x' % h, 'hashed of %r' % s)
    expect_eq(Y('hashed', 'p/', s), 'p/%x' % h, 'hashed of %r with a prefix' % s)
    expect(Y('random-hash') != Y('random-hash'), 'two random hashes are the same')
    rec.nontrivial(len(s) > 1)


BMP = st.characters(exclude_categories=('Cs', 'Cc'), max_codepoint=0xfffd)
TEXT = st.one_of(st.text(st.sampled_from('aAbZ ()/_-\u00c9\u00df'), max_size=12), st.text(BMP, max_size=8))
ATOMS = gen.atoms().filter(plain)
EDGES = gen.edges(12).filter(plain)
FIRST = st.tuples(st.tuples(st.sampled_from(['~is', 'is', '~', 'x/1', '~x/1', 'a~b']) | gen.symbols().filter(plain).filter(lambda s: not s.startswith('~~'))), EDGES).map(
    lambda t: t[0] + t[1])
PART = st.one_of(st.text(st.sampled_from('abchtps:_-~+.1?!%'), min_size=1, max_size=6), st.sampled_from(['http:', 'https:', 'http', 'wn.dog.n.01', '1', '?'])).filter(plain)
URLS = st.tuples(st.sampled_from(['http://', 'https://', 'http:/', 'HTTP://', 'https:', 'xhttp://']), st.text(st.sampled_from('ab./?&=_-()~1'), max_size=15)).map(''.join)

PROPS = [
    Prop('roundtrip', EDGES, roundtrip, quick=400, thorough=6000, examples=[((('a', 'b'), ('c', 1)), ('d', (-1.5, 'e')))]),
    Prop('atom', ATOMS, atom, quick=400, thorough=8000, examples=['-', '.', '-.', 1e-5, 1e300, 10 ** 12, 'f(x)(y)']),
    Prop('negation', FIRST, negation, quick=200, thorough=3000),
    Prop('build', st.lists(PART, min_size=1, max_size=5).filter(lambda p: not '/'.join(p).startswith(('http://', 'https://'))), build, quick=200, thorough=3000),
    Prop('other', gen.pick(EDGES, ATOMS, URLS, URLS), other, quick=300, thorough=5000),
    Prop('to_symbol', TEXT, to_symbol, quick=300, thorough=5000),
    Prop('hashing', TEXT, hashing, quick=200, thorough=3000, examples=['graphbrain/1']),
]
