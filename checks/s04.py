"""Negation of symbols and edges."""
from hypothesis import strategies as st

import gb.hypergraph.edge as ed
import gb.hypergraph.symbol as sym
import gen
from model import canon
from vf import Prop, expect, expect_eq

RULE = 'Cases are symbols and edges with a symbol as relationship, negated once, twice and three times. Non-trivial: already negated, or an edge with nested edges or numbers.'
ASSUMPTIONS = ['a relationship is a symbol with at most one negation mark; it does not consist of the mark alone']


def symbol(s, rec):
    neg = s.startswith('~')
    expect_eq(sym.is_negative(s), neg, 'is_negative(%r)' % s)
    n = sym.negative(s)
    expect_eq(n, s[1:] if neg else '~' + s, 'negative(%r)' % s)
    expect_eq(sym.is_negative(n), not neg, 'is_negative(%r)' % n)
    expect_eq(sym.negative(n), s, 'negative(%r)' % n)
    rec.nontrivial(neg)


def edge(case, rec):
    rel, rest = case
    e = (rel,) + rest
    neg = rel.startswith('~')
    expect_eq(ed.is_negative(e), neg, 'is_negative(%r)' % (e,))
    n = ed.negative(e)
    expect(canon(n) == canon((rel[1:] if neg else '~' + rel,) + rest), 'negative(%r) is %r', e, n)
    expect(isinstance(n, tuple), 'negative(%r) is %r', e, n)
    expect_eq(ed.is_negative(n), not neg, 'is_negative(%r)' % (n,))
    expect(canon(ed.negative(n)) == canon(e), 'negative(negative(%r)) is %r', e, ed.negative(n))
    # negation survives the notation
    back = ed.str2edge(ed.edge2str(n))
    expect(canon(back) == canon(n) and ed.is_negative(back) is (not neg), '%r is read back as %r', n, back)
    rec.nontrivial(neg or any(not isinstance(x, str) for x in rest))


def one_mark(s):
    return gen.valid_symbol(s) and s != '~' and not s.startswith('~~') and gen.valid_symbol(s.lstrip('~'))


SYM = st.one_of(gen.symbols(), gen.symbols().map(lambda s: '~' + s)).filter(one_mark)
PROPS = [
    Prop('symbol', SYM, symbol, 6000, 100000, examples=['~a', 'a~', 'a/~1', '~is/1']),
    Prop('edge', st.tuples(SYM, st.lists(st.one_of(gen.atoms(), gen.edges(4)), min_size=1, max_size=4).map(tuple)), edge, 6000, 100000),
]
