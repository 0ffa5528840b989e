"""The text of an edge is split into the texts of its elements."""
from hypothesis import strategies as st

import gb.hypergraph.edge as ed
import gen
from model import canon, text
from vf import Prop, expect

RULE = ('Cases are random edges written with or without the outer parentheses and with extra white space between elements. '
        'Non-trivial: an element is an edge, or has parentheses, or there is extra white space.')
ASSUMPTIONS = ['the text is one that the notation produces, with white space between elements only']


def split(case, rec):
    edge, pars, gaps = case
    parts = [text(e) for e in edge]
    s = parts[0]
    for i, p in enumerate(parts[1:]):
        s += gaps[i % len(gaps)] + p
    if pars:
        s = '(%s)' % s
    got = ed.split_edge_str(s)
    expect(list(got) == parts, 'split_edge_str(%r) is %r, expected %r', s, got, parts)
    back = ed.str2edge(s)
    expect(canon(back) == canon(edge), 'str2edge(%r) is %r, expected %r', s, back, edge)
    rec.label('outer' if pars else 'no outer', 'first is an edge' if isinstance(edge[0], tuple) else 'first is an atom',
              'last is an edge' if isinstance(edge[-1], tuple) else 'last is an atom')
    rec.nontrivial(any(p[0] == '(' or '(' in p for p in parts) or any(g != ' ' for g in gaps))


def spaced(case, rec):
    """White space anywhere between tokens of nested edges, and around everything."""
    edge, gaps = case
    it = [0]

    def gap():
        it[0] += 1
        return gaps[it[0] % len(gaps)]

    def write(x):
        if isinstance(x, tuple):
            return '(%s)' % ''.join((gap() if i else '') + write(e) for i, e in enumerate(x))
        return text(x)
    s = write(edge)
    back = ed.str2edge(s)
    expect(canon(back) == canon(edge), 'str2edge(%r) is %r, expected %r', s, back, edge)
    rec.nontrivial(gen.depth(edge) > 1)


GAPS = st.lists(st.sampled_from([' ', ' ', '  ', '\t', '\n', '   ']), min_size=1, max_size=3)
PROPS = [
    Prop('split', st.tuples(st.one_of(gen.edges(), gen.edges(max_leaves=25, max_size=7)), st.booleans(),
                            st.one_of(st.just([' ']), GAPS)), split, 15000, 250000, examples=[
        ((('a', 'b'), ('c', 'd')), False, [' ']), ((('a', 'b'), ('c', 'd')), True, [' ']),
        ((('a', 'b'), 'c'), False, [' ']), (('c', ('a', 'b')), False, [' '])]),
    Prop('spaced', st.tuples(gen.edges(), GAPS), spaced, 6000, 100000),
]
