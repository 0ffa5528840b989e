"""Edge notation: what is written is read back, and different edges are written differently."""
from hypothesis import strategies as st

import gb.hypergraph.edge as ed
import gen
from model import canon, text
from vf import Prop, expect

RULE = ('Cases are random nested edges (arity 2-8, up to ~40 leaves) of symbols, integers and floats, written out and read '
        'back, or pairs of near-identical edges. Non-trivial: the edge is nested, or has a number, or a symbol with a character '
        'outside [a-z/0-9_].')
ASSUMPTIONS = ['edges have two or more elements; symbols have no white space or control characters, have balanced '
               'parentheses and are not numerals; floats are finite and not -0.0; lists are read back as tuples']


def plain(s):
    return isinstance(s, str) and all(c in 'abcdefghijklmnopqrstuvwxyz/0123456789_' for c in s)


def roundtrip(edge, rec):
    s = ed.edge2str(edge)
    expect(isinstance(s, str), 'edge2str(%r) is %r', edge, s)
    expect(s == text(edge), 'edge2str(%r) is %r, expected %r', edge, s, text(edge))
    back = ed.str2edge(s)
    expect(canon(back) == canon(edge), 'str2edge(%r) is %r', s, back)
    expect(all_tuples(back), 'str2edge(%r) is %r, with lists', s, back)
    again = ed.edge2str(back)
    expect(again == s, 'edge2str(str2edge(%r)) is %r', s, again)
    inner = ed.nodes2str(edge)
    expect('(%s)' % inner == s, 'nodes2str(%r) is %r', edge, inner)
    rec.label('depth %s' % min(gen.depth(edge), 4), 'arity %s' % len(edge))
    rec.nontrivial(gen.depth(edge) > 1 or any(not plain(x) for x in gen.leaves(edge)))


def all_tuples(x):
    return isinstance(x, tuple) and all(all_tuples(e) for e in x if isinstance(e, (list, tuple)))


def atom_roundtrip(atom, rec):
    s = ed.edge2str(atom)
    expect(s == text(atom), 'edge2str(%r) is %r', atom, s)
    back = ed.str2edge(s)
    expect(canon(back) == canon(atom), 'str2edge(%r) is %r, expected %r', s, back, atom)
    rec.label(type(atom).__name__)
    rec.nontrivial(not plain(atom))


def tolist(x, mask):
    """The same edge with some of its tuples as lists."""
    if not isinstance(x, tuple):
        return x
    elems = [tolist(e, mask[1:] + mask[:1]) for e in x]
    return elems if mask[0] else tuple(elems)


def lists_case(case, rec):
    edge, mask = case
    got = ed.edge2str(tolist(edge, mask))
    expect(got == text(edge), 'edge2str(%r) is %r', tolist(edge, mask), got)
    rec.nontrivial(any(mask))


def injective(case, rec):
    a, b = case
    sa, sb = ed.edge2str(a), ed.edge2str(b)
    expect((sa == sb) == (canon(a) == canon(b)), 'edge2str(%r) is %r and edge2str(%r) is %r', a, sa, b, sb)
    rec.nontrivial(canon(a) != canon(b))


@st.composite
def near_pairs(draw):
    """Two edges with the same leaves grouped differently, or one small change apart."""
    flat = draw(st.lists(gen.atoms(), min_size=3, max_size=6))

    def group(items):
        items = list(items)
        for _ in range(draw(st.integers(0, 2))):
            if len(items) < 3:
                break
            i = draw(st.integers(0, len(items) - 2))
            j = draw(st.integers(i + 2, min(len(items), i + 3)))
            if j - i < len(items):
                items[i:j] = [tuple(items[i:j])]
        return tuple(items)
    other = list(flat)
    if draw(st.booleans()):
        i = draw(st.integers(0, len(other) - 1))
        other[i] = draw(gen.atoms())
    return group(flat), group(other)


BIG = gen.edges(max_leaves=40, max_size=8)
PROPS = [
    Prop('roundtrip', st.one_of(gen.edges(), BIG), roundtrip, 5000, 150000, examples=[
        ('a', ('b', ('c', ('d', ('e', ('f', ('g', 'h'))))))), ((('a', 'b'), 'c'), ('d', 'e')),
        tuple('s%s' % i for i in range(60)), ('a', 'http://en.wikipedia.org/wiki/Mercury_(planet)'),
        ('x', 1e20, 1e-7, 0.1, -5, 0), ('is', ('a', 'b'), ('c', 'd')), ('big', 10 ** 400)]),
    Prop('atoms', gen.atoms(), atom_roundtrip, 5000, 100000),
    Prop('lists', st.tuples(gen.edges(), st.lists(st.booleans(), min_size=1, max_size=5)), lists_case, 2500, 40000),
    Prop('injective', near_pairs(), injective, 6000, 100000),
]
