"""Numbered permutations: all different, and each one is undone by its number."""
import itertools
import math

from hypothesis import strategies as st

import gb.hypergraph.edge as ed
import gb.hypergraph.sql as sql
import gen
from model import canon, text
from vf import Prop, expect

RULE = ('Cases are edges of arity 1 to 7 and permutation numbers; permutations are compared to itertools and undone. '
        'Non-trivial: arity three or more and a permutation that is not the identity.')
ASSUMPTIONS = ['permutation numbers are below the factorial of the arity']


def index(n, total):
    """Any permutation, and often one of the first, the middle or the last of them."""
    if n >= 0:
        return n % total
    return (0, total // 2, total - 1, 1, total - 2, total // 2 - 1, total // 3, total - 3)[(-n) % 8] % total


def one(case, rec):
    items, n = case
    items = tuple(items)
    n = index(n, math.factorial(len(items)))
    p = sql.nthperm(items, n)
    expect(isinstance(p, tuple), 'nthperm(%r, %s) is %r', items, n, p)
    expect(sorted(map(repr, p)) == sorted(map(repr, items)), 'nthperm(%r, %s) is %r', items, n, p)
    back = sql.unpermutate(p, n)
    expect(isinstance(back, tuple) and canon(back) == canon(items), 'unpermutate(nthperm(%r, %s)) is %r', items, n, back)
    expect(canon(sql.nthperm(list(items), n)) == canon(p), 'nthperm of a list differs')
    expect(canon(sql.unpermutate(list(p), n)) == canon(items), 'unpermutate of a list differs')
    if n == 0:
        expect(canon(p) == canon(items), 'permutation 0 of %r is %r', items, p)
    rec.label('arity %s' % len(items))
    rec.nontrivial(len(items) > 2 and n > 0)


def every(k, rec):
    """All the permutations of k different items are there, once."""
    items = tuple('s%s' % i for i in range(k))
    seen = [sql.nthperm(items, n) for n in range(math.factorial(k))]
    expect(set(seen) == set(itertools.permutations(items)) and len(set(seen)) == len(seen), 'the permutations of %s items are not all there', k)
    for n, p in enumerate(seen):
        expect(sql.unpermutate(p, n) == items, 'unpermutate(%r, %s) is %r', p, n, sql.unpermutate(p, n))
    rec.nontrivial(k > 2)


def written(edge, rec):
    """The strings for the permutations of an edge: each gives back the edge."""
    out = []
    sql.do_with_edge_permutations(edge, out.append)
    n = len(edge)
    expect(len(out) == math.factorial(n), '%s permutations of %r', len(out), edge)
    expect(len(set(out)) == len(out), 'repeated permutations of %r', edge)
    parts = sorted(text(e) for e in edge)
    for s in out:
        toks = ed.split_edge_str(s)
        expect(sorted(toks[:-1]) == parts, 'permutation %r of %r', s, edge)
        back = sql.unpermutate(toks[:-1], int(toks[-1]))
        expect(list(back) == [text(e) for e in edge], 'permutation %r of %r is undone to %r', s, edge, back)
    # as rows of a query, in any order
    canon_edge = ed.str2edge(ed.edge2str(edge))
    for rows in ([(s,) for s in out[::-1]], [(s,) for s in out[-1:]]):
        got = sql.cur2edges(iter(rows))
        expect(isinstance(got, set) and got == {canon_edge}, 'the rows for %r are read as %r', edge, got)
    rec.label('arity %s' % n)
    rec.nontrivial(n > 2)


ITEMS = st.lists(gen.atoms(), min_size=1, max_size=7)
PROPS = [
    Prop('one', st.tuples(ITEMS, st.integers(-40, 5039)), one, 5000, 100000,
         examples=[(['x%s' % i for i in range(k)], -j) for k in range(1, 8) for j in range(1, 9)]),
    Prop('every', st.integers(1, 5), every, 30, 30, examples=[1, 2, 3, 4, 5, 6]),
    Prop('written', gen.edges(8, max_size=5), written, 900, 10000),
]
