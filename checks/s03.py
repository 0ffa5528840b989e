"""Hashes of text and new meanings."""
import re

from hypothesis import strategies as st

import gb.hypergraph.symbol as sym
import gen
from vf import Prop, expect, expect_eq

RULE = ('Cases are texts hashed by the code and by a big-integer reference, and roots given new meanings. '
        'Non-trivial: the text has two or more characters.')
ASSUMPTIONS = ['random_hash() draws from the random module; a repeat among the hashes of one case would have a chance below 1e-12']

PRIME = 1125899906842597


def reference(s):
    h = PRIME
    for c in s:
        h = (31 * (h + ord(c))) % (1 << 64)
    return '%x' % h


def hashed(s, rec):
    r = sym.hashed(s)
    expect_eq(r, reference(s), 'hashed(%r)' % s)
    expect_eq(sym.hashed(s), r, 'hashed(%r), again' % s)
    rec.label('overflow' if len(s) > 3 else 'short')
    rec.nontrivial(len(s) > 1)


def meaning(case, rec):
    root, prefix, n = case
    seen = set()
    for _ in range(n):
        s = sym.new_meaning(root, prefix) if prefix is not None else sym.new_meaning(root)
        parts = sym.parts(s)
        expect(len(parts) == 2, 'new_meaning(%r) is %r', root, s)
        expect_eq(sym.root(s), root, 'root of the new meaning of %r' % root)
        ns = sym.nspace(s)
        p = prefix or ''
        expect(ns.startswith(p) and re.match(r'[0-9a-f]{1,16}\Z', ns[len(p):]), 'namespace of new_meaning(%r, %r) is %r', root, prefix, ns)
        expect(s not in seen, 'new_meaning(%r) is %r twice', root, s)
        seen.add(s)
        expect_eq(sym.new_meaning(s, 'z'), s, 'new_meaning(%r), which is not a root' % s)
    rec.nontrivial(n > 1)


def unchanged(case, rec):
    s, prefix = case
    expect_eq(sym.new_meaning(s, prefix), s, 'new_meaning(%r, %r)' % (s, prefix))
    rec.nontrivial()


ROOT = gen.fresh_symbols(8).map(lambda s: s.replace('/', '.'))
PREFIX = st.one_of(st.none(), st.sampled_from(['', 'p.', 'wn.', 'g', '0']))
PROPS = [
    Prop('hashed', st.one_of(st.text(max_size=30), st.text(st.sampled_from('abAB01'), max_size=120),
                             st.text(st.characters(exclude_categories=('Cs',)), max_size=40)), hashed, 5000, 100000,
         examples=['', 'a', 'graphbrain', 'x' * 300]),
    Prop('meaning', st.tuples(ROOT, PREFIX, st.integers(1, 4)), meaning, 2400, 20000, examples=[('a', None, 3000)]),
    Prop('unchanged', st.tuples(st.tuples(ROOT, ROOT).map('/'.join), st.sampled_from(['', 'p.'])), unchanged, 1500, 20000),
]
