"""Pattern queries return exactly the matching edges."""
import itertools

from hypothesis import strategies as st

import again
import gen
from model import Model, apply_real, close, same_edges, sqlite_hg
from vf import Prop

RULE = ('Cases are stores built by short histories and asked random patterns plus, for one edge, every subset of its positions '
        'as wildcards; answers are compared to a scan of the model. Non-trivial: some pattern with a wildcard and a fixed '
        'element matches part of the stored edges.')
ASSUMPTIONS = ['patterns have two or more elements']


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(min_size=2, max_size=8, max_arity=5))
    ops = draw(st.one_of(
        st.just([('addn', eds, -1)]), st.just([('addn', eds, -1)]),
        st.lists(gen.simple_ops(pool, eds), min_size=2, max_size=8)))
    pats = draw(st.lists(gen.patterns(pool, eds), min_size=1, max_size=6))
    return {'atoms': pool, 'edges': eds, 'ops': ops, 'patterns': pats, 'full': draw(st.sampled_from(eds))}


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        for op in case['ops']:
            apply_real(hg, op)
            model.apply(op)
        pats = list(case['patterns'])
        full = case['full']
        for mask in itertools.product([False, True], repeat=len(full)):
            pats.append(tuple(None if m else e for m, e in zip(mask, full)))
        for n in range(2, 6):
            pats.append((None,) * n)
        for p in pats:
            want = model.pattern(p)
            same_edges(hg.pattern2edges(p), want, 'pattern2edges(%r)' % (p,))
            if 0 < len(want) < len(model.edges) and None in p and any(x is not None for x in p):
                rec.nontrivial()
                if any(isinstance(x, tuple) for x in p):
                    rec.label('edge in the pattern')
                if any(isinstance(x, (int, float)) for x in p):
                    rec.label('number in the pattern')
                if p[0] is None:
                    rec.label('starts with a wildcard')
            same_edges(hg.pattern2edges(list(p)), want, 'pattern2edges(%r)' % (list(p),))
    finally:
        close(hg)


def large(case, rec):
    """More matches than any reasonable page of results."""
    n, pos = case
    hg = sqlite_hg()
    try:
        edges = []
        for i in range(n):
            e = ['x%s' % i, 'y%s/1' % (i % 5), i]
            e.insert(pos, 'fixed/1')
            edges.append(tuple(e))
        hg.add(edges)
        p = [None] * 4
        p[pos] = 'fixed/1'
        same_edges(hg.pattern2edges(tuple(p)), edges, 'pattern2edges(%r)' % (p,))
        p2 = [None] * 4
        p2[2 if pos > 1 else 2] = edges[0][2]
        same_edges(hg.pattern2edges(tuple(p2)), [e for e in edges if e[2] == edges[0][2]], 'pattern2edges(%r)' % (p2,))
        same_edges(hg.pattern2edges((None,) * 4), edges, 'pattern2edges of wildcards')
        rec.nontrivial()
    finally:
        close(hg)


PROPS = [
    Prop('patterns', cases(), run, 900, 20000),
    Prop('large', st.tuples(st.integers(20, 200), st.integers(0, 3)), large, 12, 60, examples=[(2000, 1)]),
    again.prop(('pattern',), 500, 10000),
    again.huge_prop(('pattern',)),
]
