"""The star of an entity is exactly the stored edges that have it as an element."""
from hypothesis import strategies as st

import again
import gen
from model import Model, apply_real, close, same_edges, sqlite_hg, vertices_of
from vf import Prop

RULE = ('Cases are stores built by histories; the star of every atom, element and edge of the pool is compared to a scan of '
        'the model. Non-trivial: the star of some entity is part, but not all, of the stored edges.')
ASSUMPTIONS = ['entities are well-formed atoms or edges']


def star(hg, model, v, rec, what=''):
    want = model.star(v)
    same_edges(hg.star(v), want, '%sstar(%r)' % (what, v))
    if isinstance(v, tuple):
        same_edges(hg.star(list(v)), want, '%sstar(%r)' % (what, list(v)))
    if 0 < len(want) < len(model.edges):
        rec.nontrivial()
        rec.label('star of an edge' if isinstance(v, tuple) else 'star of a %s' % type(v).__name__)


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        vs = vertices_of(case)
        extra = []
        for v in vs:
            if isinstance(v, str):
                extra += [s for s in (v + '/1', v.split('/')[0], v[:-1], v + 'x', v.swapcase()) if gen.valid_symbol(s)]
            elif isinstance(v, tuple):
                extra += [v[::-1]] + [x for e in v if isinstance(e, tuple) for x in e]
            elif isinstance(v, int):
                extra += [v * 10, v + 1]
        extra = [x for x in extra if not any(x == v for v in vs)]
        for i, op in enumerate(case['ops']):
            apply_real(hg, op)
            model.apply(op)
            v = vs[i % len(vs)]
            star(hg, model, v, rec, 'after %r: ' % (op,))
        for v in vs + extra:
            star(hg, model, v, rec)
    finally:
        close(hg)


def nested(case, rec):
    """An entity inside of an element is not an element."""
    a, b, inner_first = case
    hg = sqlite_hg()
    try:
        inner = (a, b)
        outer = (inner, 'r', 'z') if inner_first else ('r', 'z', inner)
        hg.add([outer])
        same_edges(hg.star(a), [outer] if a in outer else [], 'star(%r)' % (a,))
        same_edges(hg.star(inner), [outer], 'star(%r)' % (inner,))
        hg.add([inner])
        same_edges(hg.star(a), [inner] + ([outer] if a in outer else []), 'star(%r)' % (a,))
        same_edges(hg.star(outer), [], 'star(%r)' % (outer,))
        rec.nontrivial()
    finally:
        close(hg)


def large(n, rec):
    hg = sqlite_hg()
    try:
        edges = [('in/1', 'hub/1', 'n%s' % i) if i % 2 else ('n%s' % i, 'of/1', 'x', 'hub/1') for i in range(n)]
        hg.add(edges)
        hg.add([('in/1', 'hub/12', 'x'), ('in/1', 'hub', 'x'), ('in/1', 'hub/', 'y')])
        same_edges(hg.star('hub/1'), edges, 'star of a hub')
        rec.nontrivial()
    finally:
        close(hg)


PROPS = [
    Prop('history', gen.history(max_ops=8), run, 900, 20000),
    Prop('nested', st.tuples(gen.atoms(), gen.symbols(), st.booleans()), nested, 600, 10000),
    Prop('large', st.integers(20, 300), large, 12, 60, examples=[3200]),
    again.prop(('star',), 300, 6000),
    again.huge_prop(('star',)),
]
