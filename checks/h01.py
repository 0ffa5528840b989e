"""Membership: exists() answers what a set of edges would, over any history."""
from hypothesis import strategies as st

import again
import gen
from model import Model, all_edges, apply_real, canon, close, same_edges, sqlite_hg, text
from vf import Prop, expect

RULE = ('Cases are histories of up to 25 operations (add, remove, several at once, batches, remove by pattern, destroy) over a '
        'pool of related edges, compared to a set of edges after each operation. Non-trivial: some edge was removed or added '
        'again after it had been stored.')
ASSUMPTIONS = ['single-edge calls are not used for edges whose first element is an edge (a list of one is passed instead)',
               'edges have arity 2 to 6 and no two numbers of a store are equal with different types']


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        again = False
        pool = case['edges']
        probes = [p for p in pool]
        # near misses: never stored unless they are in the pool
        for e in pool:
            probes.append(e[::-1])
            probes.append(e + e[:1])
            if len(e) > 2:
                probes.append(e[:-1])
                probes.append(e[1:])
            # the same text, as a symbol: not a well-formed symbol, so only in ways that are
            for i, x in enumerate(e):
                if isinstance(x, int):
                    probes.append(e[:i] + (x + 1,) + e[i + 1:])
                elif isinstance(x, str):
                    probes.append(e[:i] + (x + '0',) + e[i + 1:])
                    if len(x) > 1 and gen.valid_symbol(x[:-1]):
                        probes.append(e[:i] + (x[:-1],) + e[i + 1:])
                    swapped = x.swapcase()
                    if gen.valid_symbol(swapped):
                        probes.append(e[:i] + (swapped,) + e[i + 1:])
        probes = [p for p in probes if len(p) <= 6]
        for op in case['ops']:
            before = dict(model.edges)
            apply_real(hg, op)
            model.apply(op)
            if len(model.edges) < len(before) or (op[0] == 'add' and canon(op[1]) in before):
                again = True
            for p in probes:
                got = hg.exists(p)
                expect(got is model.has(p), 'after %r: exists(%r) is %r', op, p, got)
                lst = hg.exists(list(p))
                expect(lst is got, 'after %r: exists(%r) is %r for a list', op, p, lst)
        same_edges(all_edges(hg), model.edges.values(), 'stored edges')
        rec.label('%s ops' % (len(case['ops']) // 5 * 5), 'stored %s' % min(5, len(model.edges)))
        rec.nontrivial(again)
    finally:
        close(hg)


def many(n, rec):
    """A store with many edges."""
    hg = sqlite_hg()
    try:
        edges = [('rel/%s' % (i % 7), 'node%s/1' % i, 'node%s/1' % (i * 7 % n)) for i in range(n)]
        hg.add(edges)
        gone = edges[::3]
        hg.remove(gone)
        keep = set(edges) - set(gone)
        for e in edges:
            expect(hg.exists(e) is (e in keep), 'exists(%r) is %r in a store of %s edges', e, hg.exists(e), n)
        same_edges(hg.pattern2edges((None, None, None)), keep, 'stored edges')
        rec.nontrivial(n > 500)
    finally:
        close(hg)


def wide(edge, rec):
    """Edges with more elements: all that was written is found, and removed."""
    hg = sqlite_hg()
    try:
        other = edge[::-1]
        hg.add([edge])
        expect(hg.exists(edge) is True, 'exists(%r) is False after it was added', edge)
        expect(hg.exists(other) is (other == edge), 'exists(%r) is wrong', other)
        same_edges(hg.pattern2edges((None,) * len(edge)), [edge], 'stored edges')
        for x in set(edge):
            same_edges(hg.star(x), [edge], 'star(%r)' % (x,))
        hg.remove([edge])
        expect(hg.exists(edge) is False, 'exists(%r) is True after it was removed', edge)
        for x in set(edge):
            same_edges(hg.star(x), [], 'star(%r) after the edge was removed' % (x,))
        rec.label('arity %s' % len(edge))
        rec.nontrivial(len(edge) > 3)
    finally:
        close(hg)


PROPS = [
    Prop('history', gen.history(max_ops=12), run, 900, 20000),
    Prop('long', gen.history(max_ops=30, max_arity=3, max_edges=5, min_ops=10), run, 200, 5000),
    Prop('wide', st.lists(st.sampled_from(['a', 'b', 'c/1', 'd', 'e', 'f', ('a', 'b'), 5]), min_size=2, max_size=6).map(tuple), wide, 90, 1500,
         examples=[('r', 'a', 'b', 'c', 'd', 'e', 'f')]),
    Prop('many', st.sampled_from([30, 300, 1100]), many, 6, 18, examples=[1300]),
    again.prop(('exists',), 300, 6000),
    again.huge_prop(('exists',)),
]
