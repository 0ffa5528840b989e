"""f_all() visits every vertex once, with its degree."""
from hypothesis import strategies as st

import again
import gen
from model import Model, apply_real, canon, close, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are stores built by histories; the vertices that f_all() visits are compared to the stored edges and their '
        'elements. Non-trivial: there are edges that are elements of others, or entities out of use, or reads during the visit.')
ASSUMPTIONS = ['entities that are not in use any more may be visited, with degree 0; functions do not write to the store']


def visit(hg, model, seen_before, what=''):
    got = {}
    n = 0
    res = hg.f_all(lambda vm: (vm['vertex'], vm['degree'], dict(vm)))
    for v, d, vm in res:
        n += 1
        expect(set(vm) >= {'vertex', 'degree'}, '%svertex map %r', what, vm)
        c = canon(v)
        expect(c not in got, '%s%r is visited twice', what, v)
        got[c] = d
    count = model.recount()
    needed = dict((c, count.get(c, 0)) for c in list(model.edges) + list(count))
    for c, d in needed.items():
        expect(c in got, '%s%r is not visited', what, c)
        expect(got[c] == d, '%sdegree of %r is %r, expected %r', what, c, got[c], d)
    for c in got:
        if c not in needed:
            expect(c in seen_before and got[c] == 0, '%s%r is visited, with degree %r', what, c, got[c])
    return n


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        seen = set()
        for op in case['ops']:
            apply_real(hg, op)
            model.apply(op)
            if op[0] == 'destroy':
                seen = set()
            seen |= set(model.vertex) | set(model.edges)
        visit(hg, model, seen)
        if any(model.degree(e) > 0 for e in model.edges.values()) or len(seen) > len(model.recount()):
            rec.nontrivial()
        # the function may ask the store, alone or in a batch
        def f(vm):
            v = vm['vertex']
            expect(hg.degree(v) == vm['degree'], 'degree(%r) is %r during the visit, not %r', v, hg.degree(v), vm['degree'])
            hg.star(v)
            hg.timestamp(v)
            return v
        first = [canon(v) for v in hg.f_all(f)]
        # the maps may be kept
        kept = list(hg.f_all(lambda vm: vm))
        expect(sorted(repr(canon(vm['vertex'])) for vm in kept) == sorted(map(repr, first)),
               'the vertex maps that were kept are of %r', [vm['vertex'] for vm in kept])
        for vm in kept:
            expect(vm['degree'] == hg.degree(vm['vertex']), 'a vertex map that was kept is %r', vm)
        # what the function returns is what the caller is given
        values = [0, None, (), '', False, case]
        given = [values[i % 6] for i in range(len(first))]
        todo = iter(given)
        expect([id(x) for x in hg.f_all(lambda vm: next(todo))] == [id(x) for x in given], 'f_all() does not give back what the function returns')
        expect(sorted(map(repr, first)) == sorted(map(repr, (canon(v) for v in hg.f_all(lambda vm: vm['vertex'])))),
               'two visits differ: %r', first)
        inside = []
        hg.batch_exec([lambda h: inside.extend(canon(v) for v in h.f_all(lambda vm: (h.degree(vm['vertex']), vm['vertex'])[1]))])
        expect(sorted(map(repr, inside)) == sorted(map(repr, first)), 'a visit in a batch differs: %r', inside)
        rec.label('%s vertices' % min(len(first) // 4 * 4, 12))
    finally:
        close(hg)


def large(n, rec):
    hg = sqlite_hg()
    try:
        edges = [('r/1', 'n%s' % i, 'n%s' % (i // 2)) for i in range(n)]
        hg.add(edges)
        want = {'r/1': n}
        for e in edges:
            for x in e[1:]:
                want[x] = want.get(x, 0) + 1
            want[e] = 0
        got = list(hg.f_all(lambda vm: (vm['vertex'], vm['degree'])))
        expect(len(got) == len(want) and dict(got) == want, 'visit of %s vertices visits %s', len(want), len(got))
        rec.nontrivial()
    finally:
        close(hg)


PROPS = [
    Prop('history', gen.history(max_ops=10, max_arity=4), run, 1300, 25000),
    Prop('large', st.integers(10, 200), large, 12, 60, examples=[1500]),
    again.prop(('visit',), 250, 5000),
    again.huge_prop(('visit',)),
]
