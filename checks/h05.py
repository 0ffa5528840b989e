"""Timestamps: an edge keeps the one it was added with."""
from hypothesis import strategies as st

import again
import gen
from model import Model, apply_real, canon, close, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are histories with timestamps from the past to far in the future, with edges added again with other timestamps '
        'and removed in between; timestamps are compared to the model after each operation. Non-trivial: a stored edge or an '
        'element in use was added again with another timestamp.')
ASSUMPTIONS = ['timestamps are 64-bit integers', 'the timestamp of an entity that has been out of use is not specified']


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        vs = vertices_of(case)
        for op in case['ops']:
            if op[0] in ('add', 'addn'):
                for e in ([op[1]] if op[0] == 'add' else op[1]):
                    for v in (e,) + tuple(e):
                        old = model.timestamp(v)
                        if (model.has(v) if isinstance(v, tuple) else model.degree(v) > 0) and old is not None and old != op[2]:
                            rec.nontrivial()
                            rec.label('edge added again' if v is e else 'element used again')
            apply_real(hg, op)
            model.apply(op)
            for v in vs:
                want = model.timestamp(v)
                if want is not None:
                    got = hg.timestamp(v)
                    expect(got == want and type(got) is int, 'after %r: timestamp(%r) is %r, expected %r', op, v, got, want)
        for v in ('never_added/1', ('never', 'added'), 987654321):
            if canon(v) in model.vertex:
                continue
            expect(hg.timestamp(v) == -1, 'timestamp(%r) is %r', v, hg.timestamp(v))
    finally:
        close(hg)


def exact(case, rec):
    """Any 64-bit timestamp comes back, for the edge and for its elements."""
    edge, ts, ts2 = case
    hg = sqlite_hg()
    try:
        hg.add([edge], ts)
        for v in (edge,) + edge:
            expect(hg.timestamp(v) == ts, 'timestamp(%r) is %r, expected %r', v, hg.timestamp(v), ts)
        hg.add([edge], ts2)
        expect(hg.timestamp(edge) == ts, 'timestamp(%r) is %r after adding it again, expected %r', edge, hg.timestamp(edge), ts)
        hg.remove([edge])
        expect(hg.timestamp(edge) == -1, 'timestamp(%r) is %r after it was removed', edge, hg.timestamp(edge))
        hg.add([edge], ts2)
        expect(hg.timestamp(edge) == ts2, 'timestamp(%r) is %r, expected %r', edge, hg.timestamp(edge), ts2)
        hg.add([('other/1', 'than/1', edge)], ts)
        expect(hg.timestamp(edge) == ts2, 'timestamp(%r) is %r after it was used, expected %r', edge, hg.timestamp(edge), ts2)
        rec.nontrivial(ts != ts2)
    finally:
        close(hg)


def large(case, rec):
    """Many edges in one call, then again with others and another timestamp."""
    n, k, t1, t2 = case
    hg = sqlite_hg()
    try:
        edges = [('r/1', 'n%s' % i, i) for i in range(n)]
        first, second = edges[:n - k], edges[n // 3:]
        hg.add(first, t1)
        hg.add(second, t2)
        for i, e in enumerate(edges):
            want = t1 if i < n - k else t2
            for v in (e, 'n%s' % i, i):
                expect(hg.timestamp(v) == want, 'timestamp(%r) is %r, expected %r', v, hg.timestamp(v), want)
        expect(hg.timestamp('r/1') == t1, 'timestamp of the relationship is %r, expected %r', hg.timestamp('r/1'), t1)
        rec.nontrivial(t1 != t2)
    finally:
        close(hg)


TS = st.one_of(gen.TIMESTAMPS, st.integers(-2 ** 63, 2 ** 63 - 1))
PROPS = [
    Prop('large', st.tuples(st.integers(30, 250), st.integers(1, 10), gen.TIMESTAMPS, gen.TIMESTAMPS), large, 24, 150, examples=[(1200, 9, 4, 2)]),
    Prop('history', gen.history(max_ops=14, max_arity=4), run, 1300, 25000),
    Prop('exact', st.tuples(gen.edges(6, max_size=4).filter(lambda e: len(set(map(canon, gen.leaves(e)))) == len(set(gen.leaves(e)))),
                            TS, TS), exact, 1200, 20000),
    again.prop(('timestamp',), 300, 6000),
    again.huge_prop(('timestamp',)),
]
