"""A buffering hypergraph writes everything, once it is flushed."""
import sqlite3

from hypothesis import strategies as st

import faults
import gen
from model import Model, agree, close, is_collection, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are histories of additions (one edge, several, beliefs; with and without timestamps) and flushes on a hypergraph with a buffer of 0 '
        'to 1000 edges, in front of a store; the store is compared to one that got the same additions directly. Non-trivial: three or more '
        'edges were added and some of them waited for a flush; or a flush failed and was done again.')
ASSUMPTIONS = ['nothing is removed, and nothing that waits is asked for, through the buffering hypergraph',
               'without a timestamp, an edge gets the one of flush(), or -1 when the buffer is written because it is full']


@st.composite
def cases(draw, sizes=st.sampled_from([0, 1, 2, 3, 5, 8, 1000, None])):
    pool, eds = draw(gen.edge_pool(max_size=6, max_arity=3))
    ts = st.one_of(st.just(-1), gen.TIMESTAMPS)
    op = gen.pick(
        st.tuples(st.just('add'), st.sampled_from(eds), ts),
        st.tuples(st.just('add'), st.sampled_from(eds), ts),
        st.tuples(st.just('addn'), st.lists(st.sampled_from(eds), min_size=1, max_size=5), ts),
        st.tuples(st.just('believe'), st.sampled_from(pool), st.sampled_from(eds), ts),
        st.tuples(st.just('flush'), ts),
    )
    return {'atoms': pool, 'edges': eds + [('src/1', e, a) for e in eds for a in pool[:2]], 'size': draw(sizes),
            'before': draw(st.lists(st.sampled_from(eds), max_size=2)),
            'ops': draw(st.lists(op, min_size=1, max_size=9)), 'lists': draw(st.booleans())}


def edges_of(op):
    if op[0] == 'add':
        return [op[1]]
    if op[0] == 'addn':
        return list(op[1])
    if op[0] == 'believe':
        return [op[2], ('src/1', op[2], op[1])]
    return []


def thawed(x):
    return [thawed(e) for e in x] if isinstance(x, (list, tuple)) else x


def spoil(x):
    for e in x:
        if isinstance(e, list):
            spoil(e)
    x.reverse()
    x.append('spoiled')


def run(case, rec):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    hg = sqlite_hg()
    try:
        model = Model()
        for e in case['before']:
            hg.add([e], 77)
            model.add(e, 77)
        size = case['size']
        bhg = BatchHyperGraph(hg) if size is None else BatchHyperGraph(hg, size)
        limit = 1000 if size is None else size
        waiting = []
        vs = vertices_of(case)
        added = 0
        for i, op in enumerate(case['ops']):
            new = edges_of(op)
            ts = op[-1]
            if op[0] == 'flush':
                bhg.flush(ts) if ts != -1 else bhg.flush()
                for e, t in waiting:
                    model.add(e, ts if t == -1 else t)
                rec.nontrivial(len(waiting) > 1 and added > 2)
                waiting = []
            else:
                if op[0] == 'believe':
                    args = (op[1], [op[2]] if is_collection(op[2]) else list(op[2]) if case['lists'] else op[2])
                    bhg.add_belief(*args, **({'timestamp': ts} if ts != -1 else {}))
                else:
                    arg = op[1]
                    if op[0] == 'add' and is_collection(arg):
                        arg = [arg]
                    elif op[0] == 'add' and case['lists']:
                        arg = list(arg)
                    elif op[0] == 'addn':
                        arg = tuple(arg) if case['lists'] else list(arg)
                    if case['lists'] and i % 2:
                        arg = thawed(arg)
                    bhg.add(arg, ts) if ts != -1 else bhg.add(arg)
                    if case['lists'] and i % 2:
                        # the caller goes on to use the lists for something else
                        spoil(arg)
                added += len(new)
                waiting += [(e, ts) for e in new]
                if len(waiting) > limit:
                    rec.label('written because the buffer is full')
                    rec.nontrivial(added > 2)
                    for e, t in waiting:
                        model.add(e, t)
                    waiting = []
            if not waiting:
                agree(hg, model, vs, case['edges'], what='after step %s, %r: ' % (i, op))
            else:
                # what waits may be written at any time, but nothing else
                for e in case['edges']:
                    if hg.exists(e):
                        expect(model.has(e) or any(repr(e) == repr(w) for w, _ in waiting), 'after step %s, %r: %r is there', i, op, e)
                    else:
                        expect(not model.has(e), 'after step %s, %r: %r is not there', i, op, e)
        bhg.flush()
        for e, t in waiting:
            model.add(e, t)
        agree(hg, model, vs, case['edges'], what='in the end: ')
        # nothing is written again
        stored = list(model.edges.values())
        hg.remove(stored) if stored else None
        bhg.flush()
        for e in stored:
            expect(not hg.exists(e), '%r is there again after a flush with nothing to write', e)
    finally:
        close(hg)


def large(case, rec):
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    n, size, chunk = case
    hg = sqlite_hg()
    try:
        bhg = BatchHyperGraph(hg) if size is None else BatchHyperGraph(hg, size)
        limit = 1000 if size is None else size
        todo = [('n', i) for i in range(n)]
        written, waiting = 0, 0
        while todo:
            part, todo = todo[:chunk], todo[chunk:]
            bhg.add(part if chunk > 1 else part[0], 5)
            waiting += len(part)
            if waiting > limit:
                written, waiting = written + waiting, 0
            there = hg.degree('n')
            expect(there >= written, '%s edges are written, expected %s (%s wait, the buffer has %s)', there, written, waiting, limit)
        bhg.flush(9)
        expect(hg.degree('n') == n, '%s edges are written, expected %s', hg.degree('n'), n)
        for i in range(n):
            expect(hg.exists(('n', i)) and hg.timestamp(('n', i)) == 5, '%r is not there, or has another timestamp', ('n', i))
        rec.nontrivial(written > 0)
    finally:
        close(hg)


def defaults(case, rec):
    """The underlying store is the one that was given; others are not touched."""
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    a, b = sqlite_hg(), sqlite_hg()
    try:
        ba, bb = BatchHyperGraph(a), BatchHyperGraph(b)
        half = len(case['edges']) // 2
        for e in case['edges'][:half]:
            ba.add([e], 3)
        for e in case['edges'][half:]:
            bb.add([e], 4)
        ma, mb = Model(), Model()
        ba.flush()
        for e in case['edges'][:half]:
            ma.add(e, 3)
        agree(a, ma, vertices_of(case), case['edges'], what='the first store: ')
        for e in case['edges']:
            expect(not b.exists(e) or e in case['edges'][half:], '%r is in the other store', e)
        bb.flush()
        for e in case['edges'][half:]:
            mb.add(e, 4)
        agree(b, mb, vertices_of(case), case['edges'], what='the second store: ')
        agree(a, ma, vertices_of(case), case['edges'], what='the first store: ')
        rec.nontrivial(half > 0)
    finally:
        close(a)
        close(b)


@st.composite
def failing(draw):
    c = draw(cases(st.sampled_from([2, 5, 1000])))
    c['ops'] = [op for op in c['ops'] if op[0] != 'flush'] or [('add', c['edges'][0], 3)]
    c['at'] = draw(st.integers(0, 80))
    return c


def again(case, rec):
    """A flush that fails writes nothing, and loses nothing."""
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    hg = sqlite_hg()
    try:
        bhg = BatchHyperGraph(hg, 1000)
        model = Model()
        for e in case['before']:
            hg.add([e], 77)
            model.add(e, 77)
        pre = model.copy()
        for op in case['ops']:
            ts = op[-1]
            for e in edges_of(op):
                bhg.add([e], ts) if ts != -1 else bhg.add([e])
                model.add(e, 55 if ts == -1 else ts)
        vs = vertices_of(case)
        try:
            with faults.Points(case['at'], faults.raise_error, names=('execute', 'executemany', 'commit')):
                bhg.flush(55)
        except sqlite3.OperationalError:
            agree(hg, pre, vs, case['edges'], what='after a flush that failed: ')
            bhg.flush(55)
            rec.nontrivial()
            rec.label('failed')
        agree(hg, model, vs, case['edges'], what='after a flush%s: ' % (', which failed before' if 'failed' in rec.labels else ''))
    finally:
        close(hg)


PROPS = [
    Prop('again', failing(), again, 500, 8000),
    Prop('history', cases(), run, 2000, 30000),
    Prop('two', cases(), defaults, 400, 5000),
    Prop('large', st.tuples(st.sampled_from([20, 60, 130]), st.sampled_from([0, 1, 10, 50]), st.sampled_from([1, 3, 17])), large, 30, 300,
         examples=[(1100, None, 100), (1001, None, 1)]),
]
