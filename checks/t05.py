"""Several handles on one store see each other's writes, whole."""
import os

from hypothesis import strategies as st

import again
import faults
import gen
from model import Model, agree, agree_bulk, apply_real, close, sqlite_hg, vertices_of
from vf import Prop, Violation, expect, scratch_dir

RULE = ('Cases interleave operations of two or three handles on one file; after each one all handles are compared to one model, and while a '
        'batch runs the other handles are compared to the state before it. One handle also looks before each call to SQLite of a single '
        'operation. Non-trivial: two handles wrote, or one read during a batch or call that writes.')
ASSUMPTIONS = ['operations of different handles do not overlap in time, other than reads during a batch']


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=5, max_arity=3))
    step = st.tuples(st.integers(0, 2), gen.all_ops(pool, eds))
    return {'atoms': pool, 'edges': eds, 'steps': draw(st.lists(step, min_size=2, max_size=8)), 'late': draw(st.booleans())}


def run(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        handles = [sqlite_hg(path), sqlite_hg(path)]
        try:
            if not case['late']:
                handles.append(sqlite_hg(path))
            model = Model()
            vs = vertices_of(case)
            writers = set()
            for who, op in case['steps']:
                if who >= len(handles):
                    handles.append(sqlite_hg(path))
                before = model.state()
                pre = model.copy()
                if op[0] == 'batch':
                    others = [h for i, h in enumerate(handles) if i != who]

                    def peek(_):
                        for o in others:
                            agree(o, pre, vs[:4], case['edges'], what='another handle, during %r: ' % (op,))
                    handles[who].batch_exec([f for o in op[1] for f in (lambda h, o=o: apply_real(h, o), peek)])
                    model.apply(op)
                    if model.state() != before:
                        rec.nontrivial()
                        rec.label('read during a batch that writes')
                else:
                    apply_real(handles[who], op)
                    model.apply(op)
                if model.state() != before:
                    writers.add(who)
                for i, h in enumerate(handles):
                    agree(h, model, vs, case['edges'], what='handle %s after %r by handle %s: ' % (i, op, who))
            rec.nontrivial(len(writers) > 1)
            rec.label('%s writers' % len(writers))
        finally:
            for h in handles:
                close(h)


@st.composite
def single(draw):
    pool, eds = draw(gen.edge_pool(max_size=5, max_arity=3))
    simple = gen.simple_ops(pool, eds)
    many = gen.compound_ops(pool, eds)
    return {'atoms': pool, 'edges': gen.linked(pool, eds), 'before': draw(gen.preparation(pool, eds)),
            'op': draw(gen.pick(simple, many, many, many, st.just(('destroy',)), st.tuples(st.just('batch'), st.lists(gen.pick(simple, many), min_size=2, max_size=3))))}


def during(case, rec):
    """Another handle looks before each of the calls to SQLite of one operation: it sees the state before, or the one after."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg, other = sqlite_hg(path), sqlite_hg(path)
        try:
            pre = Model()
            for op in case['before']:
                apply_real(hg, op)
                pre.apply(op)
            post = pre.copy()
            post.apply(case['op'])
            es = [e for e in case['edges'] if pre.has(e) is not post.has(e)][:4] + case['edges'][:2]
            vs = [v for v in vertices_of(case) if pre.degree(v) != post.degree(v)][:4]
            seen = []

            def look():
                try:
                    agree(other, post, vs, es, timestamps=False)
                    seen.append('post')
                except Violation:
                    try:
                        agree(other, pre, vs, es, timestamps=False)
                    except Violation as exc:
                        seen.append(str(exc))
                    else:
                        seen.append('pre')
            with faults.Points(None, look, names=('execute', 'executemany', 'commit'), every=True):
                apply_real(hg, case['op'])
            look()
            changed = bool(vs) or any(pre.has(e) is not post.has(e) for e in es)
            expect(all(s in ('pre', 'post') for s in seen), 'another handle, during %r: %s', case['op'], [s for s in seen if s not in ('pre', 'post')][:1])
            expect(seen[-1] == 'post', 'another handle, after %r: the state before it', case['op'])
            if changed:
                expect('pre' not in seen[seen.index('post'):], 'another handle, during %r: the state before it, again', case['op'])
            rec.label(case['op'][0])
            rec.nontrivial(changed and len(seen) > 4)
        finally:
            close(hg)
            close(other)


def bulk(case, rec):
    """Another handle looks at some points of a call that writes many edges."""
    kind, n, step = case
    case = gen.bulk(kind, n)
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg, other = sqlite_hg(path), sqlite_hg(path)
        try:
            pre = Model()
            for op in case['before']:
                apply_real(hg, op)
                pre.apply(op)
            post = pre.copy()
            post.apply(case['op'])
            count = [0]
            wrong = []

            def look():
                count[0] += 1
                if count[0] % step == 0:
                    try:
                        agree_bulk(other, pre, case)
                    except Violation as exc:
                        try:
                            agree_bulk(other, post, case)
                        except Violation:
                            wrong.append((count[0], str(exc)[:300]))
            points = faults.Points(None, look, names=('execute', 'executemany', 'commit'), every=True)
            with points:
                apply_real(hg, case['op'])
            agree_bulk(other, post, case, 'another handle, after %s of %s edges: ' % (kind, n))
            expect(not wrong, 'another handle, during %s of %s edges: %s', kind, n, wrong[:1])
            rec.nontrivial(n > 20)
        finally:
            close(hg)
            close(other)


PROPS = [
    Prop('bulk', st.tuples(st.sampled_from(gen.BULK), st.integers(2, 130), st.integers(100, 700)), bulk, 60, 600, examples=[(k, 260, 600) for k in gen.BULK]),
    Prop('handles', cases(), run, 700, 12000),
    Prop('during', single(), during, 500, 8000),
    again.prop('all', 500, 8000, hows=('other', 'other', 'call', 'batch')),
]
