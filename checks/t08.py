"""After a loss of power the store is as it was after some write: nothing is there half way."""
import os

from hypothesis import strategies as st

import gen
import iolog
from model import Model, agree, apply_real, close, sqlite_hg, vertices_of
from vf import HarnessError, Prop, Violation, expect, scratch_dir
from t03 import reopened

LEVEL = 'fault_enumeration'
RULE = ('Cases are histories recorded write by write; for each point, the files are rebuilt as after a loss of power, where '
        'writes that were not synchronised are lost, kept, or some of each. The store is opened again and must be in the state '
        'after one of the last writes. Non-trivial: two or more operations change the store.')
ASSUMPTIONS = ['a write followed by fsync() or fdatasync() of the file is kept; other writes are each kept or lost whole, '
               'files created and removed are so in order, and for good after fsync() of their directory',
               'the last completed change may be lost (SQLite does not synchronise the removal of its journal), earlier ones may not']
iolog.ensure()


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=4, max_arity=3))
    simple = gen.simple_ops(pool, eds)
    op = gen.pick(simple, simple, st.tuples(st.just('batch'), st.lists(simple, min_size=2, max_size=3)),
                  st.sampled_from([('destroy',), ('noop',)]))
    return {'atoms': pool, 'edges': eds, 'ops': draw(st.lists(op, min_size=1, max_size=4)),
            'lost': draw(st.integers(0, 2 ** 48 - 1)), 'from': draw(st.integers(0, 200)), 'new': draw(st.booleans())}


MAX_POINTS = 40


def power(case, rec):
    models = [Model()]
    for op in case['ops']:
        m = models[-1].copy()
        m.apply(op)
        models.append(m)
    with scratch_dir() as d, scratch_dir() as work:
        path = os.path.join(d, 'x.db')
        if not case['new']:
            close(sqlite_hg(path))
        initial = iolog.read_files(d)
        iolog.watch(d)
        iolog.start()
        try:
            hg = sqlite_hg(path)
            for i, op in enumerate(case['ops']):
                apply_real(hg, op)
                iolog.mark(i + 1)
        finally:
            events = iolog.stop()
        final = iolog.read_files(d)
        close(hg)
        if iolog.image(initial, events, lambda i: True) != final:
            raise HarnessError('the recorded events do not give the files: %r' % [(e[0], e[1], e[2], len(e[3])) for e in events])
        bits = case['lost']
        keeps = [('unsynchronised writes are lost', lambda i: False),
                 ('some unsynchronised writes are lost', lambda i: bool(bits >> (i % 48) & 1)),
                 ('some unsynchronised writes are lost', lambda i: not (bits >> (i % 48) & 1))]
        points = range(len(events) + 1)
        if len(points) > MAX_POINTS:
            # a window of consecutive points, and some of all the others
            start = case['from'] % len(points)
            points = sorted(set(p % len(points) for p in range(start, start + MAX_POINTS // 2)) | set(points[::max(1, len(points) // (MAX_POINTS // 2))]))
        vs, es = vertices_of(case), case['edges']
        for n in points:
            done = max([e[2] for e in events[:n] if e[0] == 'M'], default=0)
            before = done       # the state before the last change
            while before > 0 and models[before].state() == models[done].state():
                before -= 1
            allowed = models[before:done + 2][::-1]
            for name, keep in keeps:
                where = 'loss of power (%s) after write %s of %s, %s operations done of %r' % (name, n, len(events), done, case['ops'])
                h = reopened(d, work, iolog.image(initial, events[:n], keep), where)
                problems = []
                try:
                    for m in allowed:
                        try:
                            agree(h, m, vs, es)
                            break
                        except Violation as exc:
                            problems.append(str(exc))
                    expect(len(problems) < len(allowed), '%s: not a state after one of the last operations: %s', where, '; '.join(problems))
                finally:
                    close(h)
        rec.label('%s operations' % len(case['ops']), '%s events' % (len(events) // 50 * 50))
        rec.nontrivial(sum(1 for a, b in zip(models, models[1:]) if a.state() != b.state()) > 1)


PROPS = [Prop('power', cases(), power, 400, 6000)]
