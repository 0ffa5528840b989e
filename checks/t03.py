"""A crash at any point of a write leaves the state before it, or the state after it."""
import os

from hypothesis import strategies as st

import faults
import gen
import iolog
from model import Model, agree_bulk, apply_real, canon, close, sqlite_hg, vertices_of, agree
from vf import HarnessError, Prop, Violation, expect, scratch_dir

LEVEL = 'fault_enumeration'
RULE = ('Cases are histories whose last operation (one edge, several, a batch, beliefs, a removal, a flush of a buffer, destroy, or opening a new '
        'store) is interrupted. "calls" ends the process at each call to SQLite; "writes" rebuilds the files as they are after '
        'each write, truncation and removal of a file. The store is opened again and compared to the states before and after. '
        'Non-trivial: the operation changes the store, and there were five or more crash points.')
ASSUMPTIONS = ['what the process has written to a file is kept when the process ends (loss of power is T08)']
iolog.ensure()


def final_ops(pool, eds):
    simple = gen.simple_ops(pool, eds)
    many = gen.compound_ops(pool, eds)
    return gen.pick(simple, many, many, st.tuples(st.just('batch'), st.lists(simple, min_size=2, max_size=3)), st.just(('destroy',)))


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=4, max_arity=3))
    return {'atoms': pool, 'edges': gen.linked(pool, eds), 'before': draw(gen.preparation(pool, eds)), 'op': draw(final_ops(pool, eds))}


do = apply_real


def vertices(case):
    return vertices_of(case)


def edges_of(case):
    return case['edges']


def which(hg, pre, post, case):
    """'pre', 'post', or the complaint."""
    vs, es = vertices(case), edges_of(case)
    problem = ''
    for name, m in (('post', post), ('pre', pre)):
        try:
            agree(hg, m, vs, es)
            return name
        except Violation as exc:
            problem += '; not as %s: %s' % ('after' if name == 'post' else 'before', exc)
    raise Violation('the state is neither the one before nor the one after' + problem)


def states(case):
    pre = Model()
    for op in case['before']:
        pre.apply(op)
    post = pre.copy()
    post.apply(case['op'])
    return pre, post


def prepare(path, case):
    hg = sqlite_hg(path)
    for op in case['before']:
        apply_real(hg, op)
    close(hg)


def redo(hg, case, post, what):
    do(hg, case['op'])
    agree(hg, post, vertices(case), edges_of(case), what='%s, after doing it again: ' % what, timestamps=False)


def calls(case, rec):
    pre, post = states(case)
    k = 0
    last = 'pre'
    while True:
        with scratch_dir() as d:
            path = os.path.join(d, 'x.db')
            prepare(path, case)

            def child():
                hg = sqlite_hg(path)
                with faults.Points(k, faults.die):
                    do(hg, case['op'])
                os._exit(5)

            code = faults.in_child(child)
            if code not in (77, 5):
                expect(False, 'the operation fails (%s)', code)
            hg = sqlite_hg(path)
            try:
                where = 'crash before call %s to SQLite in %r' % (k, case['op'])
                try:
                    state = which(hg, pre, post, case)
                except Violation as exc:
                    raise Violation('%s: %s' % (where, exc))
                expect(not (last == 'post' and state == 'pre' and pre.state() != post.state()), '%s: the state is the one before, again', where)
                last = state
                if code == 5:
                    agree(hg, post, vertices(case), edges_of(case), what='the process ended after %r: ' % (case['op'],))
                redo(hg, case, post, where)
            finally:
                close(hg)
        if code == 5:
            break
        k += 1
        if k > 3000:
            break
    rec.label(case['op'][0], 'points %s' % (k // 20 * 20))
    rec.nontrivial(pre.state() != post.state() and k >= 5)


def bulk(case, rec):
    """The process ends at some points of a call that writes many edges."""
    kind, n, parts = case
    case = gen.bulk(kind, n)
    pre, post = states(case)
    points = faults.Points(None, None)
    twin = sqlite_hg()
    for op in case['before']:
        apply_real(twin, op)
    with points:
        do(twin, case['op'])
    close(twin)
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        prepare(path, case)
        for k in sorted(set([points.n * p // 1000 for p in parts] + [points.n - 2])):
            def child():
                hg = sqlite_hg(path)
                with faults.Points(k, faults.die):
                    do(hg, case['op'])
                os._exit(5)

            code = faults.in_child(child)
            expect(code in (77, 5), 'the operation fails (%s)', code)
            hg = sqlite_hg(path)
            try:
                where = 'crash before call %s of %s to SQLite in %s of %s edges' % (k, points.n, kind, n)
                try:
                    agree_bulk(hg, pre, case)
                except Violation as exc:
                    try:
                        agree_bulk(hg, post, case)
                    except Violation:
                        raise Violation('%s: the state is neither the one before nor the one after; not as before: %s' % (where, exc))
                    return
            finally:
                close(hg)
        hg = sqlite_hg(path)
        do(hg, case['op'])
        close(hg)
        hg = sqlite_hg(path)
        try:
            agree_bulk(hg, post, case, 'after crashes in %s of %s edges, and doing it again: ' % (kind, n))
        finally:
            close(hg)
    rec.nontrivial(n > 20)


def record(case):
    """Runs the operation with its writes recorded: (directory, files before, events)."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        prepare(path, case)
        iolog.watch(d)
        hg = sqlite_hg(path)
        initial = iolog.read_files(d)
        iolog.start()
        try:
            do(hg, case['op'])
            iolog.mark(1)
        finally:
            events = iolog.stop()
        final = iolog.read_files(d)
        close(hg)
        if iolog.image(initial, events, lambda i: True) != final:
            raise HarnessError('the recorded events do not give the files: %r' % [(e[0], e[1], e[2], len(e[3])) for e in events])
        return d, initial, events


def reopened(d, work, files, where):
    for f in os.listdir(work):
        os.unlink(os.path.join(work, f))
    iolog.write_files(files, d, work)
    try:
        return sqlite_hg(os.path.join(work, 'x.db'))
    except Exception as exc:
        raise Violation('%s: the store can not be opened: %s' % (where, exc))


def writes(case, rec):
    pre, post = states(case)
    d, initial, events = record(case)
    rec.label('%s: %s events' % (case['op'][0], len(events) // 10 * 10))
    with scratch_dir() as work:
        for n in range(len(events) + 1):
            where = 'the process ends after write %s of %s in %r' % (n, len(events), case['op'])
            h = reopened(d, work, iolog.image(initial, events[:n], lambda i: True), where)
            try:
                if any(e[0] == 'M' for e in events[:n]):
                    agree(h, post, vertices(case), edges_of(case), what=where + ', after it returned: ')
                else:
                    try:
                        which(h, pre, post, case)
                    except Violation as exc:
                        raise Violation('%s: %s' % (where, exc))
                if n % 4 == 0:
                    redo(h, case, post, where)
            finally:
                close(h)
    rec.nontrivial(pre.state() != post.state() and len(events) >= 5)


def opening(before, rec):
    """A crash while a new store is being created, or an existing one opened."""
    with scratch_dir() as d:
        case = {'atoms': ['a'], 'edges': [('a', 'b')], 'before': before, 'op': ('add', ('a', 'b'), 3)}
        pre, post = states(case)
        k = 0
        while True:
            path = os.path.join(d, 'x%s.db' % k)
            if before:
                prepare(path, case)

            def child():
                with faults.Points(k, faults.die):
                    sqlite_hg(path)
                os._exit(5)

            code = faults.in_child(child)
            expect(code in (77, 5), 'opening the store fails (%s)', code)
            hg = sqlite_hg(path)
            try:
                agree(hg, pre, vertices(case), edges_of(case), what='crash before call %s while opening: ' % k)
                redo(hg, case, post, 'crash while opening')
            finally:
                close(hg)
            if code == 5:
                break
            k += 1
        rec.nontrivial()


PROPS = [
    Prop('calls', cases(), calls, 90, 1500, examples=[
        {'atoms': ['a'], 'edges': [('is', 'a', 'b'), ('r', ('is', 'a', 'b'), 'c')], 'before': [('add', ('is', 'a', 'b'), 4)],
         'op': ('addn', [('r', ('is', 'a', 'b'), 'c'), ('x', 'y')], 9)},
        {'atoms': ['a'], 'edges': [('is', 'a', 'b'), ('is', 'b', 'a')], 'before': [('addn', [('is', 'a', 'b'), ('is', 'b', 'a')], 4)],
         'op': ('removen', [('is', 'a', 'b'), ('is', 'b', 'a')])},
        {'atoms': ['a'], 'edges': [('is', 'a', 'b'), ('is', 'b', 'a')], 'before': [('addn', [('is', 'a', 'b'), ('is', 'b', 'a')], 4)],
         'op': ('destroy',)}]),
    Prop('bulk', st.tuples(st.sampled_from(gen.BULK), st.integers(2, 130), st.lists(st.integers(0, 999), min_size=1, max_size=3)), bulk, 40, 400,
         examples=[(k, 260, [300, 600, 900]) for k in gen.BULK]),
    Prop('writes', cases(), writes, 300, 5000),
    Prop('opening', st.sampled_from([[], [('add', ('a', 'c', 'd'), 1)]]), opening, 6, 6, examples=[[], [('add', ('a', 'b', 'c'), 1)]]),
]
