"""A batch or a call that fails leaves nothing behind, and the store stays usable."""
import os
import resource
import signal
import sqlite3
import sys

from hypothesis import strategies as st

import again
import faults
import gen
from model import Model, agree, agree_bulk, apply_real, close, sqlite_hg, vertices_of
from vf import Prop, expect, scratch_dir

RULE = ('Cases are histories with a batch, a call with several edges, or a single call (additions, removals, beliefs, removals by pattern, a flush of a '
        'buffer) that fails half way: a function that raises (any kind of exception), a '
        'value that is not an edge, an error of the database (injected in a call to it, or a full disk). The state afterwards is compared to '
        'the one before, and more operations follow. Non-trivial: something was written before the failure.')
ASSUMPTIONS = ['a full disk is a limit to the size of files; injected errors are sqlite3.OperationalError']


class Stop(Exception):
    pass


class Harder(BaseException):
    pass


KINDS = {k.__name__: k for k in (Stop, Harder, KeyboardInterrupt, SystemExit, GeneratorExit, StopIteration, StopAsyncIteration, ValueError, KeyError, IndexError,
                                 LookupError, TypeError, AttributeError, NameError, NotImplementedError, RecursionError, ZeroDivisionError, OverflowError,
                                 ArithmeticError, OSError, EOFError, ImportError, TimeoutError, ConnectionError, FileNotFoundError, PermissionError, SyntaxError,
                                 UserWarning, Warning, UnicodeError, BufferError, ReferenceError, SystemError, RuntimeError, AssertionError,
                                 MemoryError, Exception, BaseException, sqlite3.OperationalError, sqlite3.IntegrityError, sqlite3.ProgrammingError,
                                 sqlite3.DatabaseError, sqlite3.InterfaceError, sqlite3.InternalError, sqlite3.Warning, sqlite3.Error)}
TEXTS = ['on purpose', 'on purpose: database is locked', 'on purpose, no such table: x', '']


def kinds(case, rec):
    """Each kind of exception, raised by functions of batches at several depths."""
    kind, text, depth, place = case
    hg = sqlite_hg()
    try:
        model = Model()
        first, second, third = ('is', 'a', 'b'), ('is', ('is', 'a', 'b'), 'c'), ('x', 'y')
        hg.add(first, 3)
        model.add(first, 3)
        exc = KINDS[kind](text) if text else KINDS[kind]()

        def stop(h):
            raise exc

        def inner(funs, level):
            return funs if level == 0 else [lambda h: h.batch_exec(inner(funs, level - 1))]
        funs = inner([lambda h: h.add(second, 5), lambda h: h.remove(first), stop, lambda h: h.add(third)], depth)
        if place:
            funs = [lambda h: h.add(third, 9)] + funs
        try:
            hg.batch_exec(funs)
        except BaseException as got:
            if got is not exc:
                raise
        else:
            expect(False, 'the exception %r did not reach the caller', exc)
        agree(hg, model, ['is', 'a', 'b', 'c', 'x', first], [first, second, third], what='after a batch that raised %r: ' % (exc,))
        hg.batch_exec([lambda h: h.add(third, 4)])
        model.add(third, 4)
        agree(hg, model, ['is', 'a', 'b', 'c', 'x', first], [first, second, third], what='after another batch: ')
        rec.label(kind)
        rec.nontrivial()
    finally:
        close(hg)


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=6, max_arity=3))
    simple = gen.simple_ops(pool, eds)
    many = gen.compound_ops(pool, eds)
    batch = st.tuples(st.just('batch'), st.lists(simple, max_size=3))
    how = draw(st.sampled_from(['raise', 'raise', 'raise inside', 'caught inside', 'not an edge', 'addn', 'removen', 'believe', 'injected', 'injected',
                                'injected alone', 'injected alone', 'injected alone']))
    alone = how == 'injected alone' and draw(st.integers(0, 3)) > 0
    return {'atoms': pool, 'edges': gen.linked(pool, eds),
            'before': draw(gen.preparation(pool, eds)),
            'failing': draw(st.lists(many if alone else gen.pick(simple, simple, batch, many), min_size=1, max_size=4)),
            'how': how, 'kind': draw(st.sampled_from(['Stop'] * 4 + sorted(KINDS))),
            'at': draw(st.integers(0, 60)),
            'after': draw(st.lists(gen.pick(simple, batch), max_size=4))}


def fail(hg, case, rec):
    """Does the failing operation. Returns the operations that are expected to stay, or None if it did not fail."""
    ops = case['failing']
    how = case['how']
    funs = [lambda h, o=o: apply_real(h, o) for o in ops]
    k = case['at'] % (len(funs) + 1)
    kind = KINDS[case['kind']]

    def stop(_):
        raise kind('on purpose')
    try:
        if how == 'raise':
            hg.batch_exec(funs[:k] + [stop] + funs[k:])
        elif how == 'raise inside':
            hg.batch_exec(funs[:k] + [lambda h: h.batch_exec([funs[0], stop])] + funs[k:])
        elif how == 'caught inside':
            # the exception is handled by a function of the batch: the batch did not fail
            def caught(h):
                try:
                    raise Stop()
                except Stop:
                    pass
            hg.batch_exec(funs[:k] + [caught] + funs[k:])
            return ops
        elif how == 'not an edge':
            hg.batch_exec(funs[:k] + [lambda h: h.add([case['edges'][0], 5])])
        elif how == 'addn':
            hg.add([e for e in case['edges']][:1 + k] + [12345])
        elif how == 'removen':
            hg.remove([e for e in case['edges']][:1 + k] + [12345])
        elif how == 'believe':
            hg.add_belief('mary/1', [e for e in case['edges']][:1 + k] + [12345])
        elif how == 'injected':
            with faults.Points(case['at'], faults.raise_error, names=('execute', 'executemany', 'commit')):
                hg.batch_exec(funs)
            return ops
        elif how == 'injected alone':
            op = [o for o in ops if o[0] != 'batch'][:1]
            if not op:
                return []
            with faults.Points(case['at'], faults.raise_error, names=('execute', 'executemany', 'commit')):
                apply_real(hg, op[0])
            return op
    except BaseException as exc:
        if how in ('raise', 'raise inside'):
            if type(exc) is not kind or 'on purpose' not in str(exc):
                raise
        elif how in ('not an edge', 'addn', 'removen', 'believe'):
            if not isinstance(exc, TypeError):
                raise
        elif not isinstance(exc, sqlite3.OperationalError) or 'injected' not in str(exc):
            raise
    else:
        expect(False, 'no exception reached the caller (%s, %s)', how, case['kind'])
    return None


def run(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        other = None
        try:
            model = Model()
            vs = vertices_of(case)
            for op in case['before']:
                apply_real(hg, op)
                model.apply(op)
            done = fail(hg, case, rec)
            if done is None:
                rec.label('failed: %s' % case['how'])
                rec.nontrivial(case['how'] in ('addn', 'removen', 'believe') or case['at'] > 0)
                agree(hg, model, vs, case['edges'], what='after a failed batch or call (%s): ' % case['how'])
            else:
                for op in done:
                    model.apply(op)
                agree(hg, model, vs, case['edges'], what='after a batch or call: ')
            other = sqlite_hg(path)
            agree(other, model, vs, case['edges'], what='another handle, after a failed batch or call (%s): ' % case['how'])
            for op in case['after']:
                apply_real(hg, op)
                model.apply(op)
                agree(other, model, vs[:3], case['edges'], what='another handle, after %r, which came after a failed batch or call (%s): ' % (op, case['how']))
            agree(hg, model, vs, case['edges'], what='after more operations: ')
        finally:
            close(hg)
            if other is not None:
                close(other)


# An error at every point of one call

@st.composite
def every_cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=5, max_arity=3))
    simple, many = gen.simple_ops(pool, eds), gen.compound_ops(pool, eds)
    return {'atoms': pool, 'edges': gen.linked(pool, eds), 'before': draw(gen.preparation(pool, eds)),
            'op': draw(gen.pick(simple, many, many, many, st.just(('destroy',)), st.tuples(st.just('batch'), st.lists(gen.pick(simple, many), min_size=2, max_size=3)))),
            'kind': draw(st.sampled_from(sorted(INJECTED)))}


INJECTED = {'error': sqlite3.OperationalError, 'locked': sqlite3.OperationalError, 'integrity': sqlite3.IntegrityError, 'database': sqlite3.DatabaseError,
            'interrupt': KeyboardInterrupt, 'memory': MemoryError, 'other': Stop}


def injection(kind):
    def action():
        sys.setprofile(None)
        raise INJECTED[kind]('database is locked (injected)' if kind == 'locked' else 'disk I/O error (injected)')
    return action


def every(case, rec):
    """The same call fails at its first call to SQLite, then at the second, and so on, until it succeeds; on one store."""
    hg = sqlite_hg()
    try:
        pre = Model()
        for op in case['before']:
            apply_real(hg, op)
            pre.apply(op)
        post = pre.copy()
        post.apply(case['op'])
        es = [e for e in case['edges'] if pre.has(e) is not post.has(e)][:4] + case['edges'][:2]
        vs = [v for v in vertices_of(case) if pre.degree(v) != post.degree(v)][:4] + case['edges'][:1]
        k = 0
        while True:
            try:
                with faults.Points(k, injection(case.get('kind', 'error')), names=('execute', 'executemany', 'commit')):
                    apply_real(hg, case['op'])
                break
            except BaseException as exc:
                if 'injected' not in str(exc):
                    raise
            agree(hg, pre, vs, es, what='after %r failed at call %s to SQLite: ' % (case['op'], k))
            k += 1
        agree(hg, post, vertices_of(case), case['edges'], what='after %r, which failed before: ' % (case['op'],))
        rec.label(case['op'][0])
        rec.nontrivial(k > 4 and pre.state() != post.state())
    finally:
        close(hg)


def bulk(case, rec):
    """A call that writes many edges fails at some points, the last ones included; on one store."""
    kind, n, parts, how = case
    case = gen.bulk(kind, n)
    hg, twin = sqlite_hg(), sqlite_hg()
    try:
        pre = Model()
        for op in case['before']:
            apply_real(hg, op)
            apply_real(twin, op)
            pre.apply(op)
        post = pre.copy()
        post.apply(case['op'])
        points = faults.Points(None, None, names=('execute', 'executemany', 'commit'))
        with points:
            apply_real(twin, case['op'])
        for k in sorted(set([points.n - 1, points.n - 2] + [points.n * p // 1000 for p in parts])):
            try:
                with faults.Points(k, injection(how), names=('execute', 'executemany', 'commit')):
                    apply_real(hg, case['op'])
            except BaseException as exc:
                if 'injected' not in str(exc):
                    raise
                agree_bulk(hg, pre, case, 'after %s of %s edges failed at call %s of %s to SQLite: ' % (kind, n, k, points.n))
            else:
                expect(False, 'no exception reached the caller: %s of %s edges, failing at call %s of %s to SQLite', kind, n, k, points.n)
        if kind in ('addn', 'removen', 'believe'):
            # the last one is no edge
            op = (kind, case['all'] + [12345], 5)[:2 if kind == 'removen' else 3] if kind != 'believe' else (kind, 'mary/1', case['all'] + [12345], 5)
            try:
                apply_real(hg, op)
            except TypeError:
                agree_bulk(hg, pre, case, 'after %s of %s edges, and a value that is none: ' % (kind, n))
            else:
                expect(False, 'no exception reached the caller: %s of %s edges, and a value that is none', kind, n)
        apply_real(hg, case['op'])
        agree_bulk(hg, post, case, 'after %s of %s edges: ' % (kind, n))
        rec.label(kind)
        rec.nontrivial(n > 20)
    finally:
        close(hg)
        close(twin)


# A full disk

@st.composite
def full_cases(draw):
    c = draw(cases())
    c['room'] = draw(st.integers(0, 24))
    c['pad'] = draw(st.integers(10, 120))
    return c


def disk_full(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        model = Model()
        for op in case['before']:
            apply_real(hg, op)
            model.apply(op)
        close(hg)
        size = os.path.getsize(path)
        big = [('pad/%s' % i, 'x' * 60 + str(i), 'y%s' % i) for i in range(case['pad'])]
        ops = case['failing'] + [('addn', big, 7)]

        def child():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            h = sqlite_hg(path)
            limit = size + 1024 * case['room']
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            try:
                h.batch_exec([lambda hh, o=o: apply_real(hh, o) for o in ops])
            except sqlite3.Error:
                # this process still sees what there was
                agree(h, model, vertices_of(case), case['edges'], what='x')
                os._exit(3)
            os._exit(4)

        code = faults.in_child(child)
        expect(code in (3, 4), 'after a full disk the store of the same process has not the former state (%s)', code)
        rec.label('full' if code == 3 else 'enough room')
        rec.nontrivial(code == 3)
        if code == 4:
            for op in ops:
                model.apply(op)
        hg = sqlite_hg(path)
        try:
            agree(hg, model, vertices_of(case), case['edges'], what='after a full disk: ')
            expect(hg.degree('x' * 60 + '0') == (1 if code == 4 else 0), 'after a full disk some of the batch is there')
            for op in case['after']:
                apply_real(hg, op)
                model.apply(op)
            agree(hg, model, vertices_of(case), case['edges'], what='after a full disk and more operations: ')
        finally:
            close(hg)


PROPS = [
    Prop('failures', cases(), run, 1500, 25000),
    Prop('kinds', st.tuples(st.sampled_from(sorted(KINDS)), st.sampled_from(TEXTS), st.integers(0, 2), st.booleans()), kinds, 200, 800,
         examples=[(k, TEXTS[0], i, True) for k in sorted(KINDS) for i in (0, 1)]),
    Prop('bulk', st.tuples(st.sampled_from(gen.BULK), st.integers(2, 130), st.lists(st.integers(0, 999), max_size=2), st.sampled_from(sorted(INJECTED))), bulk, 60, 600,
         examples=[(k, 260, [500, 990], 'error') for k in gen.BULK]),
    Prop('every', every_cases(), every, 500, 8000),
    Prop('disk_full', full_cases(), disk_full, 150, 2500),
    again.prop('all', 500, 8000, hows=('failing', 'failing', 'failing', 'call')),
]
