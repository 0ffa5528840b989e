"""Calls of several handles that overlap have the effect of some order of them."""
import functools
import os
import sqlite3
import sys
import threading
import time
from contextlib import contextmanager

from hypothesis import strategies as st

import faults
import gen
from model import Model, agree, all_edges, apply_real, canon, close, same_edges, sqlite_hg, vertices_of
from vf import HarnessError, Prop, Violation, expect, scratch_dir

RULE = ('Cases are calls of two or three handles on one file that overlap: one call runs to its end at each point of another one, or '
        'threads take turns at the calls to SQLite in a generated order, or processes run freely. Calls that find the store locked are '
        'done again. Results and the state at the end must be those of the calls that took effect, in some order that respects which ended '
        'before which began. Non-trivial: calls that write overlap, or processes write to the same entities.')
ASSUMPTIONS = ['a call that overlaps with others may be refused (database is locked); then it has no effect and can be done again',
               'threads have a handle each', 'ego() and other queries that consist of several may see writes that happen in between']
NAMES = ('execute', 'executemany', 'executescript', 'commit', 'rollback')


@contextmanager
def impatient():
    """Handles that are opened do not wait for locks."""
    real = sqlite3.connect
    sqlite3.connect = functools.partial(real, timeout=0)
    try:
        yield
    finally:
        sqlite3.connect = real


def impatient_hg(path):
    with impatient():
        return sqlite_hg(path)


def refused(exc):
    return isinstance(exc, sqlite3.OperationalError) and 'lock' in str(exc)


def attempt(hg, op):
    """True if the call took effect."""
    try:
        apply_real(hg, op)
        return True
    except Exception as exc:
        if not refused(exc):
            raise
        return False


# ---------------------------------------------------------------- one call during another one

@st.composite
def pairs(draw):
    pool, eds = draw(gen.edge_pool(max_size=4, max_arity=3, atoms_max=4))
    simple = gen.simple_ops(pool, eds)
    op = gen.pick(simple, simple, gen.compound_ops(pool, eds), gen.compound_ops(pool, eds), st.just(('destroy',)),
                  st.tuples(st.just('batch'), st.lists(simple, min_size=1, max_size=3)))
    return {'atoms': pool, 'edges': gen.linked(pool, eds), 'before': draw(gen.preparation(pool, eds)), 'first': draw(op), 'second': draw(op)}


@st.composite
def related(draw):
    """Both calls are about the same edges, some of which are there."""
    pool, eds = draw(gen.edge_pool(min_size=2, max_size=4, max_arity=3, atoms_max=4))
    shape = draw(st.sampled_from(eds))
    wild = tuple(draw(st.sampled_from([None, None, e])) for e in shape)
    before = draw(gen.preparation(pool, eds, max_ops=1)) if draw(st.integers(0, 2)) == 0 else []
    before = before + [('addn', draw(st.lists(st.sampled_from(eds), min_size=1, max_size=3)), 1)]
    every = draw(st.permutations(eds))
    if draw(st.integers(0, 2)) == 0:
        # beliefs in one fact
        fact, s, t = draw(st.sampled_from(eds)), draw(st.sampled_from(gen.SOURCES)), draw(st.sampled_from(gen.SOURCES))
        before = before + [draw(st.sampled_from([('believe', s, [fact], 3), ('believe', t, [fact], 3), ('addn', [fact], 3)]))]
        calls = [('doubt', s, fact), ('believe', t, [fact], 4), ('doubt', t, fact), ('believe', s, [fact] + every[:1], 5), ('removen', [fact]),
                 ('remove', fact), ('rmpat', fact)]
        first, second = draw(st.sampled_from(calls)), draw(st.sampled_from(calls))
    else:
        one = every[0]
        calls = [('rmpat', wild), ('removen', every), ('addn', every, 2), ('believe', 'mary/1', every, 3),
                 ('batch', [('remove', e) for e in every] + [('add', e, 5) for e in every]), ('flush', [(e, 4) for e in every], 6),
                 ('destroy',), ('addn', [one], 7), ('removen', [one])]
        i = draw(st.integers(0, len(calls) ** 2 - 1))
        first, second = calls[i // len(calls)], calls[i % len(calls)]
    return {'atoms': pool, 'edges': gen.linked(pool, eds), 'before': before, 'first': first, 'second': second}


def prepared(path, ops):
    hg = sqlite_hg(path)
    m = Model()
    for op in ops:
        apply_real(hg, op)
        m.apply(op)
    close(hg)
    return m


def after(model, *ops):
    m = model.copy()
    for op in ops:
        m.apply(op)
    return m


def same_as_one(hg, models, case, what):
    problems = []
    for m in models:
        try:
            agree(hg, m, vertices_of(case), case['edges'])
            same_edges(all_edges(hg), m.edges.values(), 'stored edges')
            return
        except Violation as exc:
            problems.append(str(exc)[:300])
    raise Violation('%s: %s' % (what, ' / '.join(problems)))


MAX_POINTS = 30


def point(case, rec):
    """At each point of the first call, the second one runs."""
    with scratch_dir() as d:
        template = os.path.join(d, 'template.db')
        pre = prepared(template, case['before'])
        with open(template, 'rb') as f:
            content = f.read()
        first, second = case['first'], case['second']
        k, step, total = 0, 1, None
        while total is None or k < total:
            path = os.path.join(d, 'x%s.db' % k)
            with open(path, 'wb') as f:
                f.write(content)
            a, b = impatient_hg(path), impatient_hg(path)
            try:
                did = []
                points = faults.Points(k, lambda: did.append(attempt(b, second)), names=NAMES)
                with points:
                    one = attempt(a, first)
                if total is None:
                    total = points.n
                    step = max(1, total // MAX_POINTS)
                two = bool(did and did[0])
                what = '%r, and at call %s to SQLite in it %r (%s)' % (first, k, second, 'first: %s, second: %s' % (one, two))
                expect(one or two, '%s: both were refused', what)
                if one and two:
                    models = [after(pre, first, second), after(pre, second, first)]
                else:
                    models = [after(pre, first if one else second)]
                fresh = sqlite_hg(path)
                try:
                    same_as_one(fresh, models, case, what)
                finally:
                    close(fresh)
                # what was refused can be done now
                if not (one and two):
                    hg, again = (b, second) if one else (a, first)
                    expect(attempt(hg, again), '%s: refused again, when nothing else was going on', what)
                    fresh = sqlite_hg(path)
                    try:
                        same_as_one(fresh, [after(m, again) for m in models], case, what + ', and again')
                    finally:
                        close(fresh)
                rec.label('first: %s, second: %s' % (one, two))
            finally:
                close(a)
                close(b)
                os.unlink(path)
            k += step
        rec.nontrivial(after(pre, first).state() != pre.state() and after(pre, second).state() != pre.state())


# ---------------------------------------------------------------- threads that take turns

class Turns:
    """Threads that run one at a time, and hand over at calls to SQLite."""

    def __init__(self, n, order):
        self.order = order
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.alive = list(range(n))
        self.clock = 0
        self.abort = False

    def hand_over(self, i):
        self.back.release()
        if not self.go[i].acquire(timeout=100) or self.abort:
            raise SystemExit()

    def finished(self, i):
        self.alive.remove(i)
        self.back.release()

    def run(self):
        k = 0
        while self.alive:
            pick = self.order[k % len(self.order)] if self.order else 0
            k += 1
            self.go[self.alive[pick % len(self.alive)]].release()
            if not self.back.acquire(timeout=100):
                self.abort = True
                raise HarnessError('a thread does not come back')

    def tick(self):
        self.clock += 1
        return self.clock


class Call:
    def __init__(self, thread, op, start):
        self.thread, self.op, self.start = thread, op, start
        self.end = None
        self.took_effect = False
        self.results = []

    def __repr__(self):
        return '%s: %r%s' % (self.thread, self.op, '' if self.took_effect else ' (refused)')


def ask(hg, op):
    name, arg = op
    if name == '?exists':
        return hg.exists(arg)
    if name == '?degree':
        return hg.degree(arg)
    if name == '?star':
        return frozenset(map(canon, hg.star(arg)))
    return frozenset(map(canon, hg.pattern2edges(arg)))


def ask_model(model, op):
    name, arg = op
    if name == '?exists':
        return model.has(arg)
    if name == '?degree':
        return model.degree(arg)
    if name == '?star':
        return frozenset(map(canon, model.star(arg)))
    return frozenset(map(canon, model.pattern(arg)))


def real(hg, op, results):
    if op[0] == 'batch':
        hg.batch_exec([lambda h, o=o: real(h, o, results) for o in op[1]])
    elif op[0].startswith('?'):
        results.append(ask(hg, op))
    else:
        apply_real(hg, op)


def modelled(model, op, results):
    """Applies a call to a model; tells if the results are those of the model."""
    if op[0] == 'batch':
        return all([modelled(model, o, results) for o in op[1]])
    if op[0].startswith('?'):
        return results.pop(0) == ask_model(model, op)
    model.apply(op)
    return True


def orders(pre, calls):
    """Models at the end of all the orders of the calls in which they give their results."""
    out = []

    def go(model, left):
        if not left:
            out.append(model)
            return
        bound = min(c.end for c in left)
        for c in left:
            if c.start < bound:         # no other call ended before this one began
                m = model.copy()
                results = list(c.results)
                if modelled(m, c.op, results):
                    go(m, [x for x in left if x is not c])
    go(pre, calls)
    return out


TRIES = 4


def worker(i, turns, path, ops, calls, errors, handles):
    def profile(frame, event, arg):
        if event == 'c_call' and isinstance(getattr(arg, '__self__', None), (sqlite3.Cursor, sqlite3.Connection)) and arg.__name__ in NAMES:
            turns.hand_over(i)
    hg = None
    try:
        if not turns.go[i].acquire(timeout=100):
            raise SystemExit()
        hg = impatient_hg(path)
        turns.hand_over(i)
        for op in ops:
            for _ in range(TRIES):
                call = Call(i, op, turns.tick())
                sys.setprofile(profile)
                try:
                    real(hg, op, call.results)
                    call.took_effect = True
                except Exception as exc:
                    if not refused(exc):
                        raise
                finally:
                    sys.setprofile(None)
                    call.end = turns.tick()
                    calls.append(call)
                if call.took_effect:
                    break
                turns.hand_over(i)
    except SystemExit:
        pass
    except BaseException as exc:
        errors.append(exc)
    finally:
        sys.setprofile(None)
        if hg is not None:
            close(hg)
        turns.finished(i)


@st.composite
def schedules(draw):
    pool, eds = draw(gen.edge_pool(max_size=4, max_arity=3, atoms_max=3))
    simple = gen.simple_ops(pool, eds)
    vertex = st.sampled_from(list(pool) + list(eds))
    query = st.one_of(st.tuples(st.just('?exists'), st.sampled_from(eds)), st.tuples(st.just('?degree'), vertex), st.tuples(st.just('?star'), vertex),
                      st.tuples(st.just('?pattern'), gen.patterns(pool, eds)))
    batch = st.tuples(st.just('batch'), st.lists(gen.pick(simple, query), min_size=2, max_size=4))
    op = gen.pick(simple, simple, simple, batch, batch, query, gen.compound_ops(pool, eds))
    n = draw(st.sampled_from([2, 2, 2, 3]))
    # threads go on for a while, so that some calls get somewhere
    runs = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(1, 14)), min_size=1, max_size=12))
    return {'atoms': pool, 'edges': gen.linked(pool, eds), 'before': draw(gen.preparation(pool, eds)),
            'threads': [draw(st.lists(op, min_size=1, max_size=3 if n == 2 else 2)) for _ in range(n)], 'runs': runs}


def schedule(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        pre = prepared(path, case['before'])
        turns = Turns(len(case['threads']), [who for who, n in case['runs'] for _ in range(n)])
        calls, errors, handles = [], [], []
        threads = [threading.Thread(target=worker, args=(i, turns, path, ops, calls, errors, handles), daemon=True) for i, ops in enumerate(case['threads'])]
        for t in threads:
            t.start()
        turns.run()
        for t in threads:
            t.join(100)
        if errors:
            raise errors[0]
        done = [c for c in calls if c.took_effect]
        for c in calls:
            if not c.took_effect:
                expect(any(o.thread != c.thread and o.start < c.end and c.start < o.end for o in calls),
                       '%r is refused when nothing else is going on: %r', c, calls)
        models = orders(pre, done)
        expect(models, 'the results are not those of any order of %r: %r', calls, [c.results for c in done])
        fresh = sqlite_hg(path)
        try:
            same_as_one(fresh, models, case, 'the state is not that of any order of %r' % (calls,))
        finally:
            close(fresh)
        writes = [c for c in done if not c.op[0].startswith('?')]
        overlap = [(a, b) for a in calls for b in writes if a.thread != b.thread and a.start < b.end and b.start < a.end]
        rec.nontrivial(bool(overlap))
        if overlap:
            rec.label('calls overlap')
        if any(not c.took_effect for c in calls):
            rec.label('calls were refused')


# ---------------------------------------------------------------- processes that run freely

@st.composite
def crowds(draw):
    pool = ['a', 'b/1', 'c', 77, ('is/1', 'a', 'c')][:draw(st.integers(2, 5))]
    n = draw(st.sampled_from([2, 3, 4]))
    shared = [('s/1', pool[i % len(pool)], pool[(i * 2 + 1) % len(pool)], i) for i in range(draw(st.integers(1, 6)))]
    plans = []
    for p in range(n):
        own = [('o/1', 'p%s' % p, pool[i % len(pool)]) for i in range(len(pool))]
        plans.append(draw(st.lists(st.one_of(
            st.tuples(st.just('add'), st.sampled_from(shared)), st.tuples(st.just('add'), st.sampled_from(own)),
            st.tuples(st.just('remove'), st.sampled_from(own)),
            st.tuples(st.just('batch'), st.lists(st.sampled_from(shared + own), min_size=1, max_size=4))), min_size=4, max_size=14)))
    return {'atoms': pool, 'shared': shared, 'plans': plans}


def perform(path, plan, ready, start):
    hg = sqlite_hg(path)
    os.write(ready, b'x')
    os.read(start, 1)
    for op in plan:
        for _ in range(200):
            try:
                if op[0] == 'batch':
                    hg.batch_exec([lambda h, e=e: h.add(e, 3) for e in op[1]])
                else:
                    hg.add(op[1], 3) if op[0] == 'add' else hg.remove(op[1])
                break
            except Exception as exc:
                if not refused(exc):
                    raise
                time.sleep(0.001)
        else:
            os._exit(6)
    os._exit(5)


def crowd(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        close(sqlite_hg(path))
        ready_r, ready_w = os.pipe()
        start_r, start_w = os.pipe()
        pids = []
        try:
            for plan in case['plans']:
                pid = os.fork()
                if pid == 0:
                    faults.limits()
                    try:
                        os.close(start_w)
                        os.close(ready_r)
                        perform(path, plan, ready_w, start_r)
                    finally:
                        os._exit(99)
                pids.append(pid)
            os.close(ready_w)
            ready_w = None
            for _ in pids:
                os.read(ready_r, 1)
        finally:
            for fd in (ready_r, ready_w, start_r):
                if fd is not None:
                    os.close(fd)
            os.close(start_w)
            codes = [os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) for pid in pids]
        expect(all(c == 5 for c in codes), 'calls in several processes fail (%s)', codes)
        m = Model()
        for plan in case['plans']:
            for op in plan:
                for e in op[1] if op[0] == 'batch' else [op[1]]:
                    (m.remove if op[0] == 'remove' else m.add)(e)
        hg = sqlite_hg(path)
        try:
            same_edges(all_edges(hg), m.edges.values(), 'edges written by several processes')
            agree(hg, m, case['atoms'] + ['o/1', 's/1', 'p0', 'p1'], case['shared'], what='after several processes: ', timestamps=False)
        finally:
            close(hg)
        rec.nontrivial(len(m.edges) > 2)
        rec.label('%s processes' % len(pids))


PROPS = [
    Prop('point', pairs(), point, 300, 6000),
    Prop('related', related(), point, 500, 8000),
    Prop('schedule', schedules(), schedule, 900, 20000),
    Prop('crowd', crowds(), crowd, 60, 800),
]
