"""Reading does not change the store, and does not keep it locked."""
import gc
import os
import sqlite3

from hypothesis import strategies as st

import gen
from model import Model, agree, apply_real, close, sqlite_hg, vertices_of
from vf import Prop, expect, scratch_dir

RULE = ('Cases are stores in a file, asked random sequences of queries (all of them, hits and misses, alone or in a batch); the '
        'content of every table is compared before and after, and another connection writes in between. Non-trivial: the store '
        'is not empty and three or more different queries were asked.')
ASSUMPTIONS = ['a visit with f_all() that was not run to its end is given up (closed, or not referred to any more) before another connection writes']


def queries(pool, eds):
    v = st.sampled_from(list(pool) + list(eds))
    return gen.pick(
        st.tuples(st.just('exists'), st.sampled_from(eds)),
        st.tuples(st.sampled_from(['degree', 'timestamp', 'star']), v),
        st.tuples(st.sampled_from(['degree', 'timestamp', 'star']), v),
        st.tuples(st.just('pattern2edges'), gen.patterns(pool, eds)),
        st.tuples(st.just('symbols_with_root'), st.sampled_from(['a', 'graphbrain', 'src', '%', 'is'])),
        st.tuples(st.just('f_all'), st.none()),
        st.tuples(st.just('ego'), v),
        st.tuples(st.just('sources'), st.sampled_from(eds)),
    )


@st.composite
def cases(draw):
    c = draw(gen.history(max_ops=5, max_arity=3, max_edges=5))
    c['queries'] = draw(st.lists(queries(c['atoms'], c['edges']), min_size=1, max_size=10))
    c['batch'] = draw(st.booleans())
    return c


def ask(hg, q):
    name, arg = q
    if name == 'f_all':
        list(hg.f_all(lambda vm: vm['vertex']))
    elif name == 'ego':
        hg.ego(arg, 2)
    else:
        getattr(hg, name)(arg)


def dump(path):
    """The content of every table of the file."""
    conn = sqlite3.connect(path, timeout=0.2)
    try:
        tables = [r[0] for r in conn.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")]
        return [(t, sorted(map(repr, conn.execute('SELECT * FROM %s' % t)))) for t in tables]
    finally:
        conn.close()


def write_elsewhere(path):
    """Another process could write now."""
    conn = sqlite3.connect(path, timeout=0.2)
    try:
        conn.execute('CREATE TABLE verif_probe (x INTEGER)')
        conn.execute('DROP TABLE verif_probe')
        conn.commit()
    finally:
        conn.close()


def run(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        try:
            model = Model()
            for op in case['ops']:
                apply_real(hg, op)
                model.apply(op)
            before = dump(path)
            if case['batch']:
                hg.batch_exec([lambda h, q=q: ask(h, q) for q in case['queries']])
            for q in case['queries']:
                ask(hg, q)
                if not case['batch']:
                    try:
                        write_elsewhere(path)
                    except sqlite3.OperationalError as exc:
                        expect(False, 'after %r the store is locked: %s', q, exc)
            after = dump(path)
            expect(before == after, 'queries changed the store: %r, %r', before, after)
            agree(hg, model, vertices_of(case), case['edges'], what='after queries: ')
            rec.nontrivial(len(model.edges) > 0 and len(set(q[0] for q in case['queries'])) > 2)
            rec.label(*[q[0] for q in case['queries']])
        finally:
            close(hg)


def writes_release(case, rec):
    """After every write the store can be written by others, and they see it."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        try:
            model = Model()
            for op in case['ops']:
                apply_real(hg, op)
                model.apply(op)
                try:
                    write_elsewhere(path)
                except sqlite3.OperationalError as exc:
                    expect(False, 'after %r the store is locked: %s', op, exc)
            other = sqlite_hg(path)
            try:
                agree(other, model, vertices_of(case), case['edges'], what='another handle: ')
            finally:
                close(other)
            rec.nontrivial(len(model.edges) > 0)
        finally:
            close(hg)


def many(case, rec):
    """The same on stores with many edges and vertices."""
    n, k, asked = case
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        try:
            edges = [('r/1', 'n%s' % (i % k), i) for i in range(n)] + [(('r/1', 'n0', 0), 'x%s/1' % i) for i in range(k)]
            hg.add(edges, 3)
            before = dump(path)
            for q, batch in asked:
                hg.batch_exec([lambda h: ask(h, q)]) if batch else ask(hg, q)
                try:
                    write_elsewhere(path)
                except sqlite3.OperationalError as exc:
                    expect(False, 'after %r on %s edges, the store is locked: %s', q, n, exc)
            expect(before == dump(path), 'queries changed a store with %s edges', n)
            rec.nontrivial()
        finally:
            close(hg)


def partial(case, rec):
    """A visit that is not run to its end keeps nothing locked once it is given up; while it waits, its store can be used."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        try:
            model = Model()
            for op in case['ops']:
                apply_real(hg, op)
                model.apply(op)
            before = dump(path)
            visits = []
            for k, close_it in case['visits']:
                visit = hg.f_all(lambda vm: vm['vertex'])
                for _ in zip(range(k), visit):
                    rec.nontrivial()
                if close_it:
                    visit.close()
                else:
                    visits.append(visit)
                agree(hg, model, vertices_of(case)[:3], case['edges'][:2], what='during a visit: ')
            expect(before == dump(path), 'visits changed the store')
            if case['during'] and visits:
                for op in case['after']:
                    apply_real(hg, op)
                    model.apply(op)
                agree(hg, model, vertices_of(case), case['edges'], what='after writes while visits wait: ')
            visit = None
            del visits
            gc.collect()
            try:
                write_elsewhere(path)
            except sqlite3.OperationalError as exc:
                expect(False, 'after visits that were given up the store is locked: %s', exc)
            for op in case['after']:
                apply_real(hg, op)
                model.apply(op)
            other = sqlite_hg(path)
            try:
                for h in (hg, other):
                    agree(h, model, vertices_of(case), case['edges'], what='after visits that were given up: ')
            finally:
                close(other)
        finally:
            close(hg)


@st.composite
def partials(draw):
    c = draw(gen.history(max_ops=4, max_arity=3, max_edges=5, ops=lambda pool, eds: gen.simple_ops(pool, eds)))
    c['visits'] = draw(st.lists(st.tuples(st.integers(0, 4), st.booleans()), min_size=1, max_size=3))
    c['after'] = draw(st.lists(gen.simple_ops(c['atoms'], c['edges']), min_size=1, max_size=3))
    c['during'] = draw(st.booleans())
    return c


MANY = queries(['r/1', 'n0', 'n1', 0, 5, 'nothing'], [('r/1', 'n0', 0), ('r/1', 'n1', 1), (('r/1', 'n0', 0), 'x0/1'), ('no', 'edge')])
PROPS = [
    Prop('partial', partials(), partial, 300, 5000),
    Prop('queries', cases(), run, 900, 15000),
    Prop('many', st.tuples(st.integers(1, 60), st.integers(1, 12), st.lists(st.tuples(MANY, st.booleans()), min_size=1, max_size=6)), many, 200, 2000,
         examples=[(150, 40, [((q, a), b) for b in (False, True) for q, a in [('pattern2edges', ('r/1', None, None)), ('pattern2edges', (None, None, None)),
                                                                             ('star', 'r/1'), ('symbols_with_root', 'x7'), ('f_all', None),
                                                                             ('sources', ('r/1', 'n0', 0))]])]),
    Prop('writes', gen.history(max_ops=6, max_arity=3, max_edges=5), writes_release, 400, 8000),
]
