"""Opening a store keeps what is in it; stores in different files are apart; old layouts are upgraded."""
import functools
import os
import sqlite3

from hypothesis import strategies as st

import again
import faults
import gen
from model import Model, agree, all_edges, apply_real, canon, close, same_edges, sqlite_hg, text, vertices_of
from vf import Prop, expect, scratch_dir

RULE = ('Cases are stores opened again and again between operations (also while another handle is open), pairs of stores used in turn, and files '
        'written in the layout before degrees and timestamps were added, names of files with all kinds of characters, and stores that are opened while calls to SQLite fail or another connection holds them. Non-trivial: the store has edges when it is opened, or names are several or special.')
ASSUMPTIONS = ['the older layouts are the ones that the steps of the creation of tables show: a table of vertices without the '
               'column of timestamps, or without that of degrees too',
               'names of files do not start with "file:" (SQLite may be built to take these as URIs)']


@st.composite
def cases(draw):
    c = draw(gen.history(max_ops=5, max_arity=4, max_edges=6))
    c['opens'] = draw(st.integers(1, 3))
    c['second'] = draw(st.lists(gen.all_ops(c['atoms'], c['edges']), max_size=4))
    c['order'] = draw(st.lists(st.booleans(), min_size=12, max_size=12))
    return c


def dump(path):
    conn = sqlite3.connect(path)
    try:
        tables = [r[0] for r in conn.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")]
        return [(t, sorted(map(repr, conn.execute('SELECT * FROM %s' % t)))) for t in tables]
    finally:
        conn.close()


def opening(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        model = Model()
        hg = sqlite_hg(path)
        vs = vertices_of(case)
        handles = [hg]
        try:
            for op in case['ops']:
                apply_real(hg, op)
                model.apply(op)
                before = dump(path)
                for _ in range(case['opens']):
                    handles.append(sqlite_hg(path))
                expect(dump(path) == before, 'opening the store changes it: %r, %r', before, dump(path))
                while len(handles) > 3:
                    close(handles.pop())
            for h in handles:
                agree(h, model, vs, case['edges'], what='opened again: ')
            rec.nontrivial(len(model.edges) > 0)
        finally:
            for h in handles:
                close(h)


def apart(case, rec):
    """Two stores, used in turn."""
    with scratch_dir() as d:
        paths = [os.path.join(d, n) for n in ('x.db', 'y.db')]
        hgs = [sqlite_hg(p) for p in paths]
        models = [Model(), Model()]
        todo = [list(case['ops']), list(case['second'])]
        vs = vertices_of(case)
        try:
            for which in case['order']:
                i = int(which)
                if todo[i]:
                    op = todo[i].pop(0)
                    apply_real(hgs[i], op)
                    models[i].apply(op)
            for i in (0, 1):
                agree(hgs[i], models[i], vs, case['edges'], what='store %s of two: ' % i)
                same_edges(all_edges(hgs[i]), models[i].edges.values(), 'edges of store %s of two' % i)
            expect(sorted(os.listdir(d)) == ['x.db', 'y.db'], 'files: %r', sorted(os.listdir(d)))
            rec.nontrivial(models[0].state() != models[1].state())
        finally:
            for h in hgs:
                close(h)


def columns(path, table):
    conn = sqlite3.connect(path)
    try:
        return [r[1] for r in conn.execute('PRAGMA table_info(%s)' % table)]
    finally:
        conn.close()


def old(case, rec):
    """A file with edges, without the columns that later versions added."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg = sqlite_hg(path)
        model = Model()
        for op in case['ops']:
            apply_real(hg, op)
            model.apply(op)
        close(hg)
        drop = ['timestamp', 'degree'] if case['opens'] > 1 else ['timestamp']
        conn = sqlite3.connect(path)
        cols = [r[1] for r in conn.execute('PRAGMA table_info(vertices)')]
        if not set(drop) <= set(cols):
            conn.close()
            rec.label('another layout')
            return
        for c in drop:
            conn.execute('ALTER TABLE vertices DROP COLUMN %s' % c)
        conn.commit()
        conn.close()
        hg = sqlite_hg(path)
        try:
            same_edges(all_edges(hg), model.edges.values(), 'edges of a file without %s' % drop)
            for e in case['edges']:
                expect(hg.exists(e) is model.has(e), 'file without %s: exists(%r) is %r', drop, e, hg.exists(e))
            for v in vertices_of(case):
                same_edges(hg.star(v), model.star(v), 'file without %s: star(%r)' % (drop, v))
                if model.has(v) if isinstance(v, tuple) else model.degree(v) > 0:
                    expect(hg.timestamp(v) == -1, 'file without %s: timestamp(%r) is %r', drop, v, hg.timestamp(v))
                if 'degree' not in drop:
                    expect(hg.degree(v) == model.degree(v), 'file without %s: degree(%r) is %r', drop, v, hg.degree(v))
            new = ('brand/1', 'new/1', 'edge/1')
            hg.add(new, 17)
            expect(hg.exists(new) and hg.timestamp(new) == 17 and hg.degree('brand/1') == 1, 'file without %s: an edge can not be added', drop)
            rec.nontrivial(len(model.edges) > 0)
        finally:
            close(hg)


@st.composite
def failures(draw):
    c = draw(gen.history(max_ops=3, max_arity=3, max_edges=4))
    c['layout'] = draw(st.sampled_from(['none', 'none', 'empty', 'new', 'old', 'older']))
    c['how'] = draw(st.sampled_from(['error', 'error', 'locked']))
    c['after'] = draw(st.lists(gen.simple_ops(c['atoms'], c['edges']), min_size=1, max_size=3))
    return c


class Locked:
    """Another connection holds the store while it is opened."""

    def __init__(self, path, kind):
        self.path, self.kind = path, kind

    def __enter__(self):
        self.conn = sqlite3.connect(self.path, isolation_level=None)
        self.conn.execute('BEGIN %s' % self.kind)
        self.real = sqlite3.connect
        sqlite3.connect = functools.partial(self.real, timeout=0)

    def __exit__(self, *exc):
        sqlite3.connect = self.real
        self.conn.execute('ROLLBACK')
        self.conn.close()


def failed(case, rec):
    """Opening a store gives one that works, or fails; then it can be opened again."""
    layout = case['layout']
    with scratch_dir() as d:
        k = 0
        while True:
            path = os.path.join(d, 'x%s.db' % k)
            model = Model()
            if layout == 'empty':
                open(path, 'w').close()
            elif layout != 'none':
                hg = sqlite_hg(path)
                for op in case['ops']:
                    apply_real(hg, op)
                    model.apply(op)
                close(hg)
                conn = sqlite3.connect(path)
                for c in {'new': [], 'old': ['timestamp'], 'older': ['timestamp', 'degree']}[layout]:
                    try:
                        conn.execute('ALTER TABLE vertices DROP COLUMN %s' % c)
                    except sqlite3.OperationalError:
                        rec.label('another layout')
                conn.commit()
                conn.close()
            trouble = faults.Points(k, faults.raise_error, names=('execute', 'executemany', 'executescript', 'commit')) if case['how'] == 'error' else \
                Locked(path, ('IMMEDIATE', 'EXCLUSIVE')[k])
            what = 'opening a store (%s) with trouble (%s, %s)' % (layout, case['how'], k)
            hg = None
            try:
                with trouble:
                    hg = sqlite_hg(path)
            except sqlite3.Error:
                rec.label('refused')
                rec.nontrivial()
            if hg is None:
                hg = sqlite_hg(path)
                what += ', and again'
            try:
                same_edges(all_edges(hg), model.edges.values(), '%s: edges' % what)
                if layout in ('none', 'empty', 'new'):
                    for op in case['after']:
                        apply_real(hg, op)
                        model.apply(op)
                    agree(hg, model, vertices_of(case), case['edges'], what='%s: ' % what)
                else:
                    new = ('brand/1', 'new/1', 'edge/1')
                    hg.add(new, 17)
                    expect(hg.exists(new) and hg.timestamp(new) == 17 and hg.degree('brand/1') == 1, '%s: an edge can not be added', what)
            except sqlite3.Error as exc:
                expect(False, '%s: the store does not work: %s', what, exc)
            finally:
                close(hg)
            rec.label('%s, %s' % (layout, case['how']))
            if case['how'] == 'locked' and k == 1 or case['how'] == 'error' and trouble.n <= k:
                break
            k += 1


def memory(case, rec):
    """Stores in memory are apart too."""
    hgs = [sqlite_hg(), sqlite_hg()]
    try:
        model = Model()
        for op in case['ops']:
            apply_real(hgs[0], op)
            model.apply(op)
        same_edges(all_edges(hgs[1]), [], 'edges of another store')
        agree(hgs[0], model, vertices_of(case), case['edges'])
        rec.nontrivial(len(model.edges) > 0)
    finally:
        for h in hgs:
            close(h)


NAMES = ['x.db', 'x', 'X.DB', 'X.db', 'x.db?mode=ro', 'x?y=z', 'x#y', '%41', 'A', 'x%20y', '$HOME', '${HOME}.db',
         '~', '~root', 'a b', ' a', 'a ', "it's", 'x;y', '"x"', '.hidden', '-x', 'caf\u00e9', 'cafe\u0301', '\u4e2d', 'x\\y', 'sub/x.db', './x.db2', 'sub/../z.db', ':x:',
         'memory', ':memory', 'x.db-', '*', '[x]', 'x,y', 'nul', 'x' * 200]


@st.composite
def name_cases(draw):
    names = draw(st.lists(st.one_of(st.sampled_from(NAMES), st.text(st.sampled_from('abAB.-_ ?%#&=:$~\'"\u00e9'), min_size=1, max_size=8)), min_size=1, max_size=4, unique=True))
    return [n for n in names if n.strip('./') and n != ':memory:' and not n.startswith('file:')] or ['x.db']


def names(case, rec):
    """A store is in the file that has the name, literally, and in no other."""
    def norm(n):
        return os.path.normpath(n)
    with scratch_dir() as d:
        here = os.getcwd()
        os.chdir(d)
        hgs = []
        try:
            os.mkdir('sub')
            done = {}
            for i, n in enumerate(case):
                if norm(n) in done:
                    continue
                hg = sqlite_hg(n)
                hgs.append(hg)
                expect(all_edges(hg) == set(), 'the new store %r has edges: %r', n, all_edges(hg))
                hg.add(('in/1', 'store/1', i), i)
                done[norm(n)] = i
            got = sorted(norm(os.path.join(os.path.relpath(b, d), f)) for b, _, fs in os.walk(d) for f in fs)
            expect(got == sorted(done), 'the stores %r are in the files %r', sorted(done), got)
            for how in ('', d):
                for n, i in done.items():
                    hg = sqlite_hg(os.path.join(how, n) if how else n)
                    hgs.append(hg)
                    same_edges(all_edges(hg), [('in/1', 'store/1', i)], 'edges of %r' % (n,))
            rec.nontrivial(len(done) > 1 or any(c in n for n in done for c in '?%#$~: '))
        finally:
            os.chdir(here)
            for h in hgs:
                close(h)


PROPS = [
    Prop('names', name_cases(), names, 300, 3000, examples=[NAMES[:20], NAMES[20:]]),
    Prop('opening', cases(), opening, 500, 8000),
    Prop('failed', failures(), failed, 250, 3000),
    Prop('apart', cases(), apart, 500, 8000),
    Prop('old', cases(), old, 400, 6000),
    Prop('memory', cases(), memory, 200, 3000),
    again.prop('all', 250, 4000, hows=('elsewhere', 'elsewhere', 'call')),
]
