"""The MySQL backend behaves like the SQLite backend."""
from hypothesis import assume
from hypothesis import strategies as st

import fakemysql
import gen
from model import Model, agree, apply_real, canon, close, is_collection, observe, same_edges, sqlite_hg, vertices_of
from vf import Prop, expect, scratch_dir

fakemysql.install()
SERVER = fakemysql.SERVER

RULE = ('Cases are histories applied to a hypergraph on the MySQL backend (on a stand-in for the server) and on the SQLite backend, and asked everything '
        'after each operation; with functions and statements that fail, lost connections, reopenings and several handles. Non-trivial: three or more '
        'operations changed the store, or something failed after a change.')
ASSUMPTIONS = ['the server follows the documented behaviour of MySQL for placeholders, transactions, counts of rows and errors; collations are binary, '
               'texts of edges are shorter than the key (250 characters)']


def mysql_hg(name='gb'):
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph({'backend': 'mysql', 'host': 'h', 'user': 'u', 'password': 'p', 'db': name})


def same(a, b, what):
    for k in b:
        expect(a[k] == b[k], '%s%s of %r is %r with MySQL, %r with SQLite', what, k[0], k[1], a[k], b[k])


def visits(hg):
    return sorted((repr(canon(v)), d) for v, d in hg.f_all(lambda m: (m['vertex'], m['degree'])))


def rest(hg, case):
    out = {'f_all': visits(hg)}
    for a in case['atoms']:
        if isinstance(a, str) and '/' in a:
            out['root', a] = sorted(map(repr, hg.symbols_with_root(a.split('/')[0])))
        out['ego', repr(a)] = sorted(repr(canon(e)) for e in hg.ego(a, 2))
    return out


KEY = 250       # characters of the text of an edge that are part of the key


def length(e):
    return 1 + sum(length(x) + 1 for x in e) if isinstance(e, (list, tuple)) else len(str(e))


def renamed(x, f):
    if isinstance(x, (list, tuple)):
        return type(x)(renamed(y, f) for y in x)
    return f.get(x, x) if isinstance(x, str) else x


def fitted(case, stretch):
    """The case with texts of edges that fit the key; if stretch, with texts that are almost as long."""
    names = [a for a in case['atoms'] if isinstance(a, str)]

    def rename(f):
        out = dict(case)
        for k in ('atoms', 'edges', 'patterns', 'before'):
            if k in out:
                out[k] = renamed(out[k], f)
        if 'ops' in out:
            out['ops'] = [(o[0],) + tuple(renamed(x, f) for x in o[1:]) for o in out['ops']]
        for k in ('op', 'after'):
            if k in out:
                out[k] = (out[k][0],) + tuple(renamed(x, f) for x in out[k][1:])
        return out

    def longest(c):
        return max(length(e) for e in c['edges']) + len('src/1 mary/1  ') + 3
    case = rename({a: a.replace('long' * 60, 'long' * 4).replace('x' * 40, 'x' * 12) for a in names})
    names = [a for a in case['atoms'] if isinstance(a, str)]
    if stretch and longest(case) < KEY:
        most = max(sum(1 for x in gen.leaves(e) if isinstance(x, str)) for e in case['edges'])
        n = (KEY - longest(case)) // max(1, most)
        if n > 0:
            return rename({a: 'p' * n + a for a in names})
    return case if longest(case) < KEY else None


@st.composite
def fitting(draw, cases):
    case = fitted(draw(cases), draw(st.integers(0, 3)) == 0)
    assume(case is not None)
    return case


@st.composite
def histories(draw):
    case = draw(gen.history(max_ops=9, max_arity=4))
    case['reopen'] = draw(st.lists(st.integers(0, 9), max_size=2))
    case['patterns'] = draw(st.lists(gen.patterns(case['atoms'], case['edges']), max_size=3))
    return case


def run(case, rec):
    with scratch_dir() as d:
        SERVER.reset(d)
        lite = sqlite_hg()
        try:
            hg, other = mysql_hg(), None
            model = Model()
            vs = vertices_of(case)
            changed = 0
            for i, op in enumerate(case['ops']):
                before = model.state()
                apply_real(hg, op)
                apply_real(lite, op)
                model.apply(op)
                changed += model.state() != before
                what = 'after step %s, %r: ' % (i, op)
                agree(hg, model, vs, case['edges'], case['patterns'], what=what)
                same(observe(hg, vs, case['edges'], case['patterns']), observe(lite, vs, case['edges'], case['patterns']), what)
                a, b = rest(hg, case), rest(lite, case)
                for k in b:
                    expect(a[k] == b[k], '%s%r is %r with MySQL, %r with SQLite', what, k, a[k], b[k])
                if i in case['reopen']:
                    hg = mysql_hg()     # opens a store that exists
                    agree(hg, model, vs, case['edges'], what=what + 'opened again: ')
                if i % 3 == 2:
                    other = other or mysql_hg()
                    agree(other, model, vs, case['edges'], what=what + 'another handle: ')
            agree(mysql_hg(), model, vs, case['edges'], what='opened again in the end: ')
            expect(not mysql_hg('other').exists(case['edges'][0]), 'another database has the edges too')
            rec.nontrivial(changed > 2)
        finally:
            close(lite)
            SERVER.stop()


class Planned(Exception):
    pass


@st.composite
def failures(draw):
    pool, eds = draw(gen.edge_pool(max_size=5, max_arity=3))
    simple = gen.simple_ops(pool, eds)
    what = gen.pick(
        st.tuples(st.just('batch'), st.lists(simple, min_size=1, max_size=4)), simple,
        st.tuples(st.just('believe'), st.sampled_from(eds)),
        st.just(('destroy',)))
    return {'atoms': pool, 'edges': eds, 'before': draw(st.lists(simple, max_size=3)), 'op': draw(what),
            'how': draw(st.sampled_from(['raise', 'error', 'error', 'gone', 'gone'])), 'where': draw(st.integers(0, 1000)), 'after': draw(simple)}


def start(hg, op, fail=None):
    if op[0] == 'believe':
        hg.add_belief('mary/1', [op[1]] if is_collection(op[1]) else op[1], 3)
    elif op[0] == 'batch' and fail is not None:
        def boom(_):
            raise Planned()
        funs = [lambda h, o=o: apply_real(h, o) for o in op[1]]
        funs.insert(fail % (len(funs) + 1), boom)
        hg.batch_exec(funs)
    else:
        apply_real(hg, op)


def model_op(model, op):
    if op[0] == 'believe':
        model.add(op[1], 3)
        model.add(('src/1', op[1], 'mary/1'), 3)
    else:
        model.apply(op)


def failing(case, rec):
    import _mysql_exceptions as my
    op, how = case['op'], case['how']
    if how == 'raise' and op[0] != 'batch':
        how = 'error'
    with scratch_dir() as d:
        SERVER.reset(d)
        try:
            # how many statements the operation has
            hg, twin = mysql_hg('x'), mysql_hg('twin')
            model = Model()
            for o in case['before']:
                apply_real(hg, o)
                apply_real(twin, o)
                model.apply(o)
            first = SERVER.statements
            start(twin, op)
            total = SERVER.statements - first
            after = model.copy()
            model_op(after, op)
            vs = vertices_of(case)
            raised = None
            SERVER.changes = 0
            if how != 'raise':
                if total == 0:
                    return
                SERVER.statements, SERVER.fail_at, SERVER.fail_how = 0, 1 + case['where'] % total, how
            try:
                start(hg, op, case['where'] if how == 'raise' else None)
            except Exception as exc:
                raised = exc
            SERVER.fail_at = None
            if how == 'raise':
                expect(isinstance(raised, Planned), 'the exception of a function of the batch did not reach the caller: %r', raised)
            else:
                expect(isinstance(raised, my.Error), 'an error of the database did not reach the caller: %r', raised)
            rec.nontrivial(SERVER.changes > 0)
            rec.label(how)
            if how == 'gone':
                hg = mysql_hg('x')
            agree(hg, model, vs, case['edges'], what='after %r that failed (%s): ' % (op, how))
            agree(mysql_hg('x'), model, vs, case['edges'], what='another handle, after %r that failed (%s): ' % (op, how))
            apply_real(hg, case['after'])
            model.apply(case['after'])
            agree(hg, model, vs, case['edges'], what='after %r that failed, and %r: ' % (op, case['after']))
            agree(mysql_hg('x'), model, vs, case['edges'], what='another handle, after %r that failed, and %r: ' % (op, case['after']))
        finally:
            SERVER.stop()


def opening(case, rec):
    """A statement fails while a handle is made: there is none, or one that works."""
    import _mysql_exceptions as my
    layout, how, where, edges = case
    with scratch_dir() as d:
        SERVER.reset(d)
        try:
            model = Model()
            first = SERVER.statements
            hg = mysql_hg('twin')
            total = SERVER.statements - first
            if layout != 'none':
                hg = mysql_hg('x')
                for e in edges:
                    hg.add([e], 3)
                    model.add(e, 3)
                for c in {'new': [], 'old': ['timestamp'], 'older': ['timestamp', 'degree']}[layout]:
                    try:
                        hg.backend.conn.db.execute('ALTER TABLE vertices DROP COLUMN %s' % c)
                    except Exception:
                        rec.label('another layout')
            SERVER.statements, SERVER.fail_at, SERVER.fail_how = 0, 1 + where % max(total, 1), how
            what = 'a handle (%s) made with trouble (%s at statement %s)' % (layout, how, SERVER.fail_at)
            hg = None
            try:
                hg = mysql_hg('x')
            except my.Error:
                rec.nontrivial()
            SERVER.fail_at = None
            if hg is None:
                what += ', and again'
                hg = mysql_hg('x')
            try:
                if layout in ('none', 'new'):
                    vs = vertices_of({'atoms': ['a'], 'edges': edges})
                    agree(hg, model, vs, edges, what=what + ': ')
                    hg.add(edges, 4)
                    model.apply(('addn', edges, 4))
                    agree(hg, model, vs, edges, what=what + ', with edges: ')
                else:
                    same_edges(hg.pattern2edges((None,) * len(edges[0])), [e for e in edges if len(e) == len(edges[0])], what + ': edges')
                    hg.add(('brand/1', 'new/1'), 17)
                    expect(hg.exists(('brand/1', 'new/1')) and hg.timestamp(('brand/1', 'new/1')) == 17, '%s: an edge can not be added', what)
            except my.Error as exc:
                expect(False, '%s: it does not work: %r', what, exc)
            rec.label(layout, how)
        finally:
            SERVER.stop()


def batches(case, rec):
    """Within a batch, this handle sees what was written and others see what was there before."""
    with scratch_dir() as d:
        SERVER.reset(d)
        try:
            hg, other = mysql_hg(), mysql_hg()
            model = Model()
            vs = vertices_of(case)
            for op in case['before']:
                apply_real(hg, op)
                model.apply(op)
            pre = model.copy()

            def step(o):
                def f(h):
                    apply_real(h, o)
                    model.apply(o)
                    agree(h, model, vs, case['edges'], what='in the batch, after %r: ' % (o,))
                    agree(other, pre, vs, case['edges'], what='another handle during the batch: ')
                return f
            ops = case['op'][1] if case['op'][0] == 'batch' else [case['op']] if case['op'][0] not in ('believe', 'destroy') else [case['after']]
            hg.batch_exec([step(o) for o in ops])
            agree(other, model, vs, case['edges'], what='another handle after the batch: ')
            rec.nontrivial(model.state() != pre.state())
        finally:
            SERVER.stop()


PROPS = [
    Prop('history', fitting(histories()), run, 700, 12000),
    Prop('failing', fitting(failures()), failing, 1200, 20000),
    Prop('opening', st.tuples(st.sampled_from(['none', 'new', 'old', 'older']), st.sampled_from(['error', 'gone']), st.integers(0, 12),
                              st.lists(gen.edges(5, atom=st.sampled_from(['a', 'b/1', 'is/1', 7]), max_size=3), min_size=1, max_size=3, unique_by=canon)), opening, 300, 3000),
    Prop('batches', fitting(failures()), batches, 400, 6000),
]
