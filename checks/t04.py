"""What was written is there when the store is opened again, by this or by another process."""
import os

from hypothesis import strategies as st

import faults
import gen
from model import Model, agree, all_edges, apply_real, close, same_edges, sqlite_hg, vertices_of
from vf import Prop, expect, scratch_dir

RULE = ('Cases are histories on a store in a file, cut by reopenings: the handle is closed, dropped without closing, or the '
        'operations run in another process that ends without closing anything. Non-trivial: there are writes before and after a '
        'reopening.')
ASSUMPTIONS = ['the file is on a local file system']


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=6, max_arity=4))
    seg = st.tuples(st.sampled_from(['close', 'drop', 'process', 'process', 'kept']), st.lists(gen.all_ops(pool, eds), min_size=1, max_size=4))
    return {'atoms': pool, 'edges': eds, 'segments': draw(st.lists(seg, min_size=1, max_size=4)),
            'patterns': draw(st.lists(gen.patterns(pool, eds), max_size=3)), 'cwd': draw(st.booleans())}


def run(case, rec):
    with scratch_dir() as d:
        path = os.path.join(d, draw_name(case))
        model = Model()
        kept = []
        vs = vertices_of(case)
        try:
            for how, ops in case['segments']:
                if how == 'process':
                    def child():
                        h = sqlite_hg(path)
                        for op in ops:
                            apply_real(h, op)
                        os._exit(5)
                    code = faults.in_child(child)
                    expect(code == 5, 'operations in another process fail (%s)', code)
                    for op in ops:
                        model.apply(op)
                else:
                    hg = sqlite_hg(path)
                    for op in ops:
                        apply_real(hg, op)
                        model.apply(op)
                    if how == 'close':
                        close(hg)
                    elif how == 'kept':
                        kept.append(hg)
                    else:
                        del hg
                fresh = sqlite_hg(path)
                try:
                    agree(fresh, model, vs, case['edges'], case['patterns'], what='opened again (%s): ' % how)
                    same_edges(all_edges(fresh), model.edges.values(), 'stored edges, opened again (%s)' % how)
                finally:
                    close(fresh)
                rec.label(how)
            rec.nontrivial(len(case['segments']) > 1 and len(model.edges) > 0)
        finally:
            for hg in kept:
                close(hg)


def draw_name(case):
    return ['x.db', 'a name with spaces.db', 'caf\u00e9', 'noext', "quote'.db", 'x%20y.db', 'file:x.db'][len(case['atoms']) % 7]


def fork_read(case, rec):
    """A process reads what another one wrote, written with a belief and a batch buffer too."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        edges = case['edges']

        def child():
            from gb.hypergraph.batch_hypergraph import BatchHyperGraph
            h = sqlite_hg(path)
            for e in edges[::2]:
                h.add_belief('mary/1', [e])
            b = BatchHyperGraph(h)
            for e in edges[1::2]:
                b.add([e])
            b.flush()
            os._exit(5)
        code = faults.in_child(child)
        expect(code == 5, 'operations in another process fail (%s)', code)
        hg = sqlite_hg(path)
        try:
            want = set(edges) | set(('src/1', e, 'mary/1') for e in edges[::2])
            same_edges(all_edges(hg), want, 'edges written by another process')
        finally:
            close(hg)
        rec.nontrivial(len(edges) > 1)


def large(case, rec):
    n, chunk = case
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        edges = [('r/1', 'n%s' % i, i) for i in range(n)]
        for a in range(0, n, chunk):
            hg = sqlite_hg(path)
            hg.add(edges[a:a + chunk], a)
            if a % 2:
                close(hg)
            del hg
        hg = sqlite_hg(path)
        try:
            same_edges(hg.pattern2edges((None, None, None)), edges, 'edges after %s openings' % (n // chunk))
            for i, e in enumerate(edges):
                expect(hg.timestamp(e) == i // chunk * chunk and hg.degree('n%s' % i) == 1, 'timestamp(%r) is %r, the degree of %r is %r', e, hg.timestamp(e), e[1], hg.degree(e[1]))
            rec.nontrivial()
        finally:
            close(hg)


PROPS = [
    Prop('large', st.tuples(st.integers(10, 200), st.integers(5, 60)), large, 24, 120, examples=[(1300, 650)]),
    Prop('reopen', cases(), run, 700, 12000),
    Prop('processes', gen.history(max_ops=1, max_arity=4), fork_read, 200, 4000),
]
