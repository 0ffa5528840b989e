"""The same questions, asked of a handle again and again while the store changes: the
answers are those of the model each time, so that none is remembered from before."""
import os

from hypothesis import strategies as st

import gen
from model import Model, apply_real, canon, close, is_url, same_edges, sqlite_hg
from vf import Prop, expect, scratch_dir

RULE = ('one handle (or several) is asked the same questions again and again while the store changes; non-trivial: '
        'an answer changes.')
RULE_HUGE = 'symbols of up to 33000 characters that differ in few of them, and edges with long texts.'
ALL = ('exists', 'pattern', 'star', 'degree', 'timestamp', 'root', 'sources', 'ego', 'visit', 'intersect')


def roots(pool):
    res = [x.split('/')[0] for x in pool if isinstance(x, str) and '/' in x and not is_url(x)]
    return [r for r in dict.fromkeys(res) if r and not r.startswith('http')] + ['src', 'mary']


def question(kind, pool, eds):
    v = st.sampled_from(list(pool) + list(eds))
    return {
        'exists': st.tuples(st.just('exists'), st.sampled_from(eds)),
        'pattern': st.tuples(st.just('pattern'), gen.patterns(pool, eds)),
        'star': st.tuples(st.just('star'), v),
        'degree': st.tuples(st.just('degree'), v),
        'timestamp': st.tuples(st.just('timestamp'), v),
        'root': st.tuples(st.just('root'), st.sampled_from(roots(pool))),
        'sources': st.tuples(st.just('sources'), st.sampled_from(eds)),
        'ego': st.tuples(st.just('ego'), v, st.sampled_from([1, 1, 2])),
        'visit': st.just(('visit',)),
        'intersect': st.tuples(st.just('intersect'), st.lists(v, min_size=1, max_size=2)),
    }[kind]


@st.composite
def cases(draw, kinds, hows, ops=None, max_ops=5):
    pool, eds = draw(gen.edge_pool(max_size=5, max_arity=3, atoms_max=5))
    pool = pool + ['mary/1', 'src/1']
    every = gen.linked(pool, eds)
    op = ops(pool, eds) if ops else gen.pick(gen.all_ops(pool, eds), gen.simple_ops(pool, eds), gen.compound_ops(pool, eds), st.just(('destroy',)))
    asked = draw(st.lists(gen.pick(*[question(k, pool, draw(st.sampled_from([eds, every]))) for k in kinds]), min_size=2, max_size=6))
    steps = draw(st.lists(st.tuples(st.sampled_from(hows), op), min_size=1, max_size=max_ops))
    return {'atoms': pool, 'edges': eds, 'before': draw(gen.preparation(pool, eds)), 'steps': steps, 'asked': asked}


@st.composite
def huge(draw, kinds):
    """Symbols of up to thousands of characters, that differ in few of them; edges with long texts."""
    n = draw(st.sampled_from([50, 260, 1030, 4100, 4100, 33000]))
    cut = draw(st.integers(1, n - 1))
    base = 'x' * n
    pool = [base, base + 'y', base[1:], base[:cut] + 'z' + base[cut + 1:], base + '/1', base + '/2', 'http://example.com/' + base, 'a']
    pool = draw(st.lists(st.sampled_from(pool), min_size=3, max_size=5, unique=True))
    eds = [tuple(draw(st.lists(st.sampled_from(pool), min_size=2, max_size=3))) for _ in range(draw(st.integers(1, 3)))]
    eds.append(('is', draw(st.sampled_from(eds)), draw(st.sampled_from(pool))))
    if n < 2000:
        e = ('a', 'b')
        for i in range(n // 20):
            e = ('is', e, 'c%s' % i) if i % 2 else (e, 'c')
        eds += [e, ('is', e, 'c')]
    eds = list(dict.fromkeys(eds))
    asked = draw(st.lists(gen.pick(*[question(k, pool, eds) for k in kinds]), min_size=3, max_size=8))
    ops = st.tuples(st.just('call'), gen.simple_ops(pool, eds))
    return {'atoms': pool, 'edges': eds, 'before': [('addn', eds, 3)], 'steps': draw(st.lists(ops, min_size=1, max_size=3)), 'asked': asked}


def reach(model, center, depth):
    """Breadth-first: the edges around a center."""
    seen, layer, found = {canon(center)}, [center], {}
    for _ in range(depth):
        following = []
        for v in layer:
            for e in model.star(v):
                found[canon(e)] = e
                for x in e[1:]:
                    if canon(x) not in seen:
                        seen.add(canon(x))
                        following.append(x)
        layer = following
    return list(found.values())


def answer(model, q):
    """What the store should answer, in a form that can be compared; None if that is not specified."""
    kind = q[0]
    if kind == 'exists':
        return model.has(q[1])
    if kind == 'pattern':
        return model.pattern(q[1])
    if kind == 'star':
        return model.star(q[1])
    if kind == 'degree':
        return model.degree(q[1])
    if kind == 'timestamp':
        return model.timestamp(q[1])
    if kind == 'root':
        return model.symbols_with_root(q[1])
    if kind == 'sources':
        return [e[2] for e in model.pattern(('src/1', q[1], None))]
    if kind == 'ego':
        return reach(model, q[1], q[2])
    if kind == 'visit':
        count = model.recount()
        return dict((c, count.get(c, 0)) for c in list(model.edges) + list(count))
    return None


def ask(hg, model, q, what):
    kind, want = q[0], answer(model, q)
    what = '%s%s%r' % (what, kind, q[1:])
    if kind in ('exists', 'degree', 'timestamp'):
        got = getattr(hg, kind)(q[1])
        expect(want is None or got == want, '%s is %r, expected %r', what, got, want)
    elif kind == 'pattern':
        same_edges(hg.pattern2edges(q[1]), want, what)
    elif kind == 'star':
        same_edges(hg.star(q[1]), want, what)
    elif kind == 'ego':
        same_edges(hg.ego(q[1], q[2]), want, what)
    elif kind == 'root':
        got = hg.symbols_with_root(q[1])
        expect(got == want, '%s is %r, expected %r', what, got, want)
    elif kind == 'sources':
        got = hg.sources(q[1])
        expect(set(map(canon, got)) == set(map(canon, want)), '%s is %r, expected %r', what, got, want)
    elif kind == 'visit':
        got = {}
        for v, d in hg.f_all(lambda vm: (vm['vertex'], vm['degree'])):
            if d > 0 or canon(v) in want:
                got[canon(v)] = d
        expect(got == want, '%s is %r, expected %r', what, got, want)
    elif kind == 'intersect':
        import gb.hypergraph.queries as queries
        fresh = sqlite_hg()
        try:
            fresh.add(list(model.edges.values()) or [('nothing', 'here')])
            if sum(len(reach(model, s, 2)) for s in q[1]) < 12:
                got, new = queries.intersect(hg, list(q[1])), queries.intersect(fresh, list(q[1]))
                expect(set(map(canon, got)) == set(map(canon, new)), '%s is %r, and %r in a new store with the same edges', what, got, new)
        finally:
            close(fresh)


def ask_all(hg, model, case, what):
    for q in case['asked']:
        ask(hg, model, q, what)


class Problem(Exception):
    pass


def snapshot(model, case):
    res = []
    for q in case['asked']:
        a = answer(model, q)
        res.append(repr(sorted(map(repr, a))) if isinstance(a, (list, set, dict)) else repr(a))
    return res


def run(case, rec):
    """hows: 'call'; 'batch' (questions between the operations of a batch, and after it); 'failing' (the same, and the batch
    fails); 'other' (another handle writes); 'elsewhere' (another store is written to); 'nested' (a batch in a batch)."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg, other, apart = sqlite_hg(path), None, None
        try:
            model, far = Model(), Model()
            for op in case['before']:
                apply_real(hg, op)
                model.apply(op)
            ask_all(hg, model, case, 'at first: ')
            for i, (how, op) in enumerate(case['steps']):
                before = snapshot(model, case)
                what = 'step %s, %s %r: ' % (i, how, op)
                if how == 'call':
                    apply_real(hg, op)
                    model.apply(op)
                elif how in ('batch', 'nested'):
                    inner = [op] if op[0] != 'batch' else list(op[1])

                    def do(h, o):
                        apply_real(h, o)
                        model.apply(o)
                        ask_all(h, model, case, what + 'inside: ')
                        ask_all(hg, model, case, what + 'inside: ')
                    fs = [lambda h: ask_all(h, model, case, what + 'at the start: ')] + [lambda h, o=o: do(h, o) for o in inner]
                    if how == 'nested':
                        hg.batch_exec([lambda h: h.batch_exec(fs)] + [lambda h: ask_all(h, model, case, what + 'after the batch inside: ')])
                    else:
                        hg.batch_exec(fs)
                elif how == 'failing':
                    changed = model.copy()
                    changed.apply(op)

                    def fail(h):
                        ask_all(h, changed, case, what + 'inside: ')
                        raise Problem()
                    try:
                        hg.batch_exec([lambda h: apply_real(h, op), fail])
                        expect(False, '%sbatch_exec() hides the exception', what)
                    except Problem:
                        pass
                    rec.nontrivial(snapshot(changed, case) != before)
                elif how == 'other':
                    if other is None:
                        other = sqlite_hg(path)
                    apply_real(other, op)
                    model.apply(op)
                    ask_all(other, model, case, what + 'the handle that wrote: ')
                elif how == 'elsewhere':
                    if apart is None:
                        apart = sqlite_hg(os.path.join(d, 'y.db'))
                    apply_real(apart, op)
                    far.apply(op)
                    ask_all(apart, far, case, what + 'the store that was written to: ')
                    rec.nontrivial(snapshot(far, case) != before)
                ask_all(hg, model, case, what)
                ask_all(hg, model, case, what + 'asked again: ')
                if snapshot(model, case) != before:
                    rec.nontrivial()
                    rec.label('%s: %s changes the answers' % (how, op[0]))
        finally:
            for h in (hg, other, apart):
                if h is not None:
                    close(h)


def prop(kinds, quick, thorough, hows=('call',), ops=None):
    kinds = ALL if kinds == 'all' else kinds
    return Prop('again', cases(tuple(kinds), tuple(hows), ops), run, quick, thorough, RULE)


def huge_prop(kinds, quick=40, thorough=600):
    return Prop('huge', huge(tuple(kinds)), run, quick, thorough, RULE_HUGE)
