"""Calls return what was asked and leave their arguments alone."""
import copy

from hypothesis import strategies as st

import gen
from model import Model, agree, apply_real, canon, close, same_edges, sqlite_hg, vertices_of
from vf import Prop, expect

RULE = ('Cases are edges and collections given as tuples, lists or a mix of them; arguments are compared to copies made before '
        'the call, results are changed by the caller, and the store is compared to the model. Non-trivial: something is a list.')
ASSUMPTIONS = ['elements of edges may be tuples or lists']


def tolist(x, bits, depth=0):
    if not isinstance(x, tuple):
        return x
    elems = [tolist(e, bits >> (i + 1), depth + 1) for i, e in enumerate(x)]
    return elems if bits & 1 else tuple(elems)


@st.composite
def cases(draw):
    c = draw(gen.history(max_ops=6, max_arity=4, max_edges=5))
    c['bits'] = draw(st.integers(0, 1023))
    c['pattern'] = draw(gen.patterns(c['atoms'], c['edges']))
    if draw(st.integers(0, 3)) == 0:
        c['ops'] = c['ops'] + [('rmpat', draw(gen.patterns(c['atoms'], c['edges'])))]
    return c


def untouched(arg, kept, what):
    expect(repr(arg) == repr(kept), '%s changed its argument from %r to %r', what, kept, arg)


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        bits = case['bits']
        for i, op in enumerate(case['ops']):
            b = bits >> (i % 5)
            if op[0] in ('add', 'remove'):
                e = tolist(op[1], b)
                arg = [e] if isinstance(op[1][0], tuple) else e
                kept = copy.deepcopy(arg)
                if op[0] == 'add':
                    res = hg.add(arg, op[2])
                    expect(canon(res) == canon(kept), 'add(%r) returns %r', kept, res)
                else:
                    hg.remove(arg)
                untouched(arg, kept, op[0])
                # the store does not keep a reference to what the caller may change
                if isinstance(arg, list):
                    arg.append('changed/1')
                    rec.nontrivial()
            elif op[0] in ('addn', 'removen'):
                arg = [tolist(e, b >> j) for j, e in enumerate(op[1])]
                if b & 2:
                    arg = tuple(arg)
                kept = copy.deepcopy(arg)
                if op[0] == 'addn':
                    res = hg.add(arg, op[2])
                    expect(canon(res) == canon(kept), 'add(%r) returns %r', kept, res)
                else:
                    hg.remove(arg)
                untouched(arg, kept, op[0])
                rec.nontrivial(repr(arg) != repr(op[1]))
            elif op[0] == 'rmpat':
                arg = tolist(op[1], b | 1)
                kept = copy.deepcopy(arg)
                hg.remove_by_pattern(arg)
                untouched(arg, kept, 'remove_by_pattern')
                scramble(arg)
                rec.nontrivial()
            else:
                apply_real(hg, op)
            model.apply(op)
        vs = vertices_of(case)
        agree(hg, model, vs, case['edges'])
        # queries
        p = tolist(case['pattern'], bits)
        kept = copy.deepcopy(p)
        res = hg.pattern2edges(p)
        same_edges(res, model.pattern(case['pattern']), 'pattern2edges(%r)' % (p,))
        untouched(p, kept, 'pattern2edges')
        for e in case['edges']:
            arg = tolist(e, bits | 1)
            kept = copy.deepcopy(arg)
            expect(hg.exists(arg) is model.has(e), 'exists(%r) is %r', arg, hg.exists(arg))
            expect(hg.degree(arg) == model.degree(e), 'degree(%r) is %r', arg, hg.degree(arg))
            same_edges(hg.star(arg), model.star(e), 'star(%r)' % (arg,))
            untouched(arg, kept, 'a query')
        # results belong to the caller
        res.clear()
        res.add('rubbish')
        for v in vs[:3]:
            hg.star(v).add('rubbish')
            hg.symbols_with_root('a').add('rubbish')
        agree(hg, model, vs, case['edges'], [case['pattern']], what='after results were changed: ')
        args = [lambda h: None, lambda h: h.exists(case['edges'][0])]
        kept = list(args)
        hg.batch_exec(args)
        expect(args == kept, 'batch_exec changed its argument')
    finally:
        close(hg)


def scramble(x):
    """The caller changes what it has given, at every level."""
    if isinstance(x, (list, tuple)):
        for e in x:
            scramble(e)
    if isinstance(x, list):
        x.reverse()
        x.append('changed/1')


@st.composite
def belief_cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=5, max_arity=4))
    op = gen.pick(gen.compound_ops(pool, eds), gen.compound_ops(pool, eds), gen.add_op(eds))
    return {'atoms': pool, 'edges': gen.linked(pool, eds), 'ops': draw(st.lists(op, min_size=1, max_size=5)), 'bits': draw(st.integers(0, 4095)),
            'size': draw(st.sampled_from([0, 1, 3, 100])), 'bad': draw(st.sampled_from(['mary/1', ('mary/1', 'smith/1'), 7]))}


def beliefs(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        source = case['bad']
        for i, op in enumerate(case['ops']):
            b = case['bits'] >> (i % 6)
            if op[0] == 'believe':
                one = len(op[2]) == 1 and not isinstance(op[2][0][0], tuple)
                arg = tolist(op[2][0], b | 1) if one else [tolist(e, b >> j) for j, e in enumerate(op[2])]
                src = tolist(source, b)
                kept = copy.deepcopy((src, arg))
                hg.add_belief(src, arg, op[3])
                untouched((src, arg), kept, 'add_belief')
                scramble((src, arg))
                model.apply(('believe', source, op[2], op[3]))
                rec.nontrivial()
            elif op[0] == 'doubt':
                src, arg = tolist(source, b), tolist(op[2], b | 1)
                kept = copy.deepcopy((src, arg))
                hg.remove_belief(src, arg)
                untouched((src, arg), kept, 'remove_belief')
                scramble((src, arg))
                model.apply(('doubt', source, op[2]))
            else:
                apply_real(hg, op)
                model.apply(op)
        links = [('src/1', e, source) for e in case['edges']]
        vs = vertices_of(case) + links + [source]
        agree(hg, model, vs, case['edges'] + links)
        for e in case['edges']:
            arg = tolist(e, case['bits'] | 1)
            kept = copy.deepcopy(arg)
            got = hg.sources(arg)
            want = [x[2] for x in model.pattern(('src/1', e, None))]
            expect(isinstance(got, (set, frozenset)) and sorted(map(repr, map(canon, got))) == sorted(map(repr, map(canon, want))), 'sources(%r) is %r, expected %r', arg, got, want)
            if isinstance(got, set):
                got.add('rubbish')
            ego = hg.ego(arg, 1)
            same_edges(ego, model.star(e), 'ego(%r, 1)' % (arg,))
            if isinstance(ego, set):
                ego.add(('rubbish', 'rubbish'))
            untouched(arg, kept, 'sources or ego')
        for v in list(hg.f_all(lambda vm: vm)):
            v.clear()
        agree(hg, model, vs, case['edges'] + links, what='after arguments and results were changed: ')
    finally:
        close(hg)


def buffered(case, rec):
    """What waits in a buffer is what was given, whatever the caller does with it later."""
    from gb.hypergraph.batch_hypergraph import BatchHyperGraph
    hg = sqlite_hg()
    try:
        model = Model()
        bhg = BatchHyperGraph(hg, case['size'])
        for i, op in enumerate(case['ops']):
            b = case['bits'] >> (i % 6)
            if op[0] in ('add', 'addn'):
                edges = [op[1]] if op[0] == 'add' else op[1]
                ts = op[2]
                if op[0] == 'add' and not isinstance(op[1][0], tuple):
                    arg = tolist(op[1], b | 1)
                else:
                    arg = [tolist(e, b >> j) for j, e in enumerate(edges)]
                kept = copy.deepcopy(arg)
                bhg.add(arg, ts) if ts != -1 else bhg.add(arg)
                untouched(arg, kept, 'add of a buffering hypergraph')
                scramble(arg)
                model.apply(('addn', edges, ts))
                rec.nontrivial(isinstance(arg, list))
            elif op[0] == 'believe':
                arg = [tolist(e, b >> j) for j, e in enumerate(op[2])]
                kept = copy.deepcopy(arg)
                bhg.add_belief(op[1], arg, op[3])
                untouched(arg, kept, 'add_belief of a buffering hypergraph')
                scramble(arg)
                model.apply(op)
        bhg.flush()
        agree(hg, model, vertices_of(case), case['edges'], what='after a buffer was written: ')
    finally:
        close(hg)


PROPS = [
    Prop('arguments', cases(), run, 1600, 25000),
    Prop('beliefs', belief_cases(), beliefs, 500, 8000),
    Prop('buffered', belief_cases(), buffered, 500, 8000),
]
