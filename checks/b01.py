"""Beliefs: a fact stays as long as a source supports it."""
import os

from hypothesis import strategies as st

import again
import gen
from model import Model, agree, apply_real, canon, close, is_collection, sqlite_hg, vertices_of
from vf import Prop, expect, scratch_dir

RULE = ('Cases are histories of beliefs (one or several facts in a call, from several sources, repeated), additions and removals; after each '
        'operation the sources of every fact and the whole store are compared to a model. Non-trivial: a belief was removed from a fact that '
        'had one, or a fact has two sources.')
ASSUMPTIONS = ['one fact whose first element is an edge is given to add_belief in a list; sources are symbols, numbers or edges',
               'a fact that is there without a source is removed when a belief in it is removed (no source supports it)']
SRC = 'src/1'


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(max_size=5, max_arity=4, atoms_max=5))
    facts = list(eds)
    # facts about facts, and facts that look like the edges of sources
    if draw(st.booleans()):
        facts.append((SRC, facts[0], pool[0]))
    if draw(st.booleans()):
        facts.append(('knows', pool[-1], facts[0]))
    facts = list(dict.fromkeys(facts))
    sources = draw(st.lists(st.one_of(st.sampled_from(pool), st.sampled_from(['mary/1', 'john/1', 'mary', SRC]), st.sampled_from(facts)),
                            min_size=1, max_size=3, unique_by=canon))
    fact, source = st.sampled_from(facts), st.sampled_from(sources)
    ts = gen.TIMESTAMPS
    op = gen.pick(
        st.tuples(st.just('believe'), source, fact, ts), st.tuples(st.just('believe'), source, fact, ts),
        st.tuples(st.just('believen'), source, st.lists(fact, min_size=1, max_size=4), ts),
        st.tuples(st.just('doubt'), source, fact), st.tuples(st.just('doubt'), source, fact),
        st.tuples(st.just('add'), fact, ts), st.tuples(st.just('remove'), fact),
    )
    op = gen.pick(op, op, op, op, op, st.tuples(st.just('batch'), st.lists(op, min_size=1, max_size=3)))
    return {'atoms': pool, 'edges': facts + [(SRC, f, s) for f in facts for s in sources], 'facts': facts, 'sources': sources,
            'ops': draw(st.lists(op, min_size=1, max_size=9)), 'lists': draw(st.booleans())}


def sources_of(model, fact):
    return [e[2] for e in model.edges.values()
            if len(e) == 3 and canon(e[0]) == canon(SRC) and canon(e[1]) == canon(fact)]


def model_op(model, op):
    name = op[0]
    if name == 'believe':
        model.add(op[2], op[3])
        model.add((SRC, op[2], op[1]), op[3])
    elif name == 'believen':
        for f in op[2]:
            model_op(model, ('believe', op[1], f, op[3]))
    elif name == 'doubt':
        model.remove((SRC, op[2], op[1]))
        if not sources_of(model, op[2]):
            model.remove(op[2])
    elif name == 'batch':
        for o in op[1]:
            model_op(model, o)
    else:
        model.apply(op)


def real_op(hg, op, lists=False):
    name = op[0]
    if name == 'believe':
        # a fact that starts with an edge can not be told apart from a collection of facts
        arg = [op[2]] if is_collection(op[2]) else list(op[2]) if lists else op[2]
        hg.add_belief(op[1], arg, op[3]) if op[3] != -1 else hg.add_belief(op[1], arg)
    elif name == 'believen':
        arg = tuple(op[2]) if lists else list(op[2])
        hg.add_belief(op[1], arg, op[3]) if op[3] != -1 else hg.add_belief(op[1], arg)
    elif name == 'doubt':
        hg.remove_belief(op[1], list(op[2]) if lists else op[2])
    elif name == 'batch':
        hg.batch_exec([lambda h, o=o: real_op(h, o, lists) for o in op[1]])
    else:
        apply_real(hg, op)


def check_sources(hg, model, facts, what):
    for f in facts:
        got = hg.sources(f)
        expect(isinstance(got, (set, frozenset)), '%s: sources(%r) is a %s', what, f, type(got))
        g, w = sorted(map(repr, map(canon, got))), sorted(set(map(repr, map(canon, sources_of(model, f)))))
        expect(g == w, '%s: sources(%r) is %r, expected %r', what, f, g, w)


def labels(model, op, rec):
    for o in op[1] if op[0] == 'batch' else [op]:
        if o[0] == 'doubt' and model.has((SRC, o[2], o[1])):
            rec.nontrivial()
            rec.label('the last source goes' if len(sources_of(model, o[2])) == 1 else 'one of several sources goes')
        if o[0] == 'doubt' and not model.has((SRC, o[2], o[1])):
            rec.label('not a source')


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        vs = vertices_of(case) + case['sources']
        for i, op in enumerate(case['ops']):
            labels(model, op, rec)
            real_op(hg, op, case['lists'])
            model_op(model, op)
            what = 'after step %s, %r' % (i, op)
            check_sources(hg, model, case['facts'], what)
            rec.nontrivial(any(len(sources_of(model, f)) > 1 for f in case['facts']))
            agree(hg, model, vs, case['edges'], what=what + ': ')
    finally:
        close(hg)


def at_once(case, rec):
    """Several beliefs in one call are the same as one by one."""
    a, b = sqlite_hg(), sqlite_hg()
    try:
        model = Model()
        vs = vertices_of(case) + case['sources']
        source, facts = case['sources'][0], case['facts']
        a.add_belief(source, facts, 7)
        for f in facts:
            b.add_belief(source, [f] if is_collection(f) else f, 7)
            model_op(model, ('believe', source, f, 7))
        agree(a, model, vs, case['edges'], what='at once: ')
        agree(b, model, vs, case['edges'], what='one by one: ')
        rec.nontrivial(len(facts) > 1)
    finally:
        close(a)
        close(b)


def whole(case, rec):
    """With a file, what one belief writes is seen by others after the call."""
    with scratch_dir() as d:
        path = os.path.join(d, 'x.db')
        hg, other = sqlite_hg(path), sqlite_hg(path)
        try:
            model = Model()
            for op in case['ops']:
                real_op(hg, op)
                model_op(model, op)
            check_sources(other, model, case['facts'], 'another handle')
            agree(other, model, vertices_of(case), case['edges'], what='another handle: ')
            rec.nontrivial(len(model.edges) > 1)
        finally:
            close(hg)
            close(other)


def many(case, rec):
    """A fact with many sources, a source of many facts."""
    n, drop = case
    hg = sqlite_hg()
    try:
        fact = ('is', 'a', 'b')
        names = ['s%s/1' % i for i in range(n)]
        for s in names:
            hg.add_belief(s, fact)
        expect(hg.sources(fact) == set(names), 'sources of a fact with %s of them: %s', n, len(hg.sources(fact)))
        for i, s in enumerate(names):
            expect(hg.exists(fact), 'the fact is gone with %s sources left', n - i)
            hg.remove_belief(s, fact)
            if i % drop == 0:
                expect(hg.sources(fact) == set(names[i + 1:]), 'sources of a fact with %s left: %s', n - i - 1, len(hg.sources(fact)))
        expect(not hg.exists(fact) and hg.degree(fact) == 0, 'the fact is there without a source')
        facts = [('is', 'n%s' % i, 'b') for i in range(n)]
        hg.add_belief('mary/1', facts, 3)
        hg.add_belief('john/1', facts[::2], 4)
        for i, f in enumerate(facts):
            hg.remove_belief('mary/1', f)
            expect(hg.exists(f) is (i % 2 == 0) and hg.sources(f) == ({'john/1'} if i % 2 == 0 else set()), 'fact %s of %s, after mary does not believe it: %r', i, n, hg.sources(f))
        rec.nontrivial(n > 20)
    finally:
        close(hg)


PROPS = [
    Prop('many', st.tuples(st.integers(2, 60), st.integers(1, 9)), many, 24, 150, examples=[(280, 30)]),
    Prop('history', cases(), run, 1300, 25000, examples=[
        {'atoms': ['a', 'b'], 'edges': [('is', 'a', 'b')], 'facts': [('is', 'a', 'b')], 'sources': ['mary/1', 'john/1'], 'lists': False,
         'ops': [('believe', 'mary/1', ('is', 'a', 'b'), -1), ('believe', 'john/1', ('is', 'a', 'b'), -1), ('doubt', 'mary/1', ('is', 'a', 'b')),
                 ('doubt', 'john/1', ('is', 'a', 'b'))]}]),
    Prop('at_once', cases(), at_once, 600, 8000),
    Prop('whole', cases(), whole, 300, 4000),
    again.prop(('sources', 'exists'), 500, 10000),
]
