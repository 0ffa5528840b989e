"""The state of the store depends on the set of edges, not on how it was reached."""
from hypothesis import strategies as st

import again
import gen
from model import Model, agree, all_edges, apply_real, canon, close, is_collection, observe, sqlite_hg, text, vertices_of
from vf import Prop, expect

RULE = ('Cases are sets of edges written in two ways: in two orders, one by one or all at once, twice, with other edges added '
        'and removed in between, in a batch; all answers (membership, patterns, stars, degrees) of the two stores are compared. '
        'Non-trivial: three or more edges that share an element.')
ASSUMPTIONS = ['timestamps are only compared between calls that are given the same ones in the same order']


@st.composite
def cases(draw):
    pool, eds = draw(gen.edge_pool(min_size=2, max_size=8, max_arity=4))
    order = draw(st.permutations(range(len(eds))))
    k = draw(st.integers(1, len(eds)))
    return {'atoms': pool, 'edges': eds, 'order': list(order), 'keep': k,
            'how': draw(st.lists(st.sampled_from(['one', 'one', 'twice', 'batch', 'group', 'detour']), min_size=len(eds), max_size=len(eds)))}


def answers(hg, case, patterns):
    return {k: v for k, v in observe(hg, vertices_of(case), case['edges'], patterns).items() if k[0] != 'timestamp'}


def compare(a, b, what):
    for k in a:
        expect(a[k] == b[k], '%s: %s of %r is %r or %r', what, k[0], k[1], a[k], b[k])


def masks(e):
    return [tuple(None if i == j else x for j, x in enumerate(e)) for i in range(len(e))]


def shared(eds):
    return len(eds) > 2 and any(sum(1 for e in eds if x in e) > 1 for e in eds for x in e)


def orders(case, rec):
    eds = case['edges']
    pats = [m for e in eds[:3] for m in masks(e)] + [(None,) * n for n in (2, 3, 4)]
    h1, h2 = sqlite_hg(), sqlite_hg()
    try:
        h1.add(list(eds))
        pending = []
        extra = eds[0] + ('extra/1',)
        for i in case['order']:
            e = eds[i]
            how = case['how'][i]
            if how == 'group':
                pending.append(e)
                continue
            if how == 'batch':
                h2.batch_exec([lambda h: apply_real(h, ('add', e, -1)), lambda h: h.exists(e)])
            else:
                apply_real(h2, ('add', e, -1))
            if how == 'twice':
                apply_real(h2, ('add', e, -1))
            if how == 'detour':
                apply_real(h2, ('remove', e))
                apply_real(h2, ('add', extra, -1))
                apply_real(h2, ('add', e, -1))
                apply_real(h2, ('remove', extra))
        if pending:
            h2.add(pending)
        compare(answers(h1, case, pats), answers(h2, case, pats), 'the same edges in another order')
        # removing all but some of them is the same as adding only some of them
        gone = [eds[i] for i in case['order'][case['keep']:]]
        left = [eds[i] for i in case['order'][:case['keep']]]
        for e in gone:
            apply_real(h1, ('remove', e))
        if gone:
            h2.remove(list(reversed(gone)))
        h3 = sqlite_hg()
        try:
            h3.add(left)
            a3 = answers(h3, case, pats)
            compare(answers(h1, case, pats), a3, 'after removing edges')
            compare(answers(h2, case, pats), a3, 'after removing edges at once')
        finally:
            close(h3)
        rec.nontrivial(shared(eds))
    finally:
        close(h1)
        close(h2)


def at_once(case, rec):
    """Several edges at once, or one by one."""
    h1, h2 = sqlite_hg(), sqlite_hg()
    try:
        ops = case['ops']
        for op in ops:
            apply_real(h1, op)
            if op[0] in ('addn', 'removen'):
                for e in op[1]:
                    apply_real(h2, ('add', e, op[2]) if op[0] == 'addn' else ('remove', e))
            else:
                apply_real(h2, op)
        vs = vertices_of(case)
        o1, o2 = observe(h1, vs, case['edges']), observe(h2, vs, case['edges'])
        compare(o1, o2, 'several at once and one by one')
        rec.nontrivial(any(op[0] in ('addn', 'removen') and len(op[1]) > 1 for op in ops))
    finally:
        close(h1)
        close(h2)


PROPS = [
    Prop('orders', cases(), orders, 1500, 30000),
    Prop('at_once', gen.history(max_ops=8, ops=gen.simple_ops, max_arity=4), at_once, 1200, 20000),
    again.prop('all', 300, 6000),
]
