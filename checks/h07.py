"""Symbols with a given root."""
from hypothesis import strategies as st

import again
import gen
from model import Model, apply_real, canon, close, is_url, sqlite_hg
from vf import Prop, expect

RULE = ('Cases are stores whose symbols have related roots (prefixes, cases, accents, SQL special characters); for each root the '
        'answer is compared to a scan of the elements in the model. Non-trivial: some, but not all, of the stored symbols with a '
        'namespace have the root.')
ASSUMPTIONS = ['roots have no slashes and are not those of URLs; a root without a namespace is not one of its own symbols']


@st.composite
def cases(draw):
    roots = draw(st.lists(st.one_of(
        st.sampled_from(['a', 'ab', 'A', 'a_', 'a%', '%', '_', 'a.', 'a-', 'a0', "a'", '~a', '+a', 'graphbrain', 'great',
                         '\u00e9', 'e', '-', '1', '12', 'f(x)', 'x' * 60, 'http:', 'https', 'is_a', 'is a'.replace(' ', '_')]),
        gen.fresh_symbols(6).map(lambda s: s.replace('/', '.'))), min_size=2, max_size=5, unique=True))
    nss = st.one_of(st.sampled_from(['1', '2', '12', '', '1/2', 'gb', 'wn.dog.n.01', '?', '~']), st.text('abc01./', max_size=4))
    syms = draw(st.lists(st.tuples(st.sampled_from(roots), nss).map('/'.join), min_size=2, max_size=8, unique=True))
    syms = [s for s in syms if gen.valid_symbol(s) and not is_url(s)]
    bare = [r for r in roots if gen.valid_symbol(r) and not is_url(r)]
    pool = syms + bare + ['z/1', 5]
    eds = draw(st.lists(st.lists(st.one_of(st.sampled_from(pool), st.lists(st.sampled_from(pool), min_size=2, max_size=3).map(tuple)),
                                 min_size=2, max_size=4).map(tuple), min_size=1, max_size=6))
    ops = draw(st.one_of(st.just([('addn', eds, -1)]), st.lists(gen.simple_ops(pool, eds), min_size=1, max_size=8)))
    return {'roots': roots, 'edges': eds, 'ops': ops}


@st.composite
def repeated(draw):
    c = draw(cases())
    pool = sorted(set(x for e in c['edges'] for x in gen.leaves(e)), key=repr)
    return {'edges': c['edges'], 'before': c['ops'][:2] if c['ops'][0] != ('addn', c['edges'], -1) else [],
            'steps': draw(st.lists(st.tuples(st.just('call'), gen.pick(gen.simple_ops(pool, c['edges']), gen.all_ops(pool, c['edges']))), min_size=2, max_size=6)),
            'asked': [('root', r) for r in c['roots']]}


def run(case, rec):
    hg = sqlite_hg()
    try:
        model = Model()
        for op in case['ops']:
            apply_real(hg, op)
            model.apply(op)
        total = set(x for e in model.edges.values() for x in e if isinstance(x, str) and '/' in x)
        for r in case['roots'] + ['absent', 'z']:
            got = hg.symbols_with_root(r)
            want = model.symbols_with_root(r)
            expect(isinstance(got, set) and all(type(x) is str for x in got) and got == want,
                   'symbols_with_root(%r) is %r, expected %r', r, got, want)
            rec.nontrivial(0 < len(want) < len(total))
    finally:
        close(hg)


def large(n, rec):
    hg = sqlite_hg()
    try:
        hg.add([('r', 'root/%s' % i, 'roots/%s' % i) for i in range(n)])
        got = hg.symbols_with_root('root')
        expect(got == set('root/%s' % i for i in range(n)), '%s symbols with root, expected %s', len(got), n)
        rec.nontrivial()
    finally:
        close(hg)


PROPS = [
    Prop('history', cases(), run, 2500, 50000),
    Prop('large', st.integers(10, 100), large, 6, 30, examples=[1500]),
    Prop('again', repeated(), again.run, 600, 10000, again.RULE),
    again.huge_prop(('root',)),
]
