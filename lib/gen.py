"""Generators of symbols, edges and histories. All the values they produce are
Python literals, so that a case can be written to a file and read back.

Domain (see DESIGN.md): an edge is a tuple of two or more elements, each one a
symbol, an integer, a finite float or another edge. A symbol is a non-empty
string without white space or control characters, with balanced parentheses
that does not start with one, and that is not a decimal numeral.
"""
import math
import re

from hypothesis import strategies as st

NUMERAL = re.compile(r'-?([0-9]+|[0-9]*\.[0-9]*)(e[+-]?[0-9]+)?\Z')


@st.composite
def pick(draw, *strategies):
    """One of the strategies, all equally likely (one_of() flattens the ones that are unions themselves)."""
    return draw(strategies[draw(st.integers(0, len(strategies) - 1))])


def balanced(s):
    depth = 0
    for c in s:
        if c == '(':
            depth += 1
        elif c == ')':
            depth -= 1
            if depth < 0:
                return False
    return depth == 0


def valid_symbol(s):
    return (len(s) > 0 and not s.startswith('(') and balanced(s) and s.split() == [s]
            and not (NUMERAL.match(s) and any('0' <= c <= '9' for c in s))
            and s[-1] not in '\ud7ff\U0010ffff' and not any(ord(c) < 32 or 0x7f <= ord(c) < 0xa0 for c in s))


# Families of symbols that are prefixes of each other, that sort next to each other, that
# differ in case or in accents, that are special in SQL (LIKE, quotes, comments, format
# strings) or that look like something else (numbers, wildcards, permutation numbers).
FAMILIES = [
    ['a', 'ab', 'a/1', 'a/12', 'a/1/2', 'a/', 'a!', "a'", 'a"', 'a%', 'a_', 'A', 'A/1', '~a', '~a/1', 'a0', 'a.', 'a-'],
    ['graphbrain/1', 'graphbrain/2', 'graphbrain', 'graphbrain/12', 'graphbrains/1', 'is', 'is/1', 'is_a', 'great/1',
     '+graphbrain/1', 'Graphbrain/1', 'graph_brain/1', 'graph%brain/1'],
    ['size', 'src/1', 'src', 'mary/1', 'pos/1', 'wordnet/gb', 'src/12', 'type_of/1'],
    ['%', '%%', '_', '?', '%s', '%%s', 'a%%b', '??', "'", '"', "''", ';', '--', "';DROP", '`', '\\', '\\n', '*', '%d', ':1', '@x', '#', '{}'],
    ['-', '.', '-.', '..', '--1', '1.2.3', '1-2', 'e', '1e5x', '0x1f', 'nan', 'inf', '-inf', '1/2', '1,5', '+1', '3d',
     '10%', '1_000', '\u0661\u0662', '\u00b2', 'None', 'True', '1e', 'e5', '-e+5', '1.5/1', '1990s/1'],
    ['http://example.com', 'http://example.com/a', 'http://example.com/a_(b)', 'https://e.org/?q=1&r=%20',
     'http://example.com/', 'https://e.org/~me/', 'f(x)', 'f(x)(y)', 'x(()())', 'a()', 'http://x/(a)/b', 'http', 'http:'],
    ['\u00e9', 'e\u0301', '\u00c9', 'caf\u00e9/1', 'cafe/1', '\u00df', 'ss', '\u4e2d\u6587', '\u4e2d\u6587/1',
     '\U0001f9e0', '\U0001f9e0/1', '\u0430', '\u200b', '\ufb01', 'fi', '\u0130', 'i\u0307'],
    ['x' * 40, 'x' * 41, 'x' * 40 + '/1', 'long' * 60 + '/1', 'long' * 60 + '/2'],
]
FAMILIES = [[s for s in f if valid_symbol(s)] for f in FAMILIES]
ALL_SYMBOLS = [s for f in FAMILIES for s in f]

_chars = st.characters(exclude_categories=('Cs', 'Cc', 'Zs', 'Zl', 'Zp'))
_easy = st.sampled_from('abcABC019_-.~+/!%\'"')


def fresh_symbols(max_size=12):
    return st.one_of(
        st.text(_easy, min_size=1, max_size=max_size),
        st.text(_chars, min_size=1, max_size=max_size),
        st.tuples(st.text('ab-/', min_size=1, max_size=4), st.sampled_from(['(b)', '()', '(a)(b)', '((a)b)', '(/1)']),
                  st.text('ab/', max_size=3)).map(''.join),
    ).filter(valid_symbol)


def symbols():
    return pick(st.sampled_from(ALL_SYMBOLS), st.sampled_from(ALL_SYMBOLS), fresh_symbols())


def ints():
    return st.one_of(st.integers(-3, 12), st.integers(0, 130), st.sampled_from([10 ** 6, -10 ** 6, 2 ** 31, 2 ** 63, -2 ** 63, 2 ** 64 + 1]),
                     st.integers(-10 ** 30, 10 ** 30))


SOME_FLOATS = [0.5, 1.5, -0.5, 0.1, -7.25, 1e-05, 1e-07, 2.5e-300, 123456.789, 0.30000000000000004, 1.7976931348623157e+308,
               5e-324, 1e+16, 1e+20, -1e+100, 3.0, 7.0, 100.0, 0.0, 12345678901234.5]


def ok_float(x):
    return math.isfinite(x) and not (x == 0 and math.copysign(1, x) < 0)


def floats():
    return st.one_of(st.sampled_from(SOME_FLOATS),
                     st.floats(allow_nan=False, allow_infinity=False).filter(ok_float))


def atoms():
    return pick(symbols(), symbols(), symbols(), ints(), floats())


# Mostly small edges: each edge is stored once for each permutation of its elements.
ARITY = st.sampled_from([2, 2, 3, 3, 3, 3, 4, 4, 5])


def edges(max_leaves=10, atom=None, min_size=2, max_size=5):
    atom = atom if atom is not None else atoms()
    return st.recursive(
        st.lists(atom, min_size=min_size, max_size=max_size).map(tuple),
        lambda inner: st.lists(st.one_of(atom, inner), min_size=min_size, max_size=max_size).map(tuple),
        max_leaves=max_leaves)


def leaves(edge):
    for e in edge:
        if isinstance(e, (list, tuple)):
            yield from leaves(e)
        else:
            yield e


def depth(edge):
    return 1 + max((depth(e) for e in edge if isinstance(e, (list, tuple))), default=0)


@st.composite
def atom_pool(draw, min_size=2, max_size=7):
    """Atoms of one store. Two numbers of a pool never compare equal without being the same."""
    fams = draw(st.lists(st.sampled_from(FAMILIES), min_size=1, max_size=2))
    related = [s for f in fams for s in f]
    pool = draw(st.lists(pick(st.sampled_from(related), st.sampled_from(related), st.sampled_from(related),
                               symbols(), ints(), floats()),
                         min_size=min_size, max_size=max_size, unique_by=lambda x: x))
    return pool


@st.composite
def webs(draw, pool, n, max_arity):
    """Edges of few relationships that are mostly elements of each other, several times over."""
    rels, few = pool[:2], pool[:3]
    res = []
    for _ in range(n):
        k = min(max_arity, draw(st.sampled_from([2, 3, 3, 3])))
        rel = draw(st.sampled_from(rels))
        elems = [draw(st.sampled_from(res if res and draw(st.integers(0, 2)) else few)) for _ in range(k - 1)]
        e = (rel,) + tuple(elems)
        if len(str(e)) < 900 and depth(e) <= 4 and e not in res:
            res.append(e)
    return res


@st.composite
def edge_pool(draw, min_size=2, max_size=7, max_arity=5, atoms_max=7, nest=True):
    """(atoms, edges) of one store: edges share elements, contain each other, are permutations,
    prefixes and repetitions of each other."""
    pool = draw(atom_pool(2, atoms_max))
    n = draw(st.integers(min_size, max_size))
    if nest and draw(st.integers(0, 5)) == 0:
        return pool, draw(webs(pool, max(n, 3), max_arity))
    res = []
    for _ in range(n):
        kind = draw(st.integers(0, 9)) if res else 9
        if kind == 0:       # other order
            e = tuple(draw(st.permutations(draw(st.sampled_from(res)))))
        elif kind == 1:     # one element replaced
            e = list(draw(st.sampled_from(res)))
            e[draw(st.integers(0, len(e) - 1))] = draw(st.sampled_from(pool))
            e = tuple(e)
        elif kind == 2:     # longer
            e = draw(st.sampled_from(res))
            e = (e + (draw(st.sampled_from(pool)),))[:max_arity]
        elif kind == 3:     # shorter
            e = draw(st.sampled_from(res))
            e = e[:-1] if len(e) > 2 else e + e[:1]
        else:
            k = min(max_arity, draw(ARITY))
            elem = st.sampled_from(pool + res) if (nest and res and kind >= 7) else st.sampled_from(pool)
            e = tuple(draw(st.lists(elem, min_size=k, max_size=k)))
        if len(e) >= 2 and len(str(e)) < 900 and depth(e) <= 4:
            if e not in res:
                res.append(e)
    if not res:
        res.append((pool[0], pool[1]))
    return pool, res


TIMESTAMPS = st.one_of(st.sampled_from([-1, 0, 1, 2, 1000]), st.integers(-5, 10 ** 12), st.sampled_from([2 ** 31, 2 ** 62, 1479600000]))


def pattern_of(draw, edge, pool, allow_all=True):
    """A pattern made from an edge: some elements become wildcards, perhaps one other is changed."""
    p = [None if draw(st.booleans()) else e for e in edge]
    if draw(st.integers(0, 5)) == 0:
        p[draw(st.integers(0, len(p) - 1))] = draw(st.sampled_from(pool))
    if not allow_all and all(x is None for x in p):
        p[0] = edge[0]
    return tuple(p)


@st.composite
def patterns(draw, pool, eds):
    if eds and draw(st.integers(0, 3)) > 0:
        return pattern_of(draw, draw(st.sampled_from(eds)), pool)
    n = draw(st.integers(2, 5))
    return tuple(draw(st.lists(st.one_of(st.none(), st.sampled_from(list(pool) + list(eds))), min_size=n, max_size=n)))


def add_op(eds):
    return st.tuples(st.just('add'), st.sampled_from(eds), TIMESTAMPS)


def simple_ops(pool, eds):
    """Operations that change a store; every one is a tuple of literals."""
    return st.one_of(
        add_op(eds), add_op(eds), add_op(eds),
        st.tuples(st.just('remove'), st.sampled_from(eds)),
        st.tuples(st.just('addn'), st.lists(st.sampled_from(eds), min_size=1, max_size=5), TIMESTAMPS),
        st.tuples(st.just('removen'), st.lists(st.sampled_from(eds), min_size=1, max_size=3)),
    )


def all_ops(pool, eds):
    simple = simple_ops(pool, eds)
    return pick(
        simple, simple, simple, simple, simple,
        st.tuples(st.just('rmpat'), patterns(pool, eds)),
        st.tuples(st.just('batch'), st.lists(simple, max_size=4)),
        st.sampled_from([('noop',), ('noop',), ('destroy',)]),
    )


SOURCES = ['mary/1', 'john/1']


def compound_ops(pool, eds):
    """Calls that consist of several writes."""
    return pick(
        st.tuples(st.just('addn'), st.lists(st.sampled_from(eds), min_size=2, max_size=5), TIMESTAMPS),
        st.tuples(st.just('removen'), st.lists(st.sampled_from(eds), min_size=2, max_size=3)),
        st.tuples(st.just('rmpat'), patterns(pool, eds)),
        st.tuples(st.just('believe'), st.sampled_from(SOURCES), st.lists(st.sampled_from(eds), min_size=1, max_size=3), TIMESTAMPS),
        st.tuples(st.just('doubt'), st.sampled_from(SOURCES), st.sampled_from(eds)),
        st.tuples(st.just('doubt'), st.sampled_from(SOURCES), st.sampled_from(eds)),
        st.tuples(st.just('flush'), st.lists(st.tuples(st.sampled_from(eds), TIMESTAMPS), min_size=1, max_size=4), TIMESTAMPS),
    )


@st.composite
def preparation(draw, pool, eds, max_ops=3):
    """Operations that give a store something to do for compound operations."""
    ops = draw(st.lists(simple_ops(pool, eds), max_size=max_ops))
    if draw(st.booleans()):
        ops.append(('addn', list(eds), 1))
    if draw(st.booleans()):
        ops.append(('believe', draw(st.sampled_from(SOURCES)), draw(st.lists(st.sampled_from(eds), min_size=1, max_size=2)), 2))
    return ops


BULK = ['addn', 'removen', 'rmpat', 'believe', 'flush', 'batch', 'destroy']


def bulk(kind, n):
    """A call that writes many edges: {'before': operations, 'op': the call, 'edges': ..., 'atoms': ...}."""
    eds = [('r/%s' % (i % 3), 'n%s' % (i % 13), i) for i in range(n)]
    eds[1::5] = [('is/1', e) for e in eds[::5]][:len(eds[1::5])]
    some = eds[:n // 3]
    before = [('addn', some + [('r/0', 'n1')], 1)] if some else []
    whole = [('addn', eds + [('r/0', 'n1')], 1)]
    op = {'addn': ('addn', eds, 5), 'removen': ('removen', eds), 'rmpat': ('rmpat', (None, None, None)), 'believe': ('believe', 'mary/1', eds, 5),
          'flush': ('flush', [(e, i // 7) for i, e in enumerate(eds)], 5), 'batch': ('batch', [('add', e, i) for i, e in enumerate(eds)]),
          'destroy': ('destroy',)}[kind]
    return {'before': whole if kind in ('removen', 'rmpat', 'destroy') else before, 'op': op, 'edges': [eds[0], eds[n // 2], eds[-1]], 'all': eds,
            'atoms': ['r/0', 'r/1', 'n1', 'n2', 0, n - 1, 'mary/1', 'src/1']}


def linked(pool, eds):
    """The edges that compound operations add to those of the pool."""
    return list(eds) + [('src/1', e, s) for e in eds for s in SOURCES]


@st.composite
def history(draw, max_ops=12, ops=all_ops, max_arity=5, max_edges=7, min_ops=1):
    pool, eds = draw(edge_pool(max_size=max_edges, max_arity=max_arity))
    return {'atoms': pool, 'edges': eds, 'ops': draw(st.lists(ops(pool, eds), min_size=min_ops, max_size=max_ops))}
