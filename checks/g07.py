"""Semantic trees keep their structure under their operations."""
import trees
from hypothesis import strategies as st
from vf import Prop, expect

RULE = ('Cases are trees of up to 14 words, with compounds, nodes of one element and repeated words, and sequences of operations on elements of it; after each one the whole tree is compared to nested lists. '
        'Non-trivial: three or more operations changed the tree (pairs of trees: they have the same words).')
ASSUMPTIONS = ['copies share leaves, which do not change; operations that enclose a leaf are not done on copies']

WORDS = [('a', 'DET', 'det'), ('go', 'VERB', 'ROOT'), ('to', 'ADP', 'prep'), ('gym', 'NOUN', 'pobj'), ('gym', 'NOUN', 'dobj'), ('gym', 'VERB', 'pobj'), ('very', 'ADV', 'advmod')]

# A tree of a case: a leaf is an index of WORDS, a node is (compound, kids)
TREES = st.recursive(st.integers(0, len(WORDS) - 1),
                     lambda kid: st.tuples(st.sampled_from([False, False, False, True]), st.lists(kid, min_size=1, max_size=4).map(tuple)), max_leaves=14)
NODES = TREES.map(lambda t: t if isinstance(t, tuple) else (False, (t,)))


class N:
    """Node of the model."""

    def __init__(self, kids, compound=False):
        self.kids = kids
        self.compound = compound


class L:
    def __init__(self, word):
        self.word = word


def token(w):
    from gb.nlp.nlp_token import Token
    t = Token(WORDS[w][0])
    t.pos, t.dep = WORDS[w][1:]
    t.lemma = WORDS[w][0]
    t.left_children, t.right_children = [], []
    return t


def build(t, tree):
    """(element, model)"""
    if isinstance(t, int):
        leaf = tree.create_leaf(token(t))
        return leaf, L(t)
    pairs = [build(k, tree) for k in t[1]]
    node = tree.create_node([e.id for e, _ in pairs])
    m = N([x for _, x in pairs])
    if t[0]:
        node.compound = True
        mark(m, True)
    return node, m


def mark(m, value):
    if isinstance(m, N):
        m.compound = value
        for k in m.kids:
            mark(k, value)


def show(m):
    return m.word if isinstance(m, L) else (m.compound, tuple(show(k) for k in m.kids))


def real(e):
    """The element as plain data. Its words are looked up in WORDS."""
    if e.is_leaf():
        return WORDS.index((e.token.word, e.token.pos, e.token.dep))
    return (bool(e.compound), tuple(real(k) for k in e.children()))


def terminal(m):
    return isinstance(m, L) or m.compound


def flatten(m):
    if isinstance(m, N):
        kids = []
        for k in m.kids:
            flatten(k)
            kids += [k] if terminal(k) else k.kids
        m.kids = kids


def redundant(m):
    """The model without nodes that have only a node in them."""
    if isinstance(m, L):
        return m
    m.kids = [redundant(k) for k in m.kids]
    return m.kids[0] if len(m.kids) == 1 and isinstance(m.kids[0], N) else m


def words(m):
    return [m.word] if isinstance(m, L) else [w for k in m.kids for w in words(k)]


def has(m, at, value, shallow):
    if isinstance(m, L):
        return WORDS[m.word][at] == value
    return any(has(k, at, value, False) for k in m.kids if not shallow or isinstance(k, L))


def text(m):
    if isinstance(m, L):
        return WORDS[m.word][0]
    parts = [text(k) for k in m.kids]
    return '_'.join(parts) if m.compound else '(%s)' % ' '.join(parts)


def equal(a, b):
    """Equality does not look at compounds."""
    if isinstance(a, L) or isinstance(b, L):
        return isinstance(a, L) and isinstance(b, L) and WORDS[a.word] == WORDS[b.word]
    return len(a.kids) == len(b.kids) and all(map(equal, a.kids, b.kids))


def observe(e, m, tree):
    """All that can be asked of an element."""
    what = text(m)
    expect(tree.get(e.id) is e, '%s is not found by its identifier', what)
    expect(real(e) == show(m), '%s is %r, expected %r', what, real(e), show(m))
    expect(str(e) == what, 'the text of %s is %r', what, str(e))
    leaf = isinstance(m, L)
    expect((e.is_leaf(), e.is_node()) == (leaf, not leaf), '%s: is_leaf() %r, is_node() %r', what, e.is_leaf(), e.is_node())
    expect(bool(e.is_compound()) is terminal(m), 'is_compound() of %s is %r', what, e.is_compound())
    expect(bool(e.is_terminal()) is terminal(m) and bool(e.is_not_terminal()) is not terminal(m), 'is_terminal() of %s is %r', what, e.is_terminal())
    expect(e.arity() == (1 if terminal(m) else len(m.kids)), 'arity() of %s is %r', what, e.arity())
    got = [WORDS.index((x.token.word, x.token.pos, x.token.dep)) for x in e.flat_leafs()]
    expect(got == words(m), 'flat_leafs() of %s are %r', what, [WORDS[x] for x in got])
    for at, values, ask in ((1, ('VERB', 'NOUN', 'ADP', 'X'), e.has_pos), (2, ('pobj', 'det', 'prep', ''), e.has_dep)):
        for v in values:
            for shallow in (False, True):
                expect(bool(ask(v, shallow=shallow)) is has(m, at, v, shallow), '%s has %s (shallow: %s): %r', what, v, shallow, ask(v, shallow=shallow))
            expect(bool(ask(v)) is has(m, at, v, False), '%s has %s: %r', what, v, ask(v))
    if not leaf:
        expect(bool(e.is_singleton()) is (len(m.kids) == 1), 'is_singleton() of %s', what)
        expect(bool(e.is_node_singleton()) is (len(m.kids) == 1 and isinstance(m.kids[0], N)), 'is_node_singleton() of %s', what)
        for i, k in enumerate(m.kids):
            expect(e.get_child(i) is e.children()[i], 'child %s of %s', i, what)
            observe(e.get_child(i), k, tree)


OPS = ['enclose', 'disenclose', 'redundant', 'flatten', 'compound', 'simple', 'add', 'left', 'right', 'clone', 'set', 'compound', 'enclose', 'tree redundant']


def run(case, rec):
    from gb.knowledge.semantic_tree import Position, Tree
    start, ops = case
    tree = Tree()
    e, model = build(start, tree)
    tree.root_id = e.id
    top = N([model])        # holds the root
    changed = 0
    for name, path, new in ops:
        # the element at the path: e, and where the model of it is
        e, holder, at = tree.root(), top, 0
        for step in path:
            m = holder.kids[at]
            if isinstance(m, L):
                break
            e, holder, at = e.get_child(step % len(m.kids)), m, step % len(m.kids)
        m = holder.kids[at]
        before = show(top.kids[0])
        node = isinstance(m, N)
        if name == 'enclose':
            r = tree.enclose(e)
            holder.kids[at] = N([m])
            expect(r.is_node() and r.children()[0] is e and len(r.children()) == 1, 'enclose() gives %s', r)
        elif name == 'disenclose':
            if node and len(m.kids) == 1:
                tree.disenclose(e)
                holder.kids[at] = m.kids[0]
        elif name == 'redundant':
            e.remove_redundant_nesting()
            holder.kids[at] = redundant(m)
        elif name == 'tree redundant':
            tree.remove_redundant_nesting()
            top.kids[0] = redundant(top.kids[0])
            first = show(top.kids[0])
            tree.remove_redundant_nesting()
            expect(real(tree.root()) == first, 'removing redundant nesting twice gives %s', tree)
        elif name == 'flatten':
            e.flatten()
            flatten(m)
        elif name in ('compound', 'simple'):
            if node:
                e.compound = name == 'compound'
                mark(m, name == 'compound')
        elif name == 'add':
            k, km = build(new, tree)
            e.add_child(k.id)
            if node:
                m.kids.append(km)
            else:
                holder.kids[at] = N([m, km])
        elif name in ('left', 'right'):
            k, km = build(new, tree)
            if not node:
                m = N([m])
            if name == 'left' and not terminal(m.kids[0]):
                continue        # there may be elements at the right of the head
            e.add_to_first_child(k.id, Position.LEFT if name == 'left' else Position.RIGHT)
            holder.kids[at] = m
            if terminal(m.kids[0]):
                m.kids[0] = N([m.kids[0]])
            m.kids[0].kids.insert(0 if name == 'left' else len(m.kids[0].kids), km)
        elif name == 'set':
            if node:
                k, km = build(new, tree)
                i = len(path) % len(m.kids)
                e.set_child(i, k.id)
                m.kids[i] = km
        elif name == 'clone':
            c = e.clone()
            expect(real(c) == show(m), 'the copy of %s is %s', text(m), c)
            expect(c == e and not (c != e), 'the copy of %s is not equal to it', text(m))
            expect(tree.get(c.id) is c and tree.get(tree.clone_id(e.id)) == e, 'the copy is not in the tree')
            if node:
                shown = real(c)
                expect(c is not e and c.id != e.id, 'the copy of %s is itself', text(m))
                # what happens to the copy does not happen to the original, and the other way round
                k, km = build(new, tree)
                for x in c.children():
                    if x.is_node():
                        x.add_child(k.id)
                        x.compound = not x.compound
                c.add_child(k.id)
                c.flatten()
                c.compound = True
                observe(tree.root(), top.kids[0], tree)
                other = e.clone()
                k, km = build(new, tree)
                e.add_child(k.id)
                m.kids.append(km)
                expect(real(other) == shown, 'the copy of %s changed to %s', text(m), other)
        observe(tree.root(), top.kids[0], tree)
        expect(str(tree) == text(top.kids[0]), 'the text of the tree is %r, expected %r', str(tree), text(top.kids[0]))
        if show(top.kids[0]) != before:
            changed += 1
            rec.label(name)
    rec.nontrivial(changed >= 3)


def compare(case, rec):
    from gb.knowledge.semantic_tree import Tree
    one, two, together = case
    tree = Tree()
    a, ma = build(one, tree)
    b, mb = build(two, tree if together else Tree())
    for x, mx in ((a, ma), (b, mb)):
        for y, my in ((a, ma), (b, mb)):
            want = equal(mx, my)
            expect((x == y) is want, '%s == %s is %r', x, y, x == y)
            expect((x != y) is (not want), '%s != %s is %r', x, y, x != y)
    rec.nontrivial(words(ma) == words(mb))


@st.composite
def pairs(draw):
    """Two trees that are equal or almost."""
    a = draw(TREES)
    kind = draw(st.integers(0, 4))

    def go(t, k):
        if isinstance(t, int):
            return (t + 1) % len(WORDS) if kind == 1 and k[0] == 0 and not k.append(0) else t
        if kind == 2 and draw(st.integers(0, 3)) == 0:
            return (t[0], t[1] + (0,))
        return ((not t[0]) if kind == 3 else t[0], tuple(go(x, k) for x in t[1]))
    b = draw(TREES) if kind == 4 else go(a, [0])
    return a, b, draw(st.booleans())


def heads(case, rec):
    """What is added at the left and then at the right of the head stays in order."""
    from gb.knowledge.semantic_tree import Position, Tree
    head, left, right, rest = case
    tree = Tree()
    e, m = build(head, tree)
    tree.root_id = e.id
    group = [m]
    root = [None]
    for side, items in ((Position.LEFT, left), (Position.RIGHT, right)):
        for t in items:
            k, km = build(t, tree)
            tree.root().add_to_first_child(k.id, side)
            root[0] = True
            group = group[:-1] + [km] + group[-1:] if side == Position.LEFT else group + [km]
    kids = []
    for t in rest:
        k, km = build(t, tree)
        tree.root().add_child(k.id)
        kids.append(km)
    if root[0]:
        want = N([N(group)] + kids)
    else:
        want = N([m] + kids) if kids else m
    observe(tree.root(), want, tree)
    rec.nontrivial(len(left) > 1 and len(right) > 0)


ITEMS = st.lists(st.one_of(st.integers(0, 6), TREES), max_size=3)

PROPS = [
    Prop('operations', st.tuples(NODES, st.lists(st.tuples(st.sampled_from(OPS), st.lists(st.integers(0, 7), max_size=4), TREES), min_size=1, max_size=10)), run, 3000, 60000),
    Prop('equality', pairs(), compare, 4000, 60000),
    Prop('heads', st.tuples(st.integers(0, 6), ITEMS, ITEMS, ITEMS), heads, 1500, 20000),
]
