"""Semantic trees as plain data, and references of the stages of the extractor, written on plain data.

A leaf is the index of its token in the sentence, a node is a tuple (compound, kids)."""

REL_POS = ('VERB', 'ADV', 'ADP', 'PART')
NEST = ('aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod')
FIRST = ('pcomp', 'compound')
NOMINAL = ('pobj', 'compound', 'dobj', 'nsubj')
ARTICLES = ('the', 'an', 'a')


def plain(tree, tokens):
    """Plain data of a Tree."""
    index = {id(t): i for i, t in enumerate(tokens)}

    def go(e):
        if e.is_leaf():
            return index[id(e.token)]
        return (bool(e.is_compound()), tuple(go(k) for k in e.children()))
    return go(tree.root())


def namespaces(tree):
    """Namespaces of the elements, in order of a walk."""
    out = []

    def go(e):
        out.append(e.namespace)
        if e.is_node():
            for k in e.children():
                go(k)
    go(tree.root())
    return out


def is_leaf(t):
    return isinstance(t, int)


def leaves(t):
    return [t] if is_leaf(t) else [x for k in t[1] for x in leaves(k)]


def nodes(t):
    if not is_leaf(t):
        yield t
        for k in t[1]:
            yield from nodes(k)


def shape(t):
    """The tree without marks of compounds."""
    return t if is_leaf(t) else tuple(shape(k) for k in t[1])


def depth(t):
    return 0 if is_leaf(t) else 1 + max(map(depth, t[1]))


def text(t, s):
    """The text of a tree as stages print it."""
    if is_leaf(t):
        return s[t][0].lower().strip()
    parts = [text(k, s) for k in t[1]]
    return '_'.join(parts) if t[0] else '(%s)' % ' '.join(parts)


# ---- alpha

def kept_tokens(s):
    """Tokens that are reached from the root without punctuation or words without a dependency."""
    import parses
    out = []

    def go(i):
        left, right = parses.children(s, i)
        for k in left:
            if s[k][3] not in ('', 'punct'):
                go(k)
        out.append(i)
        for k in right:
            if s[k][3] not in ('', 'punct'):
                go(k)
    go(parses.root_of(s))
    return out


def alpha(s):
    import parses

    def head(i, around):
        """(the token and its compounds, its arguments); modifiers are left in around, outermost first."""
        left, right = parses.children(s, i)
        before, after, args = [], [], []
        has_verb = s[i][2] == 'VERB'
        for k in left + right:
            dep = s[k][3]
            if dep in ('', 'punct'):
                continue
            if dep in NEST or (dep == 'prep' and not has_verb):
                around.append(head(k, around))
                continue
            t = whole(k)
            has_verb = has_verb or any(s[x][2] == 'VERB' for x in leaves(t))
            if dep not in FIRST:
                args.append(t)
            elif k < i:
                before.append(t)
            else:
                after.append(t)
        group = (False, tuple(before + [i] + after)) if before or after else i
        return group, args

    def whole(i):
        around = []
        group, args = head(i, around)
        t = (False, (group,) + tuple(args)) if args else group
        for rel, rest in reversed(around):
            t = (False, (rel, t) + tuple(rest))
        return t
    return whole(parses.root_of(s))


# ---- beta

def beta(t, s):
    def nominal(x):
        return s[x][3] in NOMINAL if is_leaf(x) else all(nominal(k) for k in x[1])

    def entity(x):
        kinds = set(s[k][5] if is_leaf(k) else None for k in x[1])
        return len(kinds) == 1 and kinds.pop() not in (None, '')

    def go(x):
        return x if is_leaf(x) else (nominal(x) or entity(x), tuple(go(k) for k in x[1]))
    return go(t)


# ---- gamma

def is_rel(t, s):
    return all(s[x][2] in REL_POS for x in leaves(t))


def mark(t):
    """Everything in it is one compound."""
    return t if is_leaf(t) else (True, tuple(mark(k) for k in t[1]))


def gamma(t, s):
    def put(first, second):
        """The relationship goes to the front of the innermost relationship at the front."""
        front = second[1][0]
        if not is_leaf(front) and not front[0]:
            return (second[0], (put(first, front),) + second[1][1:])
        return (second[0], (mark((True, (first, front))),) + second[1][1:])

    if is_leaf(t):
        return t
    compound, kids = t[0], tuple(gamma(k, s) for k in t[1])
    if all(is_leaf(k) and s[k][2] in REL_POS for k in kids):
        return (True, kids)
    if len(kids) == 2:
        a, b = kids
        if is_leaf(a) and s[a][2] == 'DET' and s[a][1] in ARTICLES:
            return b
        if not is_leaf(b) and not b[0] and is_rel(a, s) and is_rel(b[1][0], s):
            return put(a, b)
    return (compound, kids)


# ---- delta

def terminal(t):
    return is_leaf(t) or t[0]


def arity(t):
    return 1 if terminal(t) else len(t[1])


def flatten(t):
    if is_leaf(t):
        return t
    kids = []
    for k in t[1]:
        k = flatten(k)
        kids += [k] if terminal(k) else k[1]
    return (t[0], tuple(kids))


def candidates(t, s):
    """All the ways to merge the relationships of arguments with the one at the front, in the order in which they are tried."""
    if is_leaf(t):
        return [t]
    out = []

    def go(working, todo):
        if not todo:
            out.append((False, (flatten(working[0]),) + working[1:]))
            return
        child, rest = todo[0], todo[1:]
        for c in candidates(child, s):
            if not is_leaf(c) and is_rel(c[1][0], s):
                left, right = working[0], c[1][0]
                args = working[1:] + c[1][1:]
                if len(working) == 1:
                    go(((False, (right, left)),) + args, rest)
                if terminal(left) and terminal(right):
                    go((mark((True, (left, right))),) + args, rest)
                else:
                    la, lb = ((), left) if terminal(left) else (left[1][:-1], left[1][-1])
                    ra, rb = (right, ()) if terminal(right) else (right[1][0], right[1][1:])
                    go(((False, la + (mark((True, (lb, ra))),) + rb),) + args, rest)
                if terminal(right):
                    go(((False, ((left,) if terminal(left) else left[1]) + (right,)),) + args, rest)
            go(working + (child,), rest)
    go(t[1][:1], t[1][1:])
    return out


def same(a, b, s):
    """Equality of trees as the code defines it: same nesting, and words with the same text, part of speech and dependency."""
    if is_leaf(a) or is_leaf(b):
        return is_leaf(a) and is_leaf(b) and key(a, s) == key(b, s)
    return len(a[1]) == len(b[1]) and all(same(x, y, s) for x, y in zip(a[1], b[1]))


def key(i, s):
    return (s[i][0].lower().strip(), s[i][2], s[i][3])


def directly_under(t, parent, child, s):
    """Is the child an argument of a relationship that has a part of the parent, somewhere in t?"""
    if arity(t) < 2:
        return False
    words = set(key(x, s) for x in leaves(t[1][0]))
    if any(key(x, s) in words for x in leaves(parent)) and any(same(k, child, s) for k in t[1][1:]):
        return True
    return any(directly_under(k, parent, child, s) for k in t[1][1:])


def fit(t, original, s):
    if is_leaf(t) or not is_rel(t[1][0], s):
        return 0
    rel, args = t[1][0], t[1][1:]
    n = arity(rel)
    total = 0
    if n == 1 and len(args) == 1 or n == len(args) - 1:
        total += 1000
    if not terminal(rel):
        for i in range(min(n, arity(t) - 2)):
            part = rel[1][i]
            if i == 0 and directly_under(original, part, args[0], s):
                total += 100
            if directly_under(original, part, args[i + 1], s):
                total += 100
    return total


def relational(t, s):
    """Is there something to do for the delta stage?"""
    return not terminal(t) and is_rel(t[1][0], s)


def simple_rels(t, s):
    """No relationship is nested more than once: no candidate shares a node that another one changes."""
    def nested(x):
        return any(not terminal(k) for k in x[1]) if not is_leaf(x) else False
    return not any(nested(n[1][0]) for n in nodes(t) if is_rel(n[1][0], s))


def delta(t, s):
    if not relational(t, s):
        return t
    best, best_fit = None, -1
    for c in candidates(t, s):
        f = fit(c, t, s)
        if f > best_fit:
            best, best_fit = c, f
    return best


# ---- epsilon

def symbol_of(word):
    for c in '/()':
        word = word.replace(c, '_')
    return '_'.join(word.lower().split())




def fronts(got, want):
    """Is got the tree want, except that some fronts (first elements) may be flattened? Trying a candidate can do that."""
    if is_leaf(got) or is_leaf(want):
        return got == want
    if got[0] != want[0] or len(got[1]) != len(want[1]):
        return False
    return (fronts(got[1][0], want[1][0]) or got[1][0] == flatten(want[1][0])) and all(fronts(a, b) for a, b in zip(got[1][1:], want[1][1:]))


def run_alpha(tokens):
    from gb.nlp.sentence import Sentence
    from gb.knowledge.stages.alpha import AlphaStage
    return AlphaStage().process_sentence(Sentence(tokens))


def run_stage(name, tree):
    from gb.knowledge.stages.beta import BetaStage
    from gb.knowledge.stages.gamma import GammaStage
    from gb.knowledge.stages.delta import DeltaStage
    from gb.knowledge.stages.epsilon import EpsilonStage
    if name == 'beta':
        return BetaStage(None, tree).process()
    if name == 'epsilon':
        return EpsilonStage(None, tree).process()
    return {'gamma': GammaStage, 'delta': DeltaStage}[name](tree).process()


def check_tree(tree, tokens, what):
    """Plain data of a tree; all its elements are where their identifiers say, and no element is used twice."""
    from vf import expect
    seen = set()

    def go(e):
        expect(tree.get(e.id) is e, '%s: the element with identifier %r is another one', what, e.id)
        expect(id(e) not in seen, '%s: the element %s is in the tree twice', what, e)
        seen.add(id(e))
        expect(e.is_leaf() is not e.is_node(), '%s: leaf and node', what)
        if e.is_node():
            kids = e.children()
            expect(len(kids) >= 2, '%s: a node has %s elements', what, len(kids))
            for k in kids:
                go(k)
    go(tree.root())
    return plain(tree, tokens)


def state(tokens):
    return [(t.word, t.lemma, t.shape, t.logprob, t.pos, t.dep, id(t.parent), [id(x) for x in t.left_children], [id(x) for x in t.right_children],
             t.entity_type, t.separator) for t in tokens]
