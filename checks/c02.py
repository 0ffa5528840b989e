"""Eco: rules that turn the words of a sentence into an edge."""
import itertools

from hypothesis import strategies as st

import clj
import cljhg
import gen
from clj import Seq, Vec, kw, pr
from cljhg import from_clj, to_clj
from vf import Prop, expect, expect_eq


class Word:
    java_class = 'com.graphbrain.eco.Word'

    def __init__(self, word, pos, lemma):
        self.getWord, self.getPos, self.getLemma = lambda: word, lambda: pos, lambda: lemma


class Words:
    """Stands in for the Java class: words separated by spaces, tagged by a table."""
    java_class = 'com.graphbrain.eco.Words'

    def __init__(self, words):
        self.getWords = lambda: words

    @staticmethod
    def fromString(s):
        return Words([Word(x, *tags(x)) for x in s.split()])


RT = cljhg.runtime()
RT.static[('Words', 'fromString')] = Words.fromString
RT.require('graphbrain.eco.parsers.chat')
RT.require('graphbrain.eco.parsers.header')
RT.load_text('(ns verif.rules (:use graphbrain.eco.eco graphbrain.eco.ecofuns))')

RULE = ('Cases are sentences of up to 9 words from a small vocabulary with their tags, and lists of conditions and rule sets made at random. Non-trivial: the sentence splits in two or more '
        'ways; the result has an edge.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py); the words are tagged by a table instead of the Stanford tagger',
               'of the parses with the highest weight any may be the result']

TAGS = {'likes': 'VBZ', 'like': 'VBP', 'is': 'VBZ', 'am': 'VBP', 'have': 'VBP', 'can': 'MD', 'to': 'TO', 'in': 'IN', 'at': 'IN', 'than': 'IN', 'the': 'DT', 'a': 'DT', 'an': 'DT', 'this': 'DT',
        'bigger': 'JJR', 'big': 'JJ', 'very': 'RB', 'quickly': 'RBR', 'rb': 'RP', '.': '.', ',': ',', ':': ':', 'and': 'CC', 'with': 'IN', 'i': 'PRP', 'me': 'PRP', 'he': 'PRP', 'she': 'PRP',
        '-lcb-': '-LRB-', '-rcb-': '-RRB-', '-lsb-': '-LRB-', '-rsb-': '-RRB-', '-lrb-': '-LRB-', '-rrb-': '-RRB-', 'of': 'IN'}
LEMMAS = {'likes': 'like', 'is': 'be', 'am': 'be', 'dogs': 'dog', 'bigger': 'big'}


def tags(x):
    x = x.lower()
    return TAGS.get(x, 'NN'), LEMMAS.get(x, x)


def word(x):
    return (x.lower(),) + tags(x)


def clj_word(w):
    return clj.pmap([(kw('word'), w[0]), (kw('pos'), w[1]), (kw('lemma'), w[2])])


CONDS = {'?': lambda w: True, '??': lambda w: True, '???': lambda w: True, '????': lambda w: True,
         'verb': lambda w: w[1][0] == 'V' or w[1] == 'MD', 'ind': lambda w: w[1][0] == 'I', 'adv': lambda w: w[1].startswith('RB'), 'adj': lambda w: w[1][0] == 'J',
         'compar': lambda w: w[1] == 'JJR', 'det': lambda w: w[1] == 'DT', 'to': lambda w: w[1] == 'TO'}
for _n in ('verb', 'ind', 'adv', 'adj', 'det'):
    CONDS['!' + _n] = lambda w, f=CONDS[_n]: not f(w)
WEIGHTS = {'?': 0, '??': 10, '???': 100, '????': 1000}


def holds(cond, w):
    """Conditions as the rules write them: a name, "word", (& ...), (| ...), (!w "word"), or a list of which all hold."""
    if isinstance(cond, list):
        return all(holds(c, w) for c in cond)
    if isinstance(cond, tuple):
        if cond[0] == '!w':
            return w[0] != cond[1].strip('"')
        return (all if cond[0] == '&' else any)(holds(c, w) for c in cond[1:])
    return w[0] == cond[1:-1] if cond[0] == '"' else CONDS[cond](w)


def weight(cond):
    if isinstance(cond, list):
        return sum(weight(c) for c in cond)
    return 3 if cond[0] == '"' else WEIGHTS.get(cond, 1) if isinstance(cond, str) else 1


def source(cond):
    if isinstance(cond, list):
        return '[%s]' % ' '.join(source(c) for c in cond)
    if isinstance(cond, tuple):
        return '(%s)' % ' '.join(source(c) for c in cond)
    return cond


def splits(words, conds):
    """The ways to cut the words into consecutive parts, not empty, whose words hold the conditions."""
    if not conds:
        return [[]] if not words else []
    out = []
    for k in range(1, len(words) + 1):
        if not holds(conds[0], words[k - 1]):
            break
        out += [[words[:k]] + rest for rest in splits(words[k:], conds[1:])]
    return out


class Rule:
    def __init__(self, conds, body, typ='normal', names=None):
        self.conds, self.body, self.typ = conds, body, typ
        self.priority = sum(1 + weight(c) for c in conds)


def ordered(rules):
    """The highest priority first, then the latest."""
    return sorted(reversed(rules), key=lambda r: -r.priority)


class TooMany(Exception):
    pass


BUDGET = [0]


def parses_of(rules, words, env):
    """None if they are too many to go through."""
    BUDGET[0] = 4000
    try:
        return parse(rules, words, env)
    except TooMany:
        return None


def parse(rules, words, env, depth=0):
    """(vertex, weight) of each parse: of the first two rules that match."""
    out, matched = [], 0
    BUDGET[0] -= 1
    for rule in rules:
        if matched > 1:
            break
        found = splits(words, rule.conds) if rule.typ != 'top' or depth == 0 else []
        matched += bool(found)
        for parts in found:
            for v, inner in rule.body(Context(rules, env, depth), *parts) or []:
                out.append((v, rule.priority + inner))
                BUDGET[0] -= 1
                if BUDGET[0] < 0:
                    raise TooMany()
    return out


class Context:
    """What the bodies of rules are made of. Alternatives are (vertex, weight of what is inside of it)."""
    def __init__(self, rules, env, depth):
        self.rules, self.env, self.depth = rules, env, depth

    def more(self, words):
        """(! words): each parse, with its weight."""
        return parse(self.rules, words, self.env, self.depth + 1)

    def top(self, words):
        """(! words) as the result of a rule, whose priority counts instead of the one of the rule that made it."""
        out, matched = [], 0
        for rule in self.rules:
            if matched > 1:
                break
            found = splits(words, rule.conds) if rule.typ != 'top' else []
            matched += bool(found)
            for parts in found:
                out += rule.body(Context(self.rules, self.env, self.depth + 1), *parts) or []
        return out

    def edge(self, *parts):
        parts = [[(p, 0)] if isinstance(p, str) else p for p in parts]
        return [(tuple(v for v, _ in c), sum(w for _, w in c)) for c in itertools.product(*parts)]


def symbol(words, k=0):
    s = ' '.join(w[k] for w in words).lower()
    return ''.join('_' if c in '/ ()' else c for c in s)


def best(parses):
    if not parses:
        return [None]
    top = max(w for _, w in parses)
    return [v for v, w in parses if w == top]


def chat_rules():
    one = symbol

    def rel(*ws):
        return one(sum(ws, [])) + '/eco'

    def colon(c, x, v, y, colon, z):
        thing, kind = c.more(z), c.more(y)
        return c.edge('edges/1', c.edge('%s_%s/eco' % (one(v), one(y)), c.more(x), thing), c.edge('is/eco', thing, kind))

    def both(c, *sentences):
        return c.edge('list/eco', *[c.more(s) for s in sentences])
    R = Rule
    q = '?'
    return ordered([
        R(['"-lcb-"', q, '"-rcb-"', '"-lsb-"', q, '"-rsb-"', '"-lcb-"', q, '"-rcb-"'], lambda c, x0, a, x1, x2, r, x3, x4, b, x5: c.edge(rel(r), c.more(a), c.more(b))),
        R(['???', 'verb', '???', '":"', '???'], colon, 'top'),
        R(['!verb', '"have"', '"to"', q], lambda c, a, h, t, b: c.edge('has_task/eco', c.more(a), c.more(b))),
        R(['"with"', '"a"', q, '","', q, 'verb', q], lambda c, w, x1, a, x2, b, v, d: c.edge('list/eco', c.edge('has/eco', c.more(b), c.more(a)), c.more(b + v + d))),
        R([q, 'verb', q, '"and"', 'verb', q], lambda c, a, v, b, x, v2, d: both(c, a + v + b, a + v2 + d)),
        R([q, 'verb', q, 'ind', q, '"and"', q, 'ind', q], lambda c, a, v, b, i, d, x, e, i2, f: [] if ends_with(i + d, i2 + f) else both(c, a + v + b + i + d, a + v + e + i2 + f)),
        R([q, 'verb', q, '"and"', q, 'ind', q], lambda c, a, v, b, x, d, i, e: both(c, a + v + b + i + e, a + v + d + i + e)),
        R([q, 'verb', q, '"and"', q], lambda c, a, v, b, x, d: both(c, a + v + b, a + v + d)),
        R([q, 'verb', 'ind', q], lambda c, a, v, i, b: c.edge(rel(v, i), c.more(a), c.more(b))),
        R([q, 'verb', 'to', q], lambda c, a, v, i, b: c.edge(rel(v, i), c.more(a), c.more(b))),
        R([q, 'verb', 'compar', 'ind', q], lambda c, a, v, k, i, b: c.edge(rel(v, k, i), c.more(a), c.more(b))),
        R([q, 'verb', q], lambda c, a, v, b: c.edge(rel(v), c.more(a), c.more(b))),
        R([q, '"in"', '!verb'], lambda c, a, i, b: c.edge(rel(i), c.more(a), c.more(b))),
        R([q, '"-lrb-"', q, '"-rrb-"'], lambda c, a, x0, b, x1: c.top(a)),
        R([('&', 'det', '"the"'), q], lambda c, a, b: c.top(b)),
        R([('&', 'det', '"a"'), q], lambda c, a, b: c.top(b)),
        R([('&', 'det', '"an"'), q], lambda c, a, b: c.top(b)),
        R([q, '"."'], lambda c, a, b: c.top(a)),
        R(['"i"'], lambda c, a: [(c.env['user'], 0)]),
        R(['"me"'], lambda c, a: [(c.env['user'], 0)]),
        R(['"this"'], lambda c, a: [(c.env['root'], 0)]),
        R(['"he"'], lambda c, a: [(c.env['root'], 0)]),
        R(['"she"'], lambda c, a: [(c.env['root'], 0)]),
        R(['!verb'], lambda c, a: [(one(a), 0)]),
        R([q], lambda c, a: [(one(a), 0)]),
    ])


def ends_with(a, b):
    return a[-len(b):] == b


def header_rules():
    R, q = Rule, '?'

    def two(rel):
        return lambda c, a, x, b: c.edge(rel or symbol(x) + '/eco', c.more(a), c.more(b))

    def both(c, x, y):
        return c.edge('list/eco', c.more(x), c.more(y))

    def between(*n):
        """Something, the words of the relation, something."""
        return lambda c, *ws: c.edge(symbol(sum(ws[1:-1], [])) + '/eco', c.more(ws[0]), c.more(ws[-1]))
    return ordered([
        R([q, 'verb', q, '"and"', q, 'ind', q], lambda c, a, v, b, x, d, i, e: both(c, a + v + b + i + e, a + v + d + i + e)),
        R([q, 'verb', q, '"and"', q], lambda c, a, v, b, x, d: both(c, a + v + b, a + v + d)),
        R([q, 'verb', 'ind', q], between()),
        R([q, 'verb', 'to', q], between()),
        R([q, 'verb', 'compar', 'ind', q], between()),
        R([q, 'verb', q], between()),
        R([q, '"of"', q], two('of/eco')),
        R([q, 'ind', q], between()),
        R(['ind', q], lambda c, i, a: c.edge(symbol(i) + '/eco', c.more(a))),
        R([q, '"\'s"', q], two('poss/eco')),
        R([q, '"\'"', q], two('poss/eco')),
        R(['verb', q], lambda c, v, a: c.edge(c.more(v), c.more(a))),
        R([q, '"in"', q], two(None)),
        R([q, '"and"', q], two(None)),
        R([('|', 'adj', 'adv'), q], lambda c, p, a: c.edge('prop/eco', c.more(p), c.more(a))),
        R([q, '"-lrb-"', q, '"-rrb-"'], lambda c, a, x0, b, x1: c.edge('related/eco', c.more(a), c.more(b))),
        R(['"-lrb-"', q, '"-rrb-"', q], lambda c, x0, b, x1, a: c.edge('related/eco', c.more(b), c.more(a))),
        R([('&', 'det', '"the"'), q], lambda c, a, b: c.top(b)),
        R([('&', 'det', '"a"'), q], lambda c, a, b: c.top(b)),
        R([('&', 'det', '"an"'), q], lambda c, a, b: c.top(b)),
        R([q, '"."'], lambda c, a, b: c.top(a)),
        R([q, '"?"'], lambda c, a, b: c.top(a)),
        R(['!verb'], lambda c, a: [(symbol(a, 2), 0)]),
        R([q], lambda c, a: [(symbol(a, 2), 0)]),
    ])


CHAT = chat_rules()
HEADER = header_rules()
ENV = {'root': 'berlin/wn.1', 'user': 'u/telmo'}
CLJ_ENV = clj.pmap([(kw(k), v) for k, v in ENV.items()])


def vertex(x):
    return tuple(vertex(e) for e in x) if isinstance(x, (Vec, Seq)) else x


def chat(sentence, rec):
    parser_of('chat', CHAT, sentence, rec)


def header(sentence, rec):
    parser_of('header', HEADER, sentence, rec)


def parser_of(name, rules, sentence, rec):
    words = [word(x) for x in sentence]
    parses = parses_of(rules, words, ENV)
    if parses is None:
        return rec.label('too many parses')
    got = vertex(cljhg.fn('graphbrain.eco.eco', 'parse-str')(RT.ns('graphbrain.eco.parsers.' + name).vars[name].root, ' '.join(sentence), CLJ_ENV))
    want = best(parses)
    expect(got in want, '%r became %r, expected %s', ' '.join(sentence), got, ' or '.join(repr(w) for w in want[:3]))
    rec.nontrivial(isinstance(got, tuple))
    rec.label('depth %s' % (gen.depth(got) if isinstance(got, tuple) else 0))


def chunks(case, rec):
    """A rule matches in all the ways in which the sentence splits."""
    conds, sentence, top = case
    words = [word(x) for x in sentence]
    names = ['c%d' % i for i in range(len(conds))]
    code = '[%s]' % ' '.join('{:var :%s :word-conds %s}' % (n, source(c)) for n, c in zip(names, conds))
    ch = RT.eval_text('(vec %s)' % code, 'verif.rules')
    typ = kw('top' if top else 'normal')
    want = splits(words, conds)
    for depth in (0, 1):
        got = cljhg.fn('graphbrain.eco.eco', 'eval-rule')(Vec([clj_word(w) for w in words]), ch, typ, Vec([]), CLJ_ENV, depth)
        found = []
        for m in got or ():
            d = from_clj(m)
            expect_eq(sorted(d), sorted(':' + n for n in names), 'variables')
            found.append([[(w[':word'], w[':pos'], w[':lemma']) for w in d[':' + n]] for n in names])
        expect_eq(sorted(found), sorted(want) if depth == 0 or not top else [], 'matches of %s at depth %s' % (code, depth))
    rec.nontrivial(len(want) > 1)
    rec.label('matches %s' % min(len(want), 5))


def build(specs):
    """The same rules for both: (conditions, body, typ)."""
    forms = ['(def rs [])']
    rules = []
    for n, (conds, body, typ) in enumerate(specs):
        names = ['abcd'[i] for i in range(len(conds))]
        b = [(kind, [k % len(conds) for k in ks]) for kind, ks in body]
        forms.append('(pattern :%s rs "r%d" [%s] %s)' % (typ, n, ' '.join('%s %s' % (v, source(c)) for v, c in zip(names, conds)), body_source(b, names)))
        rules.append(Rule(conds, body_fn(b), typ))
    for f in forms:
        RT.eval_text(f, 'verif.rules')
    return ordered(rules)


def body_source(b, names):
    def cat(ks):
        return names[ks[0]] if len(ks) == 1 else '(concat %s)' % ' '.join(names[k] for k in ks)
    kind, ks = b[0]
    if kind == 'entity':
        return '(entity %s)' % cat(ks)
    if kind == 'lemma':
        return '(lemma %s)' % cat(ks)
    if kind in ('user', 'root'):
        return '(%s env)' % kind
    if kind == 'more':
        return '(! %s)' % cat(ks)
    inner = ' '.join({'entity': '(entity %s)', 'lemma': '(lemma %s)', 'user': '(user env)%.0s', 'root': '(root env)%.0s'}.get(k, '(! %s)') % cat(js) for k, js in b[1:])
    return '(edge (rel %s) %s)' % (cat(ks), inner) if kind == 'edge' else '(edges %s)' % inner


def body_fn(b):
    def run(c, *parts):
        def cat(ks):
            return sum((parts[k] for k in ks), [])

        def simple(kind, ks):
            return {'entity': lambda: [(symbol(cat(ks)), 0)], 'lemma': lambda: [(symbol(cat(ks), 2), 0)], 'user': lambda: [(c.env['user'], 0)], 'root': lambda: [(c.env['root'], 0)]}.get(kind)
        kind, ks = b[0]
        s = simple(kind, ks)
        if s:
            return s()
        if kind == 'more':
            return c.top(cat(ks))
        inner = [(simple(k, js) or (lambda js=js: c.more(cat(js))))() for k, js in b[1:]]
        return c.edge(symbol(cat(ks)) + '/eco', *inner) if kind == 'edge' else c.edge('edges/1', *inner)
    return run


def ruleset(case, rec):
    """Any set of rules, as `pattern` defines them: the parses with their weights, and the best one."""
    specs, sentence = case
    rules = build(specs)
    words = [word(x) for x in sentence]
    want = parses_of(rules, words, ENV)
    if want is None:
        return rec.label('too many parses')
    rs = RT.ns('verif.rules').vars['rs'].root
    expect_eq([clj.get(r, kw('priority')) for r in clj.seq_iter(rs)], [r.priority for r in rules], 'priorities')
    ws = Vec([clj_word(w) for w in words])
    got = cljhg.fn('graphbrain.eco.eco', 'parse')(rs, ws, CLJ_ENV)
    vws = [cljhg.fn('graphbrain.eco.eco', 'vert+weight')(p) for p in clj.seq_iter(got)]
    seen = [(vertex(clj.get(p, kw('vert'))), clj.get(p, kw('weight'))) for p in vws]
    expect_eq(sorted(seen, key=repr), sorted(want, key=repr), 'parses of %r' % (sentence,))
    one = vertex(cljhg.fn('graphbrain.eco.eco', 'parse-words')(rs, ws, CLJ_ENV))
    expect(one in best(want), 'of %r, %r is the result', want, one)
    rec.nontrivial(len(want) > 1)
    rec.label('parses %s' % min(len(want), 5))


def kinds(sentence, rec):
    """Each function about words, against its definition."""
    for x in sentence:
        w = clj_word(word(x))
        for name, f in CONDS.items():
            expect_eq(bool(cljhg.fn('graphbrain.eco.ecofuns', name)(w)), f(word(x)), '%s of %r' % (name, word(x)))
    got = [from_clj(w) for w in cljhg.fn('graphbrain.eco.words', 'str->words')(' '.join(sentence))]
    expect_eq([(w[':word'], w[':pos'], w[':lemma']) for w in got], [word(x) for x in sentence], 'words of %r' % (sentence,))
    expect_eq(cljhg.fn('graphbrain.eco.ecofuns', 'words->str')(to_clj([]), Vec([clj_word(word(x)) for x in sentence])).strip(), ' '.join(x.lower() for x in sentence), 'words->str')
    rec.nontrivial(len(sentence) > 1)


NOUNS = ['dogs', 'cats', 'Mary', 'Paris', 'tree']
VOCAB = NOUNS + [k for k in TAGS]
SENT = st.lists(gen.pick(st.sampled_from(VOCAB), st.sampled_from(NOUNS), st.sampled_from(['likes', 'is', 'have', 'to', 'in', 'and', 'the', 'i', '.'])), min_size=1, max_size=8)
N = gen.pick(st.sampled_from(NOUNS).map(lambda x: [x]), st.sampled_from(NOUNS).map(lambda x: [x]), st.sampled_from([['the', 'tree'], ['a', 'big', 'dog'], ['an', 'apple'], ['i'], ['me'], ['this'], ['he'],
                                                                                                    ['cats', 'in', 'Paris'], ['cats', '-lrb-', 'big', '-rrb-'], ['very', 'big', 'cats']]))
V = st.sampled_from([['likes'], ['is'], ['am'], ['can', 'like'], ['have']])
I = st.sampled_from([['in'], ['at'], ['than']])


def seqs(*parts):
    return st.tuples(*[st.just([p]) if isinstance(p, str) else p for p in parts]).map(lambda t: sum(t, []))


FORM = gen.pick(seqs(N, V, N), seqs(N, V, I, N), seqs(N, V, 'to', N), seqs(N, V, 'bigger', I, N), seqs(N, V, N, 'and', N), seqs(N, V, N, 'and', V, N), seqs(N, 'have', 'to', N),
                seqs(N, V, N, ':', N), seqs('with', 'a', N, ',', N, V, N), seqs('-lcb-', N, '-rcb-', '-lsb-', V, '-rsb-', '-lcb-', N, '-rcb-'), seqs(N, V, N, '.'), SENT,
                seqs(st.sampled_from(NOUNS).map(lambda x: [x]), V, N, I, N, 'and', st.sampled_from([['cats'], ['tree']]), I, st.sampled_from([['Paris'], ['cats']]))).filter(lambda s: len(s) <= 11)
A = st.sampled_from([['big'], ['very'], ['bigger']])
HEAD = gen.pick(N, seqs(N, 'of', N), seqs(N, I, N), seqs(I, N), seqs(N, "'s", N), seqs(N, "'", N), seqs(V, N), seqs(N, 'and', N), seqs(A, N), seqs(N, '-lrb-', N, '-rrb-'), seqs('-lrb-', N, '-rrb-', N),
                seqs('the', N, '?'), seqs(N, V, N), seqs(N, V, I, N), seqs(N, V, 'to', N), seqs(N, V, 'bigger', I, N), seqs(N, V, N, 'and', N), seqs(N, V, N, 'and', N, I, N), SENT).filter(lambda s: len(s) <= 9)
COND = gen.pick(st.sampled_from(sorted(CONDS)), st.sampled_from(['?', '?', '!verb', 'verb']), st.sampled_from(['"dogs"', '"and"', '"in"', '"likes"']),
                st.tuples(st.sampled_from('&|'), st.sampled_from(['verb', 'det', '?', 'adj']), st.sampled_from(['ind', '!det', 'verb', '!adv'])),
                st.tuples(st.just('&'), st.just('?'), st.sampled_from(['"dogs"', '"in"'])), st.tuples(st.just('!w'), st.sampled_from(['"and"', '"in"'])),
                st.lists(st.sampled_from(['?', 'verb', '!det', '"likes"', '??']), min_size=1, max_size=2))
FEW = st.lists(st.sampled_from(['dogs', 'cats', 'likes', 'in', 'and', 'the', 'big', 'is']), min_size=1, max_size=6)
KS = st.lists(st.integers(0, 3), min_size=1, max_size=2)
ITEM = st.tuples(st.sampled_from(['entity', 'lemma', 'user', 'root', 'more', 'more', 'more']), KS)


@st.composite
def spec(draw):
    conds = draw(st.lists(COND, min_size=1, max_size=4))
    kind = draw(st.sampled_from(['entity', 'entity', 'lemma', 'user', 'root', 'more', 'edge', 'edge', 'edge', 'edges']))
    n = len(conds)
    some = st.lists(st.integers(0, n - 1), min_size=1, max_size=max(1, n - 1), unique=True).map(sorted)
    if n == 1 and kind in ('more', 'edge', 'edges'):
        kind = 'entity'     # the same words again would have no end
    body = [(kind, draw(some))]
    if kind in ('edge', 'edges'):
        for _ in range(draw(st.integers(1, 3))):
            k = draw(st.sampled_from(['entity', 'lemma', 'user', 'root', 'more', 'more', 'more']))
            body.append((k, draw(some)))
    return conds, body, draw(st.sampled_from(['normal', 'normal', 'normal', 'top']))


BASE = [(['?'], [('entity', [0])], 'normal'), (['?', 'verb', '?'], [('edge', [1]), ('more', [0]), ('more', [2])], 'normal')]
SPECS = st.lists(spec(), min_size=0, max_size=4).map(lambda s: BASE + s)

PROPS = [
    Prop('chat', FORM, chat, quick=500, thorough=8000, examples=[['dogs', 'likes', 'cats', 'and', 'tree'], ['Mary', 'likes', 'dogs', ':', 'Rex']]),
    Prop('header', HEAD, header, quick=400, thorough=6000, examples=[['dogs', 'likes', 'cats', 'and', 'tree']]),
    Prop('chunks', st.tuples(st.lists(COND, min_size=1, max_size=4), FEW, st.booleans()), chunks, quick=500, thorough=5000),
    Prop('ruleset', st.tuples(SPECS, FEW), ruleset, quick=400, thorough=2500),
    Prop('kinds', SENT, kinds, quick=150, thorough=600),
]
