"""Importing WordNet by the Clojure code writes exactly its content as sourced facts."""
import contextlib
import io
import os

from hypothesis import strategies as st

import clj
import cljhg
import gen
from c01 import store
from c07 import Beliefs, all_edges
from cljhg import Hg
from clj import Vec
from vf import Prop, expect

RT = cljhg.runtime()
RULE = ('Cases are dictionaries of 1 to 7 synsets, or of about a hundred, of all parts of speech, with words that are shared and pointers between them, imported into one or two hypergraphs. '
        'Non-trivial: a synset has two words, and another one a hypernym.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc, math.combinatorics and the dictionary (extJWNL)',
               'hypernyms have no cycles; every synset has a word']


def hashed(s):
    h = 1125899906842597
    for c in s:
        h = (31 * (h + ord(c))) & (2 ** 64 - 1)
    return '%x' % h


class Pos:
    java_class = 'net.sf.extjwnl.data.POS'

    def __init__(self, name):
        self.name = name
        self.equals = lambda o: self is o
        self.toString = lambda: name

    def __call__(self):
        """(POS/NOUN) is the field."""
        return self


POS = {n: Pos(n) for n in ('NOUN', 'VERB', 'ADJECTIVE', 'ADVERB')}


class Word:
    java_class = 'net.sf.extjwnl.data.Word'

    def __init__(self, synset, lemma):
        self.getSynset, self.getLemma, self.getPOS = lambda: synset, lambda: lemma, lambda: synset.pos


class Synset:
    java_class = 'net.sf.extjwnl.data.Synset'

    def __init__(self, number, pos, lemmas):
        self.pos = POS[pos]
        self.words = [Word(self, x) for x in lemmas]
        self.links = {}
        self.getWords, self.getPOS = lambda: Vec(self.words), lambda: self.pos
        self.toString = lambda: '[Synset: [Offset: %d]]' % number
        self.getOffset = lambda: number


class Target:
    java_class = 'net.sf.extjwnl.data.list.PointerTargetNode'

    def __init__(self, synset):
        self.getSynset = lambda: synset


class Iter:
    java_class = 'java.util.Iterator'

    def __init__(self, items):
        items = list(items)
        self.hasNext, self.next = lambda: bool(items), lambda: items.pop(0)


class Targets(Vec):
    """A PointerTargetNodeList, which is a LinkedList."""
    java_class = 'net.sf.extjwnl.data.list.PointerTargetNodeList'

    def getFirst(self):
        return self.t[0]


class Dictionary:
    java_class = 'net.sf.extjwnl.dictionary.Dictionary'
    current = None

    def __init__(self, synsets):
        self.getSynsetIterator = lambda pos: Iter(s for s in synsets if s.pos is pos)


def pointers(kind):
    return lambda synset: Targets([Target(s) for s in synset.links.get(kind, [])])


for _name, _kind in (('getDirectHypernyms', 'type'), ('getMeronyms', 'part'), ('getAntonyms', 'opposite'), ('getAlsoSees', 'also')):
    RT.static[('PointerUtils', _name)] = pointers(_kind)
RT.static[('Dictionary', 'getDefaultResourceInstance')] = lambda: Dictionary.current
for _name, _pos in POS.items():
    RT.static[('POS', _name)] = _pos
RT.require('graphbrain.hg.sqlite')
RT.require('graphbrain.kr.wordnet')


def build(case):
    synsets = [Synset(i, pos, lemmas) for i, (pos, lemmas, _) in enumerate(case)]
    for i, (_, _, links) in enumerate(case):
        for kind, t in links:
            t = t % (i if kind == 'type' else len(synsets)) if i or kind != 'type' else None
            if t is not None and synsets[t] not in synsets[i].links.get(kind, []):
                synsets[i].links.setdefault(kind, []).append(synsets[t])
    return synsets


def symbol(word, memo):
    if word not in memo:
        name = ''.join('_' if c in '/ ()' else c for c in word.getLemma().lower())
        above = word.getSynset().links.get('type', [])
        memo[word] = '%s/WN%s' % (name, hashed('%s %s' % (name, ' '.join(symbol(w, memo) for w in above[0].words) if above else '')))
    return memo[word]


def facts_of(synsets):
    memo = {}
    out = set()
    for s in synsets:
        main = symbol(s.words[0], memo)
        for w in s.words:
            me = symbol(w, memo)
            if me != main:
                out.add(('synonym/1', main, me))
            out |= {('type_of/1', me, symbol(t.words[0], memo)) for t in s.links.get('type', [])}
            out.add(('pos/1', me, s.pos.name.lower() + '/1'))
        for kind, rel, turn in (('part', 'part_of/1', True), ('opposite', 'antonym/1', False), ('also', 'related/1', False)):
            for t in s.links.get(kind, []):
                pair = (main, symbol(t.words[0], memo))
                out.add((rel,) + (pair[::-1] if turn else pair))
    return out


def imported(case, rec):
    dictionaries, again = case
    RT.load(os.path.join(cljhg.SRC, 'graphbrain', 'kr', 'wordnet.clj'))      # so that cases do not depend on the ones before
    for n, each in enumerate(dictionaries):
        synsets = build(each)
        with store() as path:
            hg = Hg(path)
            beliefs = Beliefs()
            for e in facts_of(synsets):
                beliefs.add(e, 'wordnet/1')
            for _ in range(1 + again):
                Dictionary.current = Dictionary(synsets)
                with contextlib.redirect_stdout(io.StringIO()):
                    cljhg.fn('graphbrain.kr.wordnet', 'import!')(hg.hg)
                got = all_edges(hg)
                expect(got == beliefs.edges, 'dictionary %d: missing %r, unexpected %r', n, sorted(beliefs.edges - got, key=repr)[:4], sorted(got - beliefs.edges, key=repr)[:4])
        rec.nontrivial(any(len(x[1]) > 1 for x in each) and any(s.links.get('type') for s in synsets))
        rec.label('synsets %s' % min(len(each), 10))


def failed(case, rec):
    """An import after one that failed half way."""
    first, n, second = case
    RT.load(os.path.join(cljhg.SRC, 'graphbrain', 'kr', 'wordnet.clj'))
    broken = build(first)[:n]

    def rest():
        yield from (s for s in broken if s.pos.name == 'NOUN')
        raise clj.JEx('java.lang.RuntimeException', 'the dictionary cannot be read')
    lost = Dictionary(broken)
    lost.getSynsetIterator = lambda pos: Forward(rest())
    run = cljhg.fn('graphbrain.kr.wordnet', 'import!')
    with contextlib.redirect_stdout(io.StringIO()):
        with store() as path:
            Dictionary.current = lost
            try:
                run(Hg(path).hg)
            except clj.JEx:
                pass
        synsets = build(second)
        beliefs = Beliefs()
        for e in facts_of(synsets):
            beliefs.add(e, 'wordnet/1')
        with store() as path:
            hg = Hg(path)
            Dictionary.current = Dictionary(synsets)
            run(hg.hg)
            got = all_edges(hg)
    expect(got == beliefs.edges, 'after an import that failed: missing %r, unexpected %r', sorted(beliefs.edges - got, key=repr)[:4], sorted(got - beliefs.edges, key=repr)[:4])
    rec.nontrivial(n > 0)


class Forward:
    """An iterator that reads as it goes."""
    java_class = 'java.util.Iterator'

    def __init__(self, items):
        self.hasNext, self.next = lambda: True, lambda: next(items)


NAME = st.sampled_from(['dog', 'Dog', 'domestic dog', 'cat', 'run', 'x(1)', 'a/b', '24/7', '7', 'St. Bernard', "o'clock", 'caf\u00e9'])
LINK = st.tuples(st.sampled_from(['type', 'type', 'type', 'part', 'opposite', 'also']), st.integers(0, 20))
SYNSET = st.tuples(st.sampled_from(['NOUN', 'NOUN', 'VERB', 'ADJECTIVE', 'ADVERB']), st.lists(NAME, min_size=1, max_size=3, unique=True), st.lists(LINK, max_size=4))
SMALL = st.lists(SYNSET, min_size=1, max_size=7)


@st.composite
def large(draw):
    """About as many facts as are written at once."""
    n = draw(st.sampled_from([99, 100, 101, 102, 202]))
    out = [('NOUN', ['word%d' % i], []) for i in range(n)]
    for i in range(draw(st.integers(0, 2))):
        out[i + 1] = ('NOUN', ['word%d' % i], [('type', 0)])
    return out


PROPS = [
    Prop('imported', st.tuples(st.lists(SMALL, min_size=1, max_size=2), st.booleans()), imported, quick=60, thorough=1500, examples=[(([('NOUN', ['dog'], []), ('NOUN', ['cat'], []), ('NOUN', ['run'], []), ('VERB', ['a/b'], []), ('NOUN', ['7'], []), ('NOUN', ['Dog', 'x(1)'], [('type', i) for i in range(5)] + [('part', i) for i in range(5)] + [('also', i) for i in range(5)] + [('opposite', i) for i in range(5)])],), True)]),
    Prop('batches', st.tuples(st.tuples(large()), st.just(False)), imported, quick=4, thorough=30, examples=[(([('NOUN', ['word%d' % i], []) for i in range(101)],), False), (([],), False)]),
    Prop('failed', st.tuples(SMALL, st.integers(1, 7), SMALL), failed, quick=15, thorough=300),
]
