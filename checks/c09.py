"""What a user types in the web interface: how it is answered, what is stored, and how it is shown."""
import contextlib
import io

from hypothesis import strategies as st

import c02
import c03
import c06
import clj
import cljhg
import cljpages
import cljweb
import gen
from c01 import store
from c06 import load
from c07 import all_edges
from cljhg import from_clj, to_clj
from model import canon
from vf import Prop, expect, expect_eq

RT = cljhg.runtime()
cljweb.install(RT)
cljpages.install(RT)
RT.require('graphbrain.hg.sqlite')
RT.require('graphbrain.kr.pagereader')
RT.require('graphbrain.web.handlers.input')
RT.require('graphbrain.web.handlers.eco')

RULE = ('Cases are a hypergraph, the vertex of the page and what was typed: sentences, names to search, lists of names to intersect, and addresses. '
        'Non-trivial: an edge was stored; for pages, a word has a character that is special in HTML.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc, math.combinatorics, hiccup and ring; words are tagged by a table instead of the Stanford tagger',
               'any of the parses with the highest weight may be the one that is taken', 'reading pages of the web is replaced by a function that records the address',
               'requests have a root that is not empty']


def guessed(want, got, model, text):
    """Each word has the meaning that the text gives it (C06)."""
    if isinstance(want, tuple):
        return isinstance(got, tuple) and len(got) == len(want) and all(guessed(a, b, model, text) for a, b in zip(want, got))
    if not c06.is_concept(want):
        return canon(got) == canon(want)
    can = c06.meanings(model, want, text)
    if can is None:
        return isinstance(got, str) and got.startswith(''.join('_' if c in '/ ()' else c for c in want.lower()) + '/WN?')
    return got in can


def parses(sentence, root, user):
    found = c02.parses_of(c02.CHAT, [c02.word(x) for x in sentence.split()], {'root': root, 'user': user}) if sentence.split() else []
    return None if found is None else c02.best(found)


def is_root(x):
    return x.startswith(('http://', 'https://')) or '/' not in x


def about(edge):
    """The vertex to go to."""
    return about(edge[1]) if edge[0] == 'edges/1' else edge[1]


def typed(case, rec):
    edges, root, sentence = case
    url = ' ' not in sentence and sentence.startswith(('http://', 'https://'))
    mode = ':intersect' if sentence.startswith('x ') and not url else ':search'
    q = sentence[1:].strip() if mode == ':intersect' else sentence
    want = None if url else parses(q, root, 'user/1')
    if want is None and not url:
        return rec.label('too many parses')
    with store() as path:
        hg, model = load(path, edges)
        before = all_edges(hg)
        read = []
        var = RT.ns('graphbrain.kr.pagereader').vars['extract-knowledge!']
        real, var.root = var.root, lambda h, u: read.append(u)
        try:
            got = from_clj(cljweb.edn(c03.handle('input', hg, {'form-params': {'sentence': sentence, 'root': root}})))
        finally:
            var.root = real
        found = {} if url else c03.results(model, q)
        new = set()
        kind = got[':type']
        rec.label(kind)
        expect_eq(read, [sentence] if url else [], 'addresses that were read')
        if url:
            expect_eq(got, {':type': ':url', ':gotoid': sentence}, 'reply to %r' % sentence)
        elif found:
            expect_eq((kind, got[':mode']), (':search', mode), 'reply to %r' % sentence)
            c03.same_results(got[':results'], found, 'search of %r' % sentence)
        else:
            facts = [w for w in want if isinstance(w, tuple)]
            defs = [w for w in facts if w[0] == 'is/eco' and is_root(root)]
            if kind == ':error':
                expect(len(facts) < len(want) or not want, '%r was not understood, but is %r', q, facts[:2])
                expect(set(got) == {':type', ':msg'} and isinstance(got[':msg'], str) and got[':msg'], 'reply to %r: %r', q, got)
            elif kind == ':def':
                expect(defs, '%r was taken for a definition, but is %r', q, want[:3])
                expect_eq(got, {':type': ':def', ':root-id': root, ':rel': 'type_of/1'}, 'reply to %r' % q)
            else:
                expect_eq((kind, set(got), len(got[':newedges'])), (':fact', {':type', ':newedges', ':gotoid'}, 1), 'reply to %r' % q)
                edge = got[':newedges'][0]
                expect(any(guessed(w, edge, model, q) for w in facts if w not in defs), '%r became %r, expected %r', q, edge, want[:3])
                expect_eq(got[':gotoid'], about(edge), 'where %r leads to' % q)
                new = {edge, ('src/1', edge, 'user/1')}
                rec.nontrivial(True)
        after = all_edges(hg)
        expect(after == before | new, 'after %r: missing %r, unexpected %r', sentence, sorted((before | new) - after, key=repr)[:3], sorted(after - before - new, key=repr)[:3])


def squeezed(s):
    return sorted(s)


def shown(case, rec):
    """The page about the parses of a sentence."""
    edges, words = case
    sentence = ' '.join(words)
    root = '561852ced99a782d/europe'
    found = c02.parses_of(c02.CHAT, [c02.word(x) for x in words], {'root': root, 'user': 'eco/1'}) if words else []
    if found is None or len(found) > 60:
        return rec.label('too many parses')
    with store() as path:
        hg, model = load(path, edges)
        before = all_edges(hg)
        what = 'page of %r' % sentence
        page = c03.parse(c03.handle('eco', hg, {'form-params': {'input-field': sentence}}), what)
        plain = ['noun' if set(w) & set('<>&"\'') else w for w in words]
        c03.same_tags(page, c03.parse(c03.handle('eco', hg, {'form-params': {'input-field': ' '.join(plain)}}), what), what)
        expect(all_edges(hg) == before, '%s changed the hypergraph', what)
    expect_eq(cljweb.data_of(page)[0], 'eco', 'ptype')
    tagged = [c02.word(x) for x in words]
    body = page.texts.get('eco-section', '')
    head = ' '.join('/'.join(w) for w in tagged)
    expect(body.startswith(head), '%s begins with %r, expected %r', what, body[:200], head)
    body = body[len(head):]
    best = c02.best(found) if found else []
    ok = not best
    for w in best:
        line = w if isinstance(w, str) else c03.text(w)
        if body.startswith(line):
            if isinstance(w, str):
                ok = True
                continue
            part = body[len(line):]
            # an edge has as many closing parentheses as opening ones
            for i in range(1, len(part) + 1):
                if part[i - 1] == ')' and part[:i].count('(') == part[:i].count(')'):
                    ok = ok or guessed(w, from_clj(cljhg.fn('graphbrain.hg.edge', 'str->edge')(part[:i])), model, sentence)
                    break
    expect(ok, '%s: %r does not begin with any of %r and the edge of it', what, body[:300], best[:3])
    expect_eq(page.texts.get('eco-weight', ''), ''.join(str(p[1]) for p in sorted(found, key=lambda p: -p[1])), '%s: weights of the parses' % what)
    expect_eq(squeezed(page.texts.get('eco-vertex', '')), squeezed(''.join(p[0] if isinstance(p[0], str) else c03.text(p[0]) for p in found)), '%s: parses' % what)
    rec.nontrivial(any(set(w) & set('<>&"\'') for w in words) and bool(found))
    rec.label('parses %s' % min(len(found), 5))


def empty(case, rec):
    with store() as path:
        hg, model = load(path, [])
        page = c03.parse(c03.handle('eco', hg, {'form-params': {} if case is None else {'input-field': case}}), 'eco page')
    expect_eq((cljweb.data_of(page)[0], page.texts.get('eco-section', '')), ('eco', ''), 'eco page')
    rec.nontrivial(True)


KNOWN = st.lists(st.sampled_from([('is/1', 'dogs/WN1', 'pet/1'), ('type_of/1', 'dogs/WN1', 'animal/1'), ('is/1', 'dogs/WN2', 'x/1'), ('is/1', 'paris/WN.2', 'city/1'), ('likes/1', 'dogs/WN2', 'cats/1'), ('likes/1', 'dogs/WN3', 'mary/1'), ('is/1', 'cats/WN1', 'pet/1'), ('is/1', 'cats/WN2', 'tree/1'), ('in/1', 'tree/1', 'paris/WN.2'),
                                  ('is/1', 'big_dog/1', 'dogs/WN1'), ('says/1', 'u/1', ('is/1', 'cats', 'dogs/WN1'))]), max_size=6, unique_by=repr)
ROOT = st.sampled_from(['berlin/1', 'dog', 'dogs', 'http://a.com/b', 'dogs/WN1'])
ADDRESS = st.sampled_from(['http://a.com', 'https://a.com/x?y=z', 'http://a.com/b', 'https:/a', 'xhttp://a'])
WORDS = c02.FORM.map(' '.join)
SENTENCE = gen.pick(WORDS, WORDS, WORDS, WORDS, st.tuples(ADDRESS, st.sampled_from(['', ' is big', ' likes dogs', ' ', ' cats', '.'])).map(''.join), st.tuples(st.sampled_from(['x ', 'x', ' x ', 'X ']), WORDS).map(''.join), st.sampled_from(['dogs', 'Dogs', 'big dog', 'Paris', 'x dogs', 'x  big dog ', 'x', 'x nothing', 'x cats likes dogs', 'xdogs',
                    'https://a.com/x?y=z', 'http://a.com', 'http://a.com is big', 'cats', '.', '<b> is big', 'a"b likes \\c']))
SPECIAL = st.sampled_from(['<b>', '"q"', 'a&amp;b', '</div>', "'s", '<script>', 'R&D'])


@st.composite
def odd(draw):
    words = list(draw(c02.FORM))
    for _ in range(draw(st.integers(0, 2))):
        nouns = [i for i, w in enumerate(words) if w in c02.NOUNS]
        if nouns:
            words[draw(st.sampled_from(nouns))] = draw(SPECIAL.filter(lambda s: s != "'s"))
    return words


PROPS = [
    Prop('typed', st.tuples(KNOWN, ROOT, SENTENCE), typed, quick=250, thorough=5000, examples=[([], 'dog', 'Mary likes dogs : Rex'), ([], 'berlin/1', 'dogs is cats'), ([('is/1', 'dogs/WN1', 'pet/1'), ('has/1', 'dogs/WN1'), ('likes/1', 'dogs/WN2', 'mary/1')], 'berlin/1', 'Mary likes dogs'), ([('is/1', 'dogs/WN1', 'pet/1')], 'a', 'x dogs'), ([], 'a', 'http://a.com')]),
    Prop('shown', st.tuples(KNOWN, odd()), shown, quick=100, thorough=2500, examples=[([], ['<b>', 'likes', 'cats'])]),
    Prop('empty', st.sampled_from([None, '']), empty, quick=2, thorough=2),
]
