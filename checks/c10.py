"""The topics of a page: the graph of its words, the most important ones, the n-grams of them and what they mean."""
import contextlib
import io

from hypothesis import strategies as st

import c02
import clj
import cljhg
import cljpages
import gen
from c01 import store
from c06 import load, meanings
from c07 import all_edges
from clj import get, kw
from cljhg import from_clj, to_clj
from vf import Prop, expect, expect_eq

RT = cljhg.runtime()
cljpages.install(RT)
RT.require('graphbrain.hg.sqlite')
RT.require('graphbrain.kr.pagereader')

RULE = ('Cases are texts of up to 9 sentences with up to 25 different nouns and adjectives, some much more frequent than others, as a page that is read into a hypergraph that knows meanings of some. '
        'Non-trivial: an n-gram has two words.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc and math.combinatorics', 'pages are texts with a sentence per line, with words separated by spaces and tagged by a table '
               '(lib/cljpages.py): HTML, the extraction of the main text and the Stanford tools are not run', 'of words with the same pagerank any may be among the top ones', 'n-grams that neither are part of another nor have a part may be topics or not']
DAMP = 0.85


def quiet(ns, name, *args):
    with contextlib.redirect_stdout(io.StringIO()):
        return cljhg.fn('graphbrain.' + ns, name)(*args)


def ident(w):
    return (w[':word'], w[':pos'], w[':lemma'])


def relevant(w):
    return w[1][0] in 'NJ'


def runs(words, sentences):
    out = set()
    for s in sentences:
        run = []
        for w in list(s) + [None]:
            if w in words:
                run.append(w)
            elif run:
                out.add(tuple(run))
                run = []
    return out


def part_of(a, b):
    return len(a) < len(b) and any(b[i:i + len(a)] == a for i in range(len(b)))


def topics(case, rec):
    known, lines = case
    sentences = [[c02.word(x) for x in line] for line in lines]
    url, html = 'http://example.com/a?b=c', '\n'.join(' '.join(line) for line in lines)
    words = [w for s in sentences for w in s]
    # the graph of words that are near to each other
    near = {}
    if len(words) >= 10:
        for i, a in enumerate(words):
            for b in words[i + 1:i + 10]:
                if relevant(a) and relevant(b):
                    near.setdefault(a, set()).add(b)
                    near.setdefault(b, set()).add(a)
    parsed = cljpages.sentences(html)
    g = quiet('kr.wordgraph', 'words->prgraph', cljpages.plist(cljpages.flat(parsed)))
    nodes = [(from_clj(e.t[0]), get(e.t[1], kw('pr'))) for e in clj.seq_iter(g)]
    pr = {ident(k): v for k, v in nodes}
    expect(set(pr) == set(near), 'words of %r: missing %r, unexpected %r', html, sorted(set(near) - set(pr))[:4], sorted(set(pr) - set(near))[:4])
    expect_eq(len(nodes), len(near), 'number of words')
    for w in near:
        want = (1 - DAMP) / len(near) + DAMP * sum(pr[x] / len(near[x]) for x in near[w])
        slack = DAMP * sum(0.001 / len(near[x]) for x in near[w]) + 1e-9
        expect(abs(pr[w] - want) <= slack, 'pagerank of %r: %r, but those of its neighbours give %r', w, pr[w], want)
    order = [v for _, v in nodes]
    expect(order == sorted(order, reverse=True), 'words are not in the order of their pagerank: %r', order[:8])
    # the top words
    tops = quiet('kr.wordgraph', 'prgraph->topwords', g)
    top = {ident(from_clj(w)) for w in tops or ()}
    expect_eq(len(top), len(near) // 5, 'number of top words of %d' % len(near))
    expect(top <= set(near), 'top words that are no words')
    if top and len(top) < len(near):
        low, high = min(pr[w] for w in top), max(pr[w] for w in near if w not in top)
        expect(low >= high, 'a top word has the pagerank %r, but another one that is none has %r', low, high)
    # n-grams
    want = runs(top, sentences)
    ngrams = quiet('kr.ngrams', 'topwords->ngrams', tops, parsed)
    got = [tuple(ident(w) for w in from_clj(get(n, kw('words')))) for n in ngrams or ()]
    expect_eq(sorted(got), sorted(want), 'n-grams of %r with %r' % (html, sorted(top)))
    scored = quiet('kr.ngrams', 'html->ngrams', html)
    last = None
    seen = []
    for n in scored or ():
        n = from_clj(n)
        ws = tuple(ident(w) for w in n[':words'])
        seen.append(ws)
        mean = sum(pr[w] for w in ws) / len(ws)
        expect(abs(n[':score'] - mean) < 1e-9, 'score of %r: %r, expected %r', ws, n[':score'], mean)
        expect(last is None or last <= n[':score'], 'n-grams are not sorted')
        last = n[':score']
    expect_eq(sorted(seen), sorted(want), 'scored n-grams')
    graph = quiet('kr.ngrams', 'html->ngrams-graph', html)
    arcs = {(a, b) for a in want for b in want if part_of(b, a)}
    for at, turn in ((':out', False), (':in', True)):
        found = set()
        for e in clj.seq_iter(graph):
            me = tuple(ident(w) for w in from_clj(get(e.t[0], kw('words'))))
            expect(me in want, '%r is no n-gram', me)
            for other in clj.seq_iter(get(e.t[1], kw(at[1:]))):
                them = tuple(ident(w) for w in from_clj(get(other.t[0], kw('words'))))
                found.add((them, me) if turn else (me, them))
        expect(found == arcs, 'parts of n-grams: missing %r, unexpected %r', sorted(arcs - found)[:2], sorted(found - arcs)[:2])
    # what the page is about
    text = ' '.join('%s %s' % (w[0], w[2]) for w in near)
    must = {n for arc in arcs for n in arc}
    with store() as path:
        hg, model = load(path, known)
        before = all_edges(hg)
        cljpages.PAGES[url] = html
        quiet('kr.pagereader', 'extract-knowledge!', hg.hg, url)
        new = all_edges(hg) - before
    facts = {e for e in new if e[0] == 'has_topic/1'}
    expect(new - facts == {('src/1', e, 'pagereader/1') for e in facts}, 'beliefs of %r: %r', html, sorted(new - facts, key=repr)[:4])
    left = {n: options(model, n, text) for n in want}
    for e in facts:
        expect(len(e) == 3 and e[1] == url and isinstance(e[2], str), '%r is not a topic', e)
        fit = [n for n in left if (e[2] in left[n] if left[n] is not None else e[2].startswith(name(n) + '/WN?'))]
        expect(fit, '%r is not what any n-gram of %r means: %r', e[2], html, sorted(left))
        for n in fit:
            left.pop(n)
    expect(not (set(left) & must), '%r is missing among the topics %r', sorted(set(left) & must)[:2], sorted(facts, key=repr)[:4])
    rec.nontrivial(any(len(n) > 1 for n in want))
    rec.label('topics %s, parts %s' % (min(len(facts), 4), min(len(arcs), 3)))


def name(ngram):
    return ''.join('_' if c in '/ ()' else c for c in ' '.join(w[0] for w in ngram))


def options(model, ngram, text):
    return meanings(model, name(ngram), text)


MAIN = st.sampled_from(['dogs', 'cats', 'big', 'tree', 'a/b'])
REST = st.sampled_from(['word%d' % i for i in range(20)])
FILL = st.sampled_from(['the', 'is', 'in', '.', 'and', ','])
ANY = gen.pick(MAIN, MAIN, MAIN, REST, REST, REST, FILL, FILL)
LONG = st.lists(st.lists(ANY, min_size=4, max_size=9), min_size=5, max_size=9)
LINES = gen.pick(st.lists(st.lists(ANY, min_size=1, max_size=9), max_size=9), LONG, LONG, LONG)
KNOWN = st.lists(st.sampled_from([('is/1', 'dogs/WN1', 'pet/1'), ('is/1', 'dogs/WN2', 'tree/1'), ('is/1', 'big_dogs/WN1', 'x/1'), ('in/1', 'tree/WN.n', 'dogs/WN1'), ('is/1', 'cats/1', 'pet/1'), ('is/1', 'big_dogs_cats/WN', 'cats/WN3'),
                                  ('is/1', 'dogs_tree/WN1', 'y')]), max_size=5, unique_by=repr)
DENSE = ['big dogs the word0 is word1 in word2'.split(), 'dogs and word3 in word4'.split(), 'the big dogs is word5'.split(), 'big dogs in word6 and word7 . dogs is word8 in'.split()]
PROPS = [Prop('topics', st.tuples(KNOWN, LINES), topics, quick=80, thorough=1500, examples=[([('is/1', 'big_dogs/WN1', 'x/1')], DENSE), ([], []), ([], [['dogs', 'is', 'big']])])]
