"""The web server: what a page says, and the data it gives to the interface, is what the hypergraph has."""
import itertools
import re

from hypothesis import strategies as st

import clj
import cljhg
import cljweb
import gen
from c01 import plain, store
from c06 import NET, SEEDS, VERT, is_concept, joined, load
from clj import kw, pr
from cljhg import Hg, from_clj, to_clj
from model import Model, canon
from vf import Prop, expect, expect_eq

RT = cljhg.runtime()
cljweb.install(RT)
RT.require('graphbrain.hg.sqlite')
for name in ('nodepage', 'intersect', 'raw', 'search', 'edgedata', 'home'):
    RT.require('graphbrain.web.handlers.' + name)

RULE = ('Cases are hypergraphs with symbols of all kinds of characters, and a request for a page or for data about one of their vertices. Non-trivial: the answer has edges, and a character that '
        'is special in HTML, in JavaScript or in the encoding of the data.')
ASSUMPTIONS = ['the Clojure code is run by an interpreter of the harness (lib/clj.py), over stand-ins for java.jdbc, math.combinatorics, hiccup and ring (lib/cljweb.py)',
               'pages are read by the HTML parser of Python, string literals as JavaScript reads them, and data by the decoder of the interface (encoder.cljs)',
               'requests are given to the handlers; routes are not tested', 'the ids of frames and the order of what a set has are free', 'the vertices that pages are about are symbols, and what edges begin with are symbols or edges']


def handle(name, hg, request):
    return cljhg.fn('graphbrain.web.handlers.' + name, 'handle')(to_request(request), hg.hg)


def to_request(d):
    """Maps with keywords, but for the parameters."""
    out = []
    for k, v in d.items():
        if k in ('form-params', 'query-params'):
            v = clj.pmap([(n, to_clj(x)) for n, x in v.items()])
        elif isinstance(v, dict):
            v = to_request(v)
        out.append((kw(k), v))
    return clj.pmap(out)


def shown(x):
    """symbol->str"""
    return clj.tostr(to_clj(x)) if not is_concept(x) else x.split('/')[0].replace('_', ' ')


def kind(x):
    return ':edge' if isinstance(x, tuple) else ':integer' if isinstance(x, int) else ':float' if isinstance(x, float) else ':concept' if is_concept(x) else ':url'


def visual(x):
    """What the interface gets to know of a vertex."""
    d = {':id': clj.tostr(to_clj(x)), ':type': kind(x)}
    if kind(x) == ':concept':
        d.update({':text': shown(x), ':sub': 'description'})
    elif kind(x) == ':url':
        d.update({':text': x, ':url': x, ':icon': 'http://www.google.com/s2/favicons?domain=' + x})
    else:
        d[':text'] = clj.tostr(to_clj(x))
    return d


def text(e):
    return cljhg.fn('graphbrain.hg.edge', 'edge->str')(to_clj(e))


def frozen(x):
    if isinstance(x, dict):
        return tuple(sorted((k, frozen(v)) for k, v in x.items()))
    return tuple(frozen(e) for e in x) if isinstance(x, (tuple, list)) else (type(x).__name__, x)


def frames(model, root):
    """The edges of the root, by relation and place: each shows the vertex at the other place."""
    out = {}
    for e in model.star(root):
        if len(e) > 2:
            for pos in (0, 1):
                if canon(e[1 + pos]) != canon(root):
                    out.setdefault((canon(e[0]), pos), (e[0], [])).__getitem__(1).append((e[1 + pos], e))
    res = {}
    for (c, pos), (rel, items) in out.items():
        rel_text, root_text = shown(rel), 'web page' if kind(root) == ':url' else shown(root)
        label = rel_text + ' ' + root_text if pos == 0 else root_text + ' ' + rel_text
        res[c, pos] = frozen({':etype': rel, ':rpos': pos, ':label': label, ':nodes': sorted(frozen(dict(visual(x), **{':edge': text(e)})) for x, e in items)})
    return res


def special(*xs):
    return bool(set(''.join(str(x) for x in xs)) & set('<>&"\'\\#'))


def types(model, x):
    """summaries/label: any order."""
    ts = [shown(e[2]) for e in model.pattern(('type_of/1', x, None))]
    return ['?'] if not ts else [', '.join(p) for p in itertools.permutations(ts)] if len(ts) < 6 else None


def parse(html, what):
    expect(isinstance(html, str), '%s: not a page: %r', what, html)
    return cljweb.Page(html)


def same_tags(page, plain_page, what, extra=()):
    got = [t for t, _ in page.tags]
    want = [t for t, _ in plain_page.tags] + list(extra)
    expect(sorted(got) == sorted(want), '%s: the elements of the page are not those of the same page without special characters: %r', what, sorted(set(got)) if set(got) - set(want) else len(got))


def nodepage(case, rec):
    edges, root, dev = case
    with store() as path:
        hg, model = load(path, edges)
        page = parse(handle('nodepage', hg, {'route-params': {'*': root}, 'dev': dev}), 'page of %r' % root)
        same_tags(page, parse(handle('nodepage', hg, {'route-params': {'*': 'nothing/1'}, 'dev': dev}), 'page'), 'page of %r' % root)
        expect_eq(page.texts.get('title'), shown(root) + ' - Graphbrain', 'title')
        expect_eq(page.texts.get('np-title'), shown(root), 'name in the page')
        labels = types(model, root)
        expect(labels is None or page.texts.get('np-desc') in labels, 'types of %r: %r, expected one of %r', root, page.texts.get('np-desc'), labels)
        ptype, data = cljweb.data_of(page)
        expect_eq(ptype, 'node', 'ptype')
        got = from_clj(data)
        expect_eq(set(got), {':root-id', ':snodes'}, 'data')
        expect_eq(got[':root-id'], root, 'root-id')
        want = frames(model, root)
        res = {}
        for sid, s in got[':snodes'].items():
            expect(isinstance(sid, str) and re.fullmatch(r'\w+', sid), 'the id of a frame is %r', sid)
            res[canon(s[':etype']), s[':rpos']] = frozen({':etype': s[':etype'], ':rpos': s[':rpos'], ':label': s[':label'], ':nodes': sorted(frozen(n) for n in s[':nodes'])})
        expect(set(res) == set(want) and len(res) == len(got[':snodes']), 'frames of %r: %r, expected %r', root, sorted(res, key=repr), sorted(want, key=repr))
        for k in want:
            expect(res[k] == want[k], 'frame %r of %r:\n%r\nexpected\n%r', k, root, res[k], want[k])
        rec.nontrivial(bool(want) and special(root, edges))
        rec.label('frames %s' % min(len(want), 4))


def raw(case, rec):
    edges, root, dev = case
    with store() as path:
        hg, model = load(path, edges)
        page = parse(handle('raw', hg, {'route-params': {'*': root}, 'dev': dev}), 'raw page of %r' % root)
        star = model.star(root)
        same_tags(page, parse(handle('raw', hg, {'route-params': {'*': 'nothing/1'}, 'dev': dev}), 'page'), 'raw page of %r' % root, ['br'] * len(star))
        expect_eq(page.texts.get('title'), root + ' - Graphbrain', 'title')
        body = page.texts.get('span12', '')
        head = 'Vertex: ' + root
        expect(body.startswith(head), 'raw page of %r: %r', root, body)
        want = sorted(text(e) for e in star)
        expect_eq(len(body), len(head) + len(''.join(want)), 'length of the raw page of %r: %r' % (root, body))
        for w in want:
            expect(w in body[len(head):], 'raw page of %r: %r is not in it', root, w)
        rec.nontrivial(bool(star) and special(root, edges))


def results(model, q):
    return {s: ['%s (%s)' % (shown(s), t) for t in types(model, s) or []] for s in model.symbols_with_root(''.join('_' if c in '/ ()' else c for c in q.lower()))}


def same_results(got, want, what):
    expect_eq(sorted(r[0] for r in got), sorted(want), what)
    for s, label in got:
        expect(label in want[s] or not want[s], '%s: %r is %r, expected one of %r', what, s, label, want[s])


def search(case, rec):
    edges, q, mode = case
    with store() as path:
        hg, model = load(path, edges)
        want = results(model, q)
        got = from_clj(cljweb.edn(handle('search', hg, {'form-params': {'q': q, 'mode': mode}})))
        expect_eq((got[':type'], got[':mode']), (':search', ':' + mode), 'reply')
        same_results(got[':results'], want, 'search of %r' % q)
        rec.nontrivial(bool(want))
        for s in sorted(model.symbols_with_root(q))[:2] + [q]:
            got = from_clj(cljweb.edn(handle('edgedata', hg, {'form-params': {'id': s, 'edge': 'x'}})))
            same_results(got[':results'], results(model, shown(s)), 'meanings of %r' % s)


def intersect(case, rec):
    edges, seeds = case
    with store() as path:
        hg, model = load(path, edges)
        page = parse(handle('intersect', hg, {'query-params': {'id%d' % i: s for i, s in enumerate(seeds)}}), 'intersection')
        ptype, data = cljweb.data_of(page)
        expect_eq(ptype, 'intersect', 'ptype')
        got = from_clj(data)
        want = joined(model, seeds)[0].values()
        expect_eq(set(got), {':vertices', ':links', ':seeds'}, 'data')
        expect_eq(list(got[':seeds']), seeds, 'seeds')
        verts = {canon(x): frozen(visual(x)) for e in want for x in e[1:]}
        expect_eq(sorted(frozen(v) for v in got[':vertices']), sorted(verts.values()), 'vertices that join %r' % (seeds,))
        links = {canon(p) for e in want for p in itertools.combinations(e[1:], 2)}
        expect_eq({canon(p) for p in got[':links']}, links, 'links that join %r' % (seeds,))
        rec.nontrivial(bool(want) and len(seeds) > 1)


def home(case, rec):
    page = parse(cljhg.fn('graphbrain.web.handlers.home', 'handle')(to_request({'dev': case})), 'home')
    expect_eq(page.texts.get('title'), 'Home - Graphbrain', 'title')
    expect_eq(cljweb.data_of(page), ('landing', None), 'data')
    rec.nontrivial(True)


def decoding(s, rec):
    """What the encoder makes, the interface reads back, within a script of a page."""
    code = "var data='" + cljhg.fn('graphbrain.web.encoder', 'encode')('{' + s) + "';"
    page = cljweb.Page('<html><script>' + code + '</script></html>')
    expect_eq(page.scripts, [code], 'the script')
    expect_eq(cljweb.decode(cljweb.js_vars(code)['data']), '{' + s, 'decoded')
    rec.nontrivial(special(s))


ROOTS = ['dog', 'a_b', 'caf\u00e9', '\u4e2d\u6587', '<b>', '"q"', 'it\'s', 'a&amp;b', '</script>', '\\', 'C#', '#1', '<!--', 'f(x)', "##'1"]
SYMS = st.one_of(st.sampled_from(ROOTS), st.tuples(st.sampled_from(ROOTS), st.sampled_from(['1', 'wn.1', '<i>', '"', '\\n'])).map('/'.join), st.sampled_from(['dog/1', 'dog/2', 'is/1', 'is_1']),
                 st.text(st.sampled_from('ab<>&"\'\\#1/!-'), min_size=1, max_size=6).filter(lambda s: plain(s) and gen.valid_symbol(s) and all(s.split('/')) and not re.fullmatch('[0-9.-]+', s)))
LEAF = st.one_of(SYMS, SYMS, SYMS, st.sampled_from(['http://example.com/a?b=c&d=<e>', "https://e.org/it's"]), st.sampled_from([7, -1, 2.5]))
RELS = st.sampled_from(['is/1', 'is_1', 'type_of/1', 'type_of/1', '\u662f/1', '\u6709/1', '<has>', "'s"])
FEW = st.lists(LEAF, min_size=2, max_size=4, unique_by=canon)


@st.composite
def webs(draw):
    pool = draw(FEW)
    root = next((x for x in pool if is_concept(x)), 'dog')
    pool = pool + [root, root]
    v = st.sampled_from(pool)
    edge = st.one_of(st.tuples(RELS, v, v), st.tuples(RELS, v, v), st.tuples(RELS, v), st.tuples(RELS, v, v, v), st.tuples(v, v, v).filter(lambda e: isinstance(e[0], str)), st.tuples(RELS, st.tuples(RELS, v, v), v),
                     st.tuples(st.tuples(RELS, v), v, v))
    edges = [e for e in draw(st.lists(edge, min_size=1, max_size=6)) if e[0] != 'type_of/1' or len(e) < 3 or is_concept(e[2])]
    if draw(st.booleans()):
        edges.append(('type_of/1', root, draw(SYMS)))
    return edges or [('is/1', root, root)], draw(st.sampled_from([root, root, root] + [x for x in pool if isinstance(x, str)])), draw(st.sampled_from([None, True, False]))


QUERY = st.sampled_from(['dog', 'Dog', 'a b', 'a_b', 'C#', 'c#', '"q"', 'zz', '</SCRIPT>'])
FOUND = st.lists(st.tuples(st.sampled_from(['type_of/1', 'is/1']), st.sampled_from(['dog/1', 'dog/2', 'a_b/1', 'c#/1', '"q"/x', 'dogs/1', '<_script>/1']), st.sampled_from(
    ['animal/1', 'pet', 'big_"animal"', 'x\\y', 'dog/1'])), min_size=1, max_size=7)

PROPS = [
    Prop('nodepage', webs(), nodepage, quick=70, thorough=1500, examples=[([('is/1', 'dog'), ('is/1', 'dog', 'pet'), ('is_1', 'dog', 'x'), ('is/1', 'a"b', 'dog')], 'dog', None), ([('type_of/1', 'dog', '<b>'), ('type_of/1', 'dog', 'a&amp;b/1')], 'dog', True)]),
    Prop('raw', webs(), raw, quick=40, thorough=800),
    Prop('search', st.tuples(FOUND, QUERY, st.sampled_from(['search', 'intersect', 'edge'])), search, quick=40, thorough=800),
    Prop('intersect', st.tuples(NET, SEEDS), intersect, quick=40, thorough=800),
    Prop('home', st.sampled_from([None, True, False]), home, quick=3, thorough=3),
    Prop('decoding', st.text(st.sampled_from('ab"\'\\#1n</script>!- \u00e9'), max_size=14), decoding, quick=200, thorough=3000),
]
