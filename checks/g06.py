"""Extraction is a deterministic function of each parse."""
import contextlib
import io

import golden
import parses
from hypothesis import strategies as st
from vf import Prop, expect, expect_eq, quiet

RULE = ('Cases are texts of several sentences with generated dependency trees (N01) and the annotated sentences of the existing tests. Results are compared between extractors, texts, orders, sets of stages, debugging, '
        'with and without punctuation, and under renaming of words. Non-trivial: two or more sentences give different results, one of them with nested edges (runs of one sentence: it has a nested edge).')
ASSUMPTIONS = ['the language model is replaced by prepared documents of spaCy']

STAGES = ('alpha', 'beta', 'gamma', 'delta', 'epsilon')


def same(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(map(same, a, b))
    return type(a) is type(b) and a == b


def texts_of(docs):
    return parses.prepare(docs)


def outputs(ex):
    return [str(x) for x in ex.outputs]


def run(case, rec):
    """Texts of several sentences, read by one extractor, against each sentence read alone by a new one."""
    from gb.knowledge.extractor import Extractor
    docs, debug = case
    flat = [s for d in docs for s in d]
    names = texts_of(docs + [[s] for s in flat])
    alone, alone_outputs = [], []
    for n in names[len(docs):]:
        ex = Extractor(None)
        r = ex.read_text(n)
        expect(len(r) == 1, 'a sentence gives %s results', len(r))
        alone.append(r[0])
        alone_outputs.append(outputs(ex))
        expect(len(ex.outputs) == len(STAGES), 'there are %s outputs', len(ex.outputs))
        expect(outputs(ex)[-1] == str(r[0]), 'the last output is %r, the result %r', outputs(ex)[-1], r[0])
    one = Extractor(None)
    for order in (range(len(docs)), reversed(range(len(docs)))):
        for d in order:
            at = sum(len(x) for x in docs[:d])
            one.debug = debug
            with quiet():
                got = one.read_text(names[d])
            want = alone[at:at + len(docs[d])]
            expect(isinstance(got, list) and len(got) == len(want) and all(map(same, got, want)), 'text %s gives %r, expected %r', d, got, want)
            expect(outputs(one) == alone_outputs[at + len(want) - 1], 'the outputs are %r, expected %r', outputs(one), alone_outputs[at + len(want) - 1])
    rec.nontrivial(len(set(map(str, alone))) > 1 and any(isinstance(x, tuple) and any(isinstance(y, tuple) for y in x) for x in alone))


def sentence(case, rec):
    """One sentence: sets of stages, the hypergraph, debugging."""
    from gb.knowledge.extractor import Extractor
    from model import sqlite_hg, close
    s, n = case
    (name,) = texts_of([[s]])
    full = Extractor(None)
    (want,) = full.read_text(name)
    part = Extractor(None, stages=STAGES[:n])
    (got,) = part.read_text(name)
    expect(outputs(part) == outputs(full)[:n], 'with the stages %r the outputs are %r, expected %r', STAGES[:n], outputs(part), outputs(full)[:n])
    expect(str(got) == outputs(full)[n - 1], 'with the stages %r the result is %s, expected %s', STAGES[:n], got, outputs(full)[n - 1])
    default = Extractor(None, stages=list(STAGES))
    expect(same(default.read_text(name)[0], want), 'with all stages given, the result is another one')
    hg = sqlite_hg()
    try:
        hg.add(('is', 'a', ('b', 'c')), timestamp=1)
        before = sorted(map(str, hg.f_all(lambda v: (v['vertex'], v['degree']))))
        ex = Extractor(hg)
        expect(same(ex.read_text(name)[0], want), 'with a hypergraph, the result is another one')
        seen = sorted(map(str, hg.f_all(lambda v: (v['vertex'], v['degree']))))
        expect(seen == before, 'the hypergraph was changed: %r', seen)
    finally:
        close(hg)
    out = io.StringIO()
    ex = Extractor(None)
    ex.debug = True
    with contextlib.redirect_stdout(out):
        (got,) = ex.read_text(name)
    expect(same(got, want), 'while debugging, the result is %r, expected %r', got, want)
    for line in outputs(full):
        expect(line in out.getvalue(), 'debugging does not show %r: %r', line, out.getvalue())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        Extractor(None).read_text(name)
    expect(out.getvalue() == '', 'without debugging, it prints %r', out.getvalue())
    rec.nontrivial(isinstance(want, tuple) and any(isinstance(x, tuple) for x in want))


def without(s, drop):
    """The sentence without some subtrees."""
    gone = set()
    for i in range(len(s)):
        k, path = i, []
        while True:
            if k in drop:
                gone.add(i)
            if s[k][4] == k:
                break
            k = s[k][4]
    keep = [i for i in range(len(s)) if i not in gone]
    at = {i: n for n, i in enumerate(keep)}
    return [s[i][:4] + (at[s[i][4]],) + s[i][5:] for i in keep]


def punctuation(case, rec):
    from gb.knowledge.extractor import Extractor
    s, mask, more = case
    marks = [i for i in range(len(s)) if s[i][3] in ('punct', '')]
    some = set(m for k, m in enumerate(marks) if mask >> (k % 12) & 1)
    less = without(s, some)
    # another mark at the end, as the last child of the root
    root = parses.root_of(less)
    end = less + [(w, w, 'PUNCT', 'punct', root, '', True) for w in more]
    names = texts_of([[s], [less], [end]])
    results = []
    for n in names:
        ex = Extractor(None)
        results.append((ex.read_text(n)[0], outputs(ex)))
    for what, r in (('without some punctuation', results[1]), ('with more punctuation', results[2])):
        expect(same(r[0], results[0][0]) and r[1] == results[0][1], '%s, %r gives %r, and %r before', what, [t[0] for t in s], r[0], results[0][0])
    rec.nontrivial(len(less) < len(s))


def renaming(case, rec):
    from gb.knowledge.extractor import Extractor
    s, = case
    words = sorted(set(t[0].lower().strip() for t in s))

    def renamed(prefix):
        return [('%s%sx' % (prefix, words.index(t[0].lower().strip())),) + t[1:] for t in s]
    results = []
    for n in texts_of([[renamed('qa')], [renamed('zb')]]):
        ex = Extractor(None)
        results.append((ex.read_text(n)[0], outputs(ex)))

    def change(x):
        return tuple(map(change, x)) if isinstance(x, tuple) else x.replace('qa', 'zb')
    expect(same(change(results[0][0]), results[1][0]), 'the result is %r, with other words %r', results[0][0], results[1][0])
    expect([x.replace('qa', 'zb') for x in results[0][1]] == results[1][1], 'the outputs are %r, with other words %r', results[0][1], results[1][1])
    rec.nontrivial(isinstance(results[0][0], tuple) and any(isinstance(x, tuple) for x in results[0][0]))


EDGES = [
    ('might_be/?', ('some/1', ('of/1', 'subspecies/1', 'mosquito/1')), ('1st/1', ('to_be_genetically/?', 'wiped_out/?'))),
    ('is_going_to/?', 'telmo/1', 'gym/1'),
    (('influenced_due_to/?', 'is_by/?'), ('its/1', ('in/1', 'location/1', 'european_plain/?')), 'berlin/1', ('temperate/1', ('seasonal/1', 'climate/1'))),
    (('is/1', 'of/1'), ('koikuchi_shoyu/?', ('best_known_as/?', 'soy_sauce/?')), ('in/1', 'mother/1', 'japan/1'), ('all/1', 'sauces/1')),
    ('is_third/?', 'sweden/1', ('largest/1', ('in/1', ('by/1', 'country/1', 'area/1'), 'european_union/?'))),
    (('wants_to_fight/?', 'with/1'), 'sweden/1', ('our/1', ('disposable/1', 'culture/1')), (('for_repairing/?', ('old/1', 'stuff/1')), 'tax_breaks/?')),
    (('is/1', 'of/1'), 'opencola/1', 'brand/1', (('open/1', 'source/1', 'cola/1'), ('where_are/?', ('for_making/?', 'instructions/1'), 'it/1',
                                                                                 ('freely/1', ('and/1', ('available/1', 'modifiable/1')))))),
    ('is_awarded_to/?', ('2016/1', ('in/1', 'nobel_prize/?', ('or/1', ('physiology/1', 'medicine/1')))), 'yoshinori_ohsumi/?'),
]


def annotated(case, rec):
    """The sentences of the existing tests, in any order and with any other sentence between them."""
    from gb.knowledge.extractor import Extractor
    order, between = case
    ex = Extractor(None)
    doc = []
    for k in order:
        doc += [golden.GOLDEN[k][0]] + ([between] if between else [])
    names = texts_of([doc] + [[golden.GOLDEN[k][0]] for k in order])
    got = ex.read_text(names[0])
    for n, k in enumerate(order):
        r = got[n * (2 if between else 1)]
        expect(same(r, EDGES[k]), 'sentence %s gives %r, expected %r', k, r, EDGES[k])
        expect_eq(len(ex.read_text(names[1 + n])), 1, 'number of results')
        for stage, have, want in zip(STAGES, outputs(ex), golden.GOLDEN[k][1:]):
            expect(have == want, 'the %s stage of sentence %s gives %r, expected %r', stage, k, have, want)
    rec.nontrivial()


def unknown(name, rec):
    from gb.knowledge.extractor import Extractor
    (text,) = texts_of([[golden.GOLDEN[1][0]]])
    for stages in ((name,), ('alpha', name)):
        try:
            got = Extractor(None, stages=stages).read_text(text)
        except Exception:
            continue
        expect(False, 'there is no stage %r, and the result is %r', name, got)
    rec.nontrivial()


PUNCT = ['punct', 'punct', ''] + parses.ARGS + parses.NEST + ['prep', 'prep', 'pobj', 'compound']

PROPS = [
    Prop('annotated', st.tuples(st.permutations(range(8)), st.one_of(st.none(), parses.sentences(max_tokens=4))), annotated, 24, 200),
    Prop('texts', st.tuples(st.lists(parses.texts(max_tokens=7), min_size=1, max_size=3), st.booleans()), run, 900, 15000),
    Prop('sentence', st.tuples(parses.sentences(max_tokens=8), st.integers(1, 5)), sentence, 900, 15000),
    Prop('punctuation', st.tuples(parses.sentences(max_tokens=9, deps=PUNCT), st.integers(0, 4095), st.lists(st.sampled_from(['.', '!', '?', '...']), max_size=2)),
         punctuation, 1500, 25000),
    Prop('renaming', st.tuples(st.one_of(parses.sentences(max_tokens=8), parses.sentences(max_tokens=8), parses.merges(max_tokens=8))), renaming, 1800, 30000),
    Prop('long', st.tuples(st.lists(st.lists(parses.wide(), min_size=1, max_size=2), min_size=1, max_size=2), st.booleans()), run, 60, 600),
    Prop('unknown', st.sampled_from(['zeta', '', 'Alpha', 'betas', 'epsilon ']), unknown, 6, 12),
]
