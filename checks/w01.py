"""Importing WordNet writes exactly its content as sourced facts."""
from hypothesis import strategies as st

import fakewordnet
import gen
from model import Model, agree, apply_real, canon, close, same_edges, sqlite_hg
from vf import Prop, expect, quiet, scratch_dir

fakewordnet.install()

RULE = ('Cases are WordNet databases (1 to 8 synsets, or hundreds, of all parts of speech, with related lemmas and all kinds of pointers between synsets '
        'and lemmas), written in the format of Princeton WordNet, read by NLTK and imported. The store is compared to what the database says. '
        'Non-trivial: there are pointers between synsets and between lemmas, and a synset with two lemmas.')
ASSUMPTIONS = ['the corpus reader of NLTK reads its files right, and names synsets']
SOURCE = 'wordnet/gb'

SYNSET_RELS = {'@': 'hypernym/gb', '@i': 'instance_hypernym/gb', '%m': 'member_meronym/gb', '=': 'attribute/gb', '*': 'entailment/gb', '>': 'cause/gb',
               '^': 'also_see/gb', '$': 'verb_group/gb', '&': 'similar_to/gb'}
LEMMA_RELS = {'!': 'antonym/gb', '\\': 'pertainym/gb', '+': 'derivationally_related_form/gb'}
OTHERS = ['~', '~i', '#m', '#s', '#p', '%s', '%p', ';c', '-c', '<']
POS = {'n': 'noun/gb', 'v': 'verb/gb', 'a': 'adjective/gb', 's': 'adjective/gb', 'r': 'adverb/gb'}

NAMES = ['dog', 'Dog', 'domestic_dog', 'cat', 'run', 'good', 'bad', "'hood", "o'clock", '24/7', '7', '1.5', 'St._Bernard', 'x-ray', 'a_cappella', 'A', 'a',
         'caf\u00e9', 'C++', 'be', '401-k', 'Ph.D.', 'dog.n', 'wn']


@st.composite
def databases(draw, most=8):
    n = draw(st.integers(1, most))
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=2, max_size=8, unique=True))
    name = gen.pick(st.sampled_from(pool), st.sampled_from(pool), st.text('abcdeXY_-\'.', min_size=1, max_size=6).filter(lambda s: s.strip('.') != '' and not s.startswith('(')))
    synsets = []
    for _ in range(n):
        pos = draw(st.sampled_from('nnnvvasr'))
        names = draw(st.lists(name, min_size=1, max_size=4, unique=True))
        marker = st.sampled_from(['', '', '(p)', '(a)', '(ip)']) if pos in 'as' else st.just('')
        synsets.append({'pos': pos, 'lemmas': [(x, draw(marker)) for x in names], 'pointers': []})
    heads = [i for i, s in enumerate(synsets) if s['pos'] == 'a']
    for s in synsets:
        if s['pos'] == 's' and not heads:
            s['pos'] = 'r'
        for _ in range(draw(st.integers(0, 4))):
            t = draw(st.integers(0, n - 1))
            kind = draw(st.integers(0, 5))
            if kind < 3:
                p = (draw(st.sampled_from(sorted(SYNSET_RELS))), t, 0, 0)
            elif kind == 3:
                p = (draw(st.sampled_from(OTHERS)), t, 0, 0)
            else:
                # lexical pointers; those of the kind that is for synsets do not count
                symbol = draw(st.sampled_from(sorted(LEMMA_RELS) * 3 + ['^', '$', ';c', '-c']))
                p = (symbol, t, draw(st.integers(1, len(s['lemmas']))), draw(st.integers(1, len(synsets[t]['lemmas']))))
            if p[0] == '&' and s['pos'] == 's':
                p = ('&', draw(st.sampled_from(heads)), 0, 0)     # a satellite is similar to its heads
            if p not in s['pointers']:
                s['pointers'].append(p)
        if s['pos'] == 's' and not any(p[0] == '&' for p in s['pointers']):
            s['pointers'].append(('&', draw(st.sampled_from(heads)), 0, 0))
    return {'synsets': synsets, 'reverse': draw(st.booleans())}


def facts(case, names):
    synsets = case['synsets']

    def symbol(i, lemma):
        return '%s/wn.%s' % (synsets[i]['lemmas'][lemma - 1][0], names[i])
    out = []
    for i, s in enumerate(synsets):
        out.append(('pos/gb', symbol(i, 1), POS[s['pos']]))
        out += [('synonym/gb', symbol(i, 1), symbol(i, k)) for k in range(2, len(s['lemmas']) + 1)]
        for sym, t, a, b in s['pointers']:
            if a == 0 and sym in SYNSET_RELS:
                out.append((SYNSET_RELS[sym], symbol(i, 1), symbol(t, 1)))
            if a > 0 and sym in LEMMA_RELS:
                out.append((LEMMA_RELS[sym], symbol(i, a), symbol(t, b)))
    return list(dict.fromkeys(out))


def note(case, rec):
    ptrs = [p for s in case['synsets'] for p in s['pointers']]
    for p in ptrs:
        kind = SYNSET_RELS.get(p[0]) if p[2] == 0 else LEMMA_RELS.get(p[0])
        rec.label('pointer: %s' % (kind or 'of another kind'))
    rec.nontrivial(any(p[2] == 0 and p[0] in SYNSET_RELS for p in ptrs) and any(p[2] and p[0] in LEMMA_RELS for p in ptrs)
                   and any(len(s['lemmas']) > 1 for s in case['synsets']))


def run(case, rec, before=(), again=True):
    import gb.readers.wordnet as wordnet
    note(case, rec)
    with scratch_dir() as d:
        offsets = fakewordnet.write(d, case['synsets'], case['reverse'])
        fakewordnet.Proxy.current = fakewordnet.reader(d)
        other = fakewordnet.reader(d)
        names = {i: other.synset_from_pos_and_offset(s['pos'], offsets[i]).name() for i, s in enumerate(case['synsets'])}
        hg = sqlite_hg()
        try:
            model = Model()
            for op in before:
                apply_real(hg, op)
                model.apply(op)
            want = facts(case, names)
            for e in want:
                model.add(e)
                model.add(('src/1', e, SOURCE))
            for time in ('', 'imported again: ')[:1 + again]:
                with quiet():
                    wordnet.read(hg)
                same_edges(hg.pattern2edges((None,) * 3), model.pattern((None,) * 3), time + 'edges in the store')
                for n in (2, 4, 5):
                    same_edges(hg.pattern2edges((None,) * n), model.pattern((None,) * n), time + 'edges in the store')
            for e in want[:20]:
                got = hg.sources(e)
                expect(got == {SOURCE}, 'sources(%r) is %r', e, got)
            if len(want) < 40:
                vs = {canon(x): x for e in want for x in e + (e,)}
                agree(hg, model, list(vs.values()), want)
        finally:
            close(hg)
            fakewordnet.Proxy.current = None


def kept(case, rec):
    """What was in the store stays there."""
    run(case['database'], rec, case['ops'], again=False)


@st.composite
def stores(draw):
    db = draw(databases(4))
    other = draw(gen.history(max_ops=4, ops=gen.simple_ops, max_arity=3, max_edges=4))
    return {'database': db, 'ops': other['ops']}


def large(case, rec):
    """More facts than a buffer has place for."""
    n, width = case
    synsets = []
    for i in range(n):
        pos = 'nvar'[i % 4]
        synsets.append({'pos': pos, 'lemmas': [('w%s_%s' % (i % 50, k), '') for k in range(1 + i % width)],
                        'pointers': [('@', (i * 7 + 1) % n, 0, 0), ('!', (i * 3) % n, 1, 1)]})
    # one with many pointers of each kind
    synsets[0]['pos'] = 'a'
    synsets[0]['pointers'] = [(p, t, 0, 0) for p in sorted(SYNSET_RELS) for t in range(1, 10 * width)] + [(p, t, 1, 1) for p in sorted(LEMMA_RELS) for t in range(1, 10 * width)]
    run({'synsets': synsets, 'reverse': False}, rec, again=False)


PROPS = [
    Prop('import', databases(), run, 450, 8000),
    Prop('kept', stores(), kept, 120, 2000),
    Prop('large', st.tuples(st.sampled_from([150, 300]), st.integers(1, 4)), large, 6, 24, examples=[(700, 3)]),
]
