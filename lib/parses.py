"""Dependency parses: generated sentences as spaCy documents, given to the code in the place of the statistical model.

A sentence is a list of tokens (word, lemma, pos, dep, head, entity, space), with the index of the head in the sentence (its own for the root)."""
from hypothesis import strategies as st

NEST = ['aux', 'auxpass', 'cc', 'agent', 'det', 'advmod', 'amod', 'poss', 'nummod']
FIRST = ['pcomp', 'compound']
ARGS = ['nsubj', 'dobj', 'pobj', 'attr', 'conj', 'advcl', 'relcl', 'acomp', 'xcomp', 'nsubjpass', 'acl', 'appos', 'mark', 'neg', 'prt', 'dep', 'npadvmod']
DEPS = NEST + FIRST + ARGS + ['prep', 'punct', '']
POS = ['VERB', 'NOUN', 'ADJ', 'ADV', 'ADP', 'PART', 'DET', 'PRON', 'PROPN', 'NUM', 'PUNCT', 'AUX', 'CCONJ', 'INTJ', 'SPACE', 'X', '']
ENTITIES = ['', 'ORG', 'PERSON', 'GPE']

# usual words of each part of speech
WORDS = {
    'VERB': ['is', 'going', 'Likes', 'been', 'wiped'], 'NOUN': ['gym', 'brand', 'Ice', 'culture', 'tax'], 'ADJ': ['old', 'soft', 'European'],
    'ADV': ['freely', 'very', 'out'], 'ADP': ['in', 'of', 'to', 'Due'], 'PART': ['to', "'s", 'not'], 'DET': ['the', 'a', 'An', 'some', 'all', 'The'],
    'PRON': ['it', 'who'], 'PROPN': ['Berlin', 'NASA', 'Yoshinori'], 'NUM': ['2016', '1979', '3.5', 'two'], 'PUNCT': ['.', ',', '-', '(', ')', '"'],
    'AUX': ['might', 'be'], 'CCONJ': ['and', 'or'], 'INTJ': ['oh'], 'SPACE': ['\n', '  ', '\u00a0', '\u3000', '\r\n'], 'X': ['etc', 'http://x.org/a', '/', '\u00e9t\u00e9', '\U0001f9e0'], '': ['zzz'],
}
# the parts of speech that usually go with a dependency
LIKELY = {'aux': ['AUX', 'VERB', 'PART'], 'auxpass': ['VERB', 'AUX'], 'cc': ['CCONJ'], 'agent': ['ADP'], 'det': ['DET'], 'advmod': ['ADV'], 'amod': ['ADJ'],
          'poss': ['ADJ', 'PRON', 'NOUN'], 'nummod': ['NUM'], 'pcomp': ['ADP', 'VERB'], 'compound': ['NOUN', 'PROPN'], 'nsubj': ['NOUN', 'PROPN', 'PRON'],
          'dobj': ['NOUN'], 'pobj': ['NOUN', 'PROPN'], 'prep': ['ADP', 'PART', 'VERB'], 'xcomp': ['VERB', 'ADJ'], 'advcl': ['VERB'], 'relcl': ['VERB'],
          'acomp': ['ADJ'], 'conj': ['NOUN', 'VERB', 'ADJ'], 'punct': ['PUNCT'], 'attr': ['NOUN'], 'neg': ['PART', 'ADV'], 'prt': ['PART', 'ADP']}

WEIGHTED = NEST * 2 + FIRST * 2 + ['prep'] * 6 + ['nsubj', 'dobj', 'pobj', 'pobj', 'xcomp', 'advcl', 'attr'] * 2 + ARGS + ['punct', 'punct', '']


@st.composite
def heads(draw, n):
    """A projective tree over n tokens: the index of the head of each one."""
    out = [0] * n

    def build(lo, hi, parent):
        # one subtree for lo..hi-1
        h = draw(st.integers(lo, hi - 1))
        out[h] = h if parent is None else parent
        split(lo, h, h)
        split(h + 1, hi, h)

    def split(lo, hi, parent):
        while lo < hi:
            mid = draw(st.integers(lo + 1, hi))
            build(lo, mid, parent)
            lo = mid
    build(0, n, None)
    return out


def lemma_of(word):
    return word.lower()


def homographs(draw, toks):
    """Now and then, the same few words for different parts of speech."""
    if draw(st.integers(0, 5)):
        return toks
    few = draw(st.sampled_from([['like', 'to'], ['to', 'Like', 'like'], ['back', 'like', 'is', 'Back']]))
    out = []
    for t in toks:
        word = draw(st.sampled_from(few))
        out.append((word, lemma_of(word) if t[1] == lemma_of(t[0]) else t[1]) + tuple(t[2:]))
    return out


@st.composite
def sentences(draw, max_tokens=10, deps=WEIGHTED, wild=True, unique=False):
    n = draw(st.integers(1, max_tokens))
    hs = draw(heads(n))
    toks = []
    for i in range(n):
        dep = 'ROOT' if hs[i] == i else draw(st.sampled_from(deps))
        if wild and draw(st.integers(0, 5)) == 0:
            pos = draw(st.sampled_from(POS))
        elif dep == 'ROOT':
            pos = draw(st.sampled_from(['VERB', 'VERB', 'VERB', 'NOUN', 'ADJ', 'AUX']))
        else:
            pos = draw(st.sampled_from(LIKELY.get(dep, ['NOUN', 'VERB', 'ADJ', 'ADV', 'ADP'])))
        word = '%s%s' % (draw(st.sampled_from('abcdW')), i) if unique else draw(st.sampled_from(WORDS[pos]))
        if unique and pos == 'DET':
            word = ['the', 'a', 'an', 'some', 'all'][draw(st.integers(0, 4))] + '' if draw(st.booleans()) else word
        lemma = lemma_of(word) if draw(st.integers(0, 9)) else draw(st.sampled_from(['the', 'be', 'go', '-PRON-', 'a']))
        ent = draw(st.sampled_from(ENTITIES)) if pos in ('NOUN', 'PROPN', 'NUM', 'ADJ') and draw(st.booleans()) else ''
        toks.append((word, lemma, pos, dep, hs[i], ent, draw(st.booleans())))
    # runs of a same entity, as recognisers give them
    if n > 1 and draw(st.booleans()):
        a = draw(st.integers(0, n - 1))
        b = min(n, a + draw(st.integers(1, 3)))
        ent = draw(st.sampled_from(ENTITIES[1:]))
        toks = [t[:5] + ((ent if a <= i < b else t[5]),) + t[6:] for i, t in enumerate(toks)]
    return toks if unique else homographs(draw, toks)


def texts(max_sentences=3, **kw):
    return st.lists(sentences(**kw), min_size=1, max_size=max_sentences)


_nlp = []


def nlp():
    if not _nlp:
        import spacy
        lang = spacy.blank('en')
        lang.tokenizer = Tokenizer(lang.vocab)
        _nlp.append(lang)
        spacy.load = lambda name, **kwargs: lang
        try:
            import spacy.util
            spacy.util.load_model = lambda name, **kwargs: lang
        except ImportError:
            pass
    return _nlp[0]


class Tokenizer:
    """Gives the document that was prepared for a text."""

    def __init__(self, vocab):
        self.vocab = vocab
        self.docs = {}

    def __call__(self, text):
        if text in self.docs:
            return make_doc(self.docs[text])
        raise AssertionError('no parse was prepared for %r' % text)


def make_doc(sents):
    from spacy.tokens import Doc
    toks, hs, ents = [], [], []
    for s in sents:
        base = len(toks)
        for i, t in enumerate(s):
            hs.append(base + t[4])
            prev = s[i - 1][5] if i else ''
            ents.append('O' if not t[5] else ('I-' if prev == t[5] else 'B-') + t[5])
            toks.append(t)
    return Doc(nlp().vocab, words=[t[0] for t in toks], spaces=[t[6] for t in toks], heads=hs, deps=[t[3] for t in toks],
               pos=[t[2] for t in toks], lemmas=[t[1] for t in toks], ents=ents)


def prepare(docs):
    """docs: list of texts, each one a list of sentences. Returns the strings to parse."""
    tok = nlp().tokenizer
    tok.docs = {'text %s' % i: d for i, d in enumerate(docs)}
    return sorted(tok.docs, key=lambda t: int(t.split()[1]))


def parse(docs, parser=None):
    """What Parser.parse_text() gives for each text."""
    names = prepare(docs)
    from gb.nlp.parser import Parser
    parser = parser or Parser()
    return [parser.parse_text(n) for n in names]


def children(sent, i):
    left = [k for k in range(len(sent)) if sent[k][4] == i and k < i]
    right = [k for k in range(len(sent)) if sent[k][4] == i and k > i]
    return left, right


def root_of(sent):
    return [i for i, t in enumerate(sent) if t[4] == i][0]


def linear(root):
    """(token, head) in the order of the words of a tree of (token, left, right); the head of the root is None."""
    out = []

    def put(node, head):
        t, left, right = node
        me = [None]
        for k in left:
            put(k, me)
        me[0] = len(out)
        out.append((t, head))
        for k in right:
            put(k, me)
    put(root, None)
    return out


@st.composite
def wide(draw, most=90):
    """Long sentences in which no relationship is at the root, so that no stage takes long for them."""
    n = draw(st.integers(20, most))
    root = draw(st.integers(0, n - 1))
    at = draw(st.lists(st.integers(0, n - 1), max_size=6))
    out = []
    for i in range(n):
        word = draw(st.sampled_from(['gym', 'tax', 'Ice', 'w%s' % i]))
        dep, pos = ('ROOT', 'NOUN') if i == root else draw(st.sampled_from([('dobj', 'NOUN'), ('conj', 'NOUN'), ('compound', 'PROPN'), ('amod', 'ADJ'), ('punct', 'PUNCT'), ('prep', 'ADP')])) if i in at or i % 3 else ('appos', 'NOUN')
        if dep in ('compound', 'amod', 'prep') and i not in at:
            dep = 'conj'
        out.append((word, word.lower(), pos, dep, root, draw(st.sampled_from(ENTITIES)) if i in at else '', True))
    return out


@st.composite
def merges(draw, max_tokens=9):
    """Sentences with relationships of several words, whose arguments have relationships."""
    count = [0]
    unique = draw(st.booleans())

    def token(pos, dep):
        count[0] += 1
        word = 'w%s' % count[0] if unique else draw(st.sampled_from(WORDS[pos]))
        return (word, lemma_of(word), pos, dep)

    def relation(dep, level):
        pos = draw(st.sampled_from(['VERB', 'VERB', 'ADP', 'PART', 'ADV']))
        t = token(pos, dep)
        left, right = [], []

        def put(kid):
            (left if draw(st.booleans()) else right).append(kid)
        # other words of the relationship
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            if count[0] < max_tokens - 1:
                put(relation(draw(st.sampled_from(['pcomp', 'pcomp', 'aux'])), 0) if draw(st.integers(0, 4)) else relation('pcomp', level - 1) if level > 1 else relation('pcomp', 0))
        for _ in range(draw(st.integers(1, 3)) if level else 0):
            if count[0] < max_tokens:
                dep = draw(st.sampled_from(['dobj', 'pobj', 'nsubj', 'xcomp', 'advcl', 'prep', 'prep']))
                put(relation(dep, level - 1) if draw(st.booleans()) else (token(draw(st.sampled_from(['NOUN', 'PROPN', 'ADJ'])), dep), [], []))
        return (t, left, right)

    out = linear(relation('ROOT', 3))
    out = [t + (i if head is None else head[0], '', True) for i, (t, head) in enumerate(out)]
    return out if unique else homographs(draw, out)


@st.composite
def phrases(draw, deps=WEIGHTED, depth=3, rel=True, max_tokens=14):
    """Sentences built from the root down: few tokens have no dependents, and relationships are frequent."""
    count = [0]

    def token(dep):
        if rel and draw(st.booleans()):
            pos = draw(st.sampled_from(['VERB', 'VERB', 'ADP', 'ADP', 'ADV', 'PART']))
        else:
            pos = draw(st.sampled_from(LIKELY.get(dep, ['NOUN', 'VERB', 'ADJ', 'ADP'])))
        word = draw(st.sampled_from(WORDS[pos]))
        return [word, lemma_of(word), pos, dep]

    def build(dep, level):
        count[0] += 1
        t = token(dep)
        left, right = [], []
        for _ in range(draw(st.integers(0 if level < depth else 1, 3)) if level else 0):
            if count[0] < max_tokens:
                kid = build(draw(st.sampled_from(deps)), level - 1)
                (left if draw(st.booleans()) else right).append(kid)
        return (t, left, right)

    out = linear(build('ROOT', depth))
    ent = draw(st.sampled_from(['', '', 'ORG']))
    return homographs(draw, [(t[0], t[1], t[2], t[3], i if head is None else head[0], ent if t[2] in ('PROPN', 'NOUN') else '', True) for i, (t, head) in enumerate(out)])
