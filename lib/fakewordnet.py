"""Writes WordNet databases (the files of Princeton WordNet) and has NLTK read them, in the place of the corpus, which is not here.

A database is a list of synsets: {'pos': n|v|a|s|r, 'lemmas': [(name, marker)], 'pointers': [(symbol, target, source lemma, target lemma)]},
where target is an index in the list, and lemmas are numbered from 1 (0, 0 for a pointer between synsets)."""
import os

FILES = {'n': 'noun', 'v': 'verb', 'a': 'adj', 's': 'adj', 'r': 'adv'}
FILE_POS = {'noun': 'n', 'verb': 'v', 'adj': 'a', 'adv': 'r'}


class Proxy:
    """Stands for nltk.corpus.wordnet."""
    current = None

    def __getattr__(self, name):
        if Proxy.current is None:
            raise LookupError('no corpus')
        return getattr(Proxy.current, name)


PROXY = Proxy()


def install():
    """Before gb.readers.wordnet is imported."""
    import nltk.corpus
    nltk.corpus.wordnet = PROXY


def reader(root):
    import nltk.data
    from nltk.corpus.reader.wordnet import WordNetCorpusReader
    nltk.data.path[:] = [root]      # NLTK only reads what is below its data directories

    class Reader(WordNetCorpusReader):
        def map_wn(self, version='wordnet'):
            return None     # maps to another corpus, for other languages
    return Reader(root, None)


def write(root, synsets, reverse=False):
    """Returns the offset of each synset in its file."""
    with open(os.path.join(root, 'lexnames'), 'w') as f:
        f.write('00\tall\t3\n')
    for name in ('cntlist.rev', 'index.sense', 'adj.exc', 'adv.exc', 'noun.exc', 'verb.exc'):
        open(os.path.join(root, name), 'w').close()
    header = '  1 This is a generated database.\n  2 WordNet 3.0 Copyright nobody.\n'

    def line(s, offset_of, own):
        words = ' '.join('%s%s 0' % (name, marker) for name, marker in s['lemmas'])
        ptrs = ''.join(' %s %08d %s %02x%02x' % (sym, offset_of(t), synsets[t]['pos'], a, b) for sym, t, a, b in s['pointers'])
        frames = ' 01 + 08 00' if s['pos'] == 'v' else ''
        return '%08d 00 %s %02x %s %03d%s%s | a gloss; "an example"  \n' % (own, s['pos'], len(s['lemmas']), words, len(s['pointers']), ptrs, frames)

    offsets = {}
    for suffix in FILE_POS:
        at = len(header)
        for i, s in enumerate(synsets):
            if FILES[s['pos']] == suffix:
                offsets[i] = at
                at += len(line(s, lambda t: 0, 0).encode('utf8'))
    for suffix, pos in FILE_POS.items():
        mine = [(i, s) for i, s in enumerate(synsets) if FILES[s['pos']] == suffix]
        with open(os.path.join(root, 'data.' + suffix), 'wb') as f:
            f.write(header.encode())
            for i, s in mine:
                assert f.tell() == offsets[i]
                f.write(line(s, offsets.get, offsets[i]).encode('utf8'))
        index = {}
        for i, s in mine:
            for name, _ in s['lemmas']:
                senses = index.setdefault(name.lower(), [])
                if offsets[i] not in senses:
                    senses.append(offsets[i])
        with open(os.path.join(root, 'index.' + suffix), 'wb') as f:
            f.write(header.encode())
            for name in sorted(index):
                senses = index[name][::-1] if reverse else index[name]
                f.write(('%s %s %d 0 %d 0 %s  \n' % (name, pos, len(senses), len(senses), ' '.join('%08d' % o for o in senses))).encode('utf8'))
    return offsets
