"""Stand-ins for what reads pages of the web (clj-http, jsoup, boilerpipe, the tokenizer of Stanford): a page is
the text that PAGES has for its address, with one sentence per line, whose words are tagged by Words/fromString."""
import cljhg
from clj import Seq, Vec, kw, pmap, plist

PAGES = {}


def sentences(html):
    return plist([cljhg.fn('graphbrain.eco.words', 'str->words')(line) for line in html.split('\n') if line.strip()])


def flat(x):
    out = []
    for e in x:
        out += flat(e) if isinstance(e, (Seq, Vec)) else [e]
    return out


def install(rt):
    rt.hosts['graphbrain.kr.webtools'] = {'slurp-url': lambda url: PAGES[url]}
    rt.hosts['graphbrain.kr.meat'] = {'extract-meat': lambda html: html, 'extract-meat-url': lambda url: PAGES[url]}
    rt.hosts['graphbrain.kr.htmltools'] = {'html->jsoup': lambda html: html, 'jsoup->title': lambda html: '', 'html->text+tags': lambda html: pmap([(kw('text'), html), (kw('text-parts'), Vec(html.split('\n'))), (kw('tags'), Vec())])}
    rt.hosts['graphbrain.kr.nlptools'] = {'html->sentences': sentences, 'sentences->words': lambda s: plist(flat(s)), 'html->words': lambda html: plist(flat(sentences(html)))}
