"""Stand-ins for what the web handlers of the Clojure code are made of: hiccup 1.0.5 (html, html5, h)
and ring's redirect; and the other end, as the browser does it: the HTML parser, the string literals of
JavaScript and the decoder of the interface."""
import os
import re
from html.parser import HTMLParser

import cljhg
from clj import Kw, PMap, Reader, Seq, Unsupported, Vec, pmap, kw, plist, seq_iter, tostr
from vf import REPO, Violation

VOID = {'area', 'base', 'br', 'col', 'command', 'embed', 'hr', 'img', 'input', 'keygen', 'link', 'meta', 'param', 'source', 'track', 'wbr'}


def escape(x):
    return tostr(x).replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def name_of(x):
    return x.name if isinstance(x, Kw) else tostr(x)


def attribute(k, v):
    if v is True:
        return ' %s="%s"' % (name_of(k), name_of(k))
    if v is None or v is False:
        return ''
    return ' %s="%s"' % (name_of(k), escape(name_of(v) if isinstance(v, Kw) else v))


def render(x):
    if x is None:
        return ''
    if isinstance(x, Vec):
        if not x.t or not isinstance(x.t[0], (Kw, str)):
            raise Unsupported('hiccup: %s is not a valid element name' % (x,))
        m = re.fullmatch(r'([^\s.#]+)(?:#([^\s.#]+))?(?:\.([^\s#]+))?', name_of(x.t[0]))
        if m is None:
            raise Unsupported('hiccup: tag %s' % name_of(x.t[0]))
        attrs = [(kw(n), v.replace('.', ' ')) for n, v in (('id', m.group(2)), ('class', m.group(3))) if v]
        body = list(x.t[1:])
        if body and isinstance(body[0], PMap):
            own = list(body[0].d.values())
            attrs = [a for a in attrs if a[0] not in [k for k, _ in own]] + own
            body = body[1:]
        elif body and body[0] is None:
            body = body[1:]
        start = '<' + m.group(1) + ''.join(sorted(attribute(k, v) for k, v in attrs))
        if not body and m.group(1) in VOID:
            return start + ' />'
        return start + '>' + ''.join(render(b) for b in body) + '</%s>' % m.group(1)
    if isinstance(x, Seq):
        return ''.join(render(b) for b in seq_iter(x))
    return name_of(x)


def html(*body):
    if body and isinstance(body[0], PMap):
        body = body[1:]
    return ''.join(render(b) for b in body)


def html5(*body):
    attrs = pmap([])
    if body and isinstance(body[0], PMap):
        attrs, body = body[0], body[1:]
    return '<!DOCTYPE html>\n' + render(Vec([kw('html'), attrs] + list(body)))


def install(rt):
    rt.hosts['hiccup.core'] = {'html': html, 'h': escape}
    rt.hosts['hiccup.util'] = {'escape-html': escape}
    rt.hosts['hiccup.page'] = {'html5': html5}
    rt.hosts['ring.util.response'] = {'redirect': lambda url: pmap([(kw('status'), 302), (kw('headers'), pmap([('Location', url)])), (kw('body'), '')])}


class Page(HTMLParser):
    """tags: (tag, attributes) in order. text: of each element with a class or an id, and title. script: the scripts."""
    def __init__(self, text):
        HTMLParser.__init__(self, convert_charrefs=True)
        self.tags, self.texts, self.open, self.scripts = [], {}, [], []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.tags.append((tag, tuple(attrs)))
        if tag not in VOID:
            d = dict(attrs)
            self.open.append((tag, d.get('class') or d.get('id') or tag))
            if tag == 'script':
                self.scripts.append('')

    def handle_startendtag(self, tag, attrs):
        self.tags.append((tag, tuple(attrs)))

    def handle_endtag(self, tag):
        self.tags.append(('/' + tag, ()))
        if self.open and self.open[-1][0] == tag:
            self.open.pop()
        else:
            raise Violation('the page is not well formed: </%s> in %r' % (tag, self.open))

    def handle_data(self, data):
        if self.open:
            if self.open[-1][0] == 'script':
                self.scripts[-1] += data
            for _, name in set(self.open):
                self.texts[name] = self.texts.get(name, '') + data

    def handle_comment(self, data):
        raise Violation('a comment in the page: %r' % data)


ESC = {'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f', 'v': '\v', '0': '\0'}


def js_vars(code):
    """The variables that a script sets to string literals: var NAME='...';"""
    out = {}
    pos = 0
    while pos < len(code):
        m = re.compile(r"\s*(?:var\s+)?(\w+)\s*=\s*(['\"])").match(code, pos)
        if m is None:
            if not code[pos:].strip():
                break
            raise Violation('not JavaScript: %r' % code[pos:pos + 60])
        pos, quote, s = m.end(), m.group(2), []
        while True:
            if pos >= len(code) or code[pos] in '\n\r':
                raise Violation('a string of the script does not end: %r' % code[m.start():m.start() + 200])
            c = code[pos]
            pos += 1
            if c == quote:
                break
            if c == '\\':
                c = code[pos:pos + 1]
                pos += 1
                if c in ('x', 'u'):
                    k = 2 if c == 'x' else 4
                    s.append(chr(int(code[pos:pos + k], 16)))
                    pos += k
                elif c == '\n':
                    pass
                else:
                    s.append(ESC.get(c, c))
            else:
                s.append(c)
        out[m.group(1)] = ''.join(s)
        m = re.compile(r'\s*;').match(code, pos)
        if m is None:
            raise Violation('not JavaScript after a string: %r' % code[pos:pos + 60])
        pos = m.end()
    return out


def decode(s):
    """The decoder of the interface (ClojureScript)."""
    rt = cljhg.runtime()
    if 'graphbrain.gbui.encoder' not in rt.nss:
        with open(os.path.join(REPO, 'src', 'main', 'cljs', 'graphbrain', 'gbui', 'encoder.cljs')) as f:
            rt.load_text(f.read())
    return cljhg.fn('graphbrain.gbui.encoder', 'decode')(s)


def edn(s):
    """What the reader of the interface makes of a text."""
    try:
        forms = list(Reader(s).forms())
    except (Unsupported, IndexError, ValueError) as e:
        raise Violation('can not be read: %r (%s)' % (s[:300], e))
    if len(forms) != 1:
        raise Violation('%d values, expected one: %r' % (len(forms), s[:300]))
    return forms[0]


def data_of(page):
    """What the interface gets of a page."""
    for code in page.scripts:
        if 'ptype' in code:
            v = js_vars(code)
            return v.get('ptype'), edn(decode(v['data'])) if 'data' in v else None
    raise Violation('the page has no script with ptype')
