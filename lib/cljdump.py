"""Stand-ins for what reads the dumps of Wikipedia: clojure.java.io, bzip2, data.xml, clojure.zip, data.zip.xml and clj-time."""
import bz2
import calendar
import io
import re
import time
import xml.etree.ElementTree as ET

from clj import Kw, PMap, Seq, Vec, call, get, kw, plist, pmap


class Stream(io.BytesIO):
    java_class = 'java.io.Reader'


def bzip2(stream, concatenated=False):
    """Only the first of the streams of a file, unless told otherwise."""
    data = stream.read()
    out = b''
    while data:
        d = bz2.BZ2Decompressor()
        out += d.decompress(data)
        data = d.unused_data
        if not concatenated:
            break
    return Stream(out)


def element(e):
    content = ([e.text] if e.text else [])
    for c in e:
        content.append(element(c))
        if c.tail:
            content.append(c.tail)
    return pmap([(kw('tag'), kw(e.tag.split('}')[-1])), (kw('attrs'), pmap([(kw(k.split('}')[-1]), v) for k, v in e.attrib.items()])), (kw('content'), plist(content))])


def parse(reader):
    return element(ET.fromstring(reader.read()))


def children(e):
    return [c for c in get(e, kw('content')) or () if isinstance(c, PMap)]


def words(e):
    return ''.join(words(c) if isinstance(c, PMap) else c for c in get(e, kw('content')) or ())


def text(e):
    return re.sub('[ \t\n\x0b\f\r\u00a0]+', ' ', words(e))


def xml_all(loc, *steps):
    at = [loc]
    for s in steps:
        out = []
        for x in at:
            if isinstance(s, Kw):
                out += [c for c in children(x) if get(c, kw('tag')) == s]
            elif isinstance(s, str):
                out += [x] if text(x) == s else []
            elif isinstance(s, Vec):
                out += [x] if xml_all(x, *s) else []
            else:
                r = call(s, x)
                out += [x] if r is True else [] if r is None or r is False else list(r) if isinstance(r, (Seq, Vec)) else [r]
        at = out
    return at


def xml_first(loc, *steps):
    found = xml_all(loc, *steps)
    return found[0] if found else None


def attribute(e, k):
    return get(get(e, kw('attrs')), k)


class Time:
    java_class = 'org.joda.time.DateTime'

    def __init__(self, s):
        self.millis = calendar.timegm(time.strptime(s, '%Y-%m-%dT%H:%M:%SZ')) * 1000
        self.getMillis = lambda: self.millis


def install(rt):
    rt.hosts['clojure.java.io'] = {'file': lambda name: name, 'input-stream': lambda f: Stream(open(f, 'rb').read()), 'reader': lambda s: s}
    rt.ctors['BZip2CompressorInputStream'] = bzip2
    rt.hosts['clojure.data.xml'] = {'parse': parse}
    rt.hosts['clojure.zip'] = {'xml-zip': lambda e: e, 'node': lambda e: e}
    rt.hosts['clojure.data.zip.xml'] = {'xml->': lambda *a: plist(xml_all(*a)), 'xml1->': xml_first, 'text': text, 'attr': lambda k, *e: attribute(e[0], k) if e else lambda e: attribute(e, k),
                                        'attr=': lambda k, v: lambda e: attribute(e, k) == v, 'text=': lambda v: lambda e: text(e) == v}
    rt.hosts['clj-time.format'] = {'parse': Time}
    rt.hosts['clj-time.coerce'] = {'to-long': lambda t: t.millis, 'to-epoch': lambda t: t.millis // 1000}
