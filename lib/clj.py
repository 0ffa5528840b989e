"""A small interpreter of Clojure: enough of the language and of its core library to run the
Clojure code of the repository (there is no Clojure toolchain in the sandbox).  It is part of the
harness, so its own fidelity is checked by running the repository's Clojure tests under it and by
the table of expressions of lib/clj_selftest.py.

Anything it does not know raises Unsupported, which no Clojure `catch` sees: a check then gives no
answer, rather than a wrong one."""
import itertools
import math
import re
import sys
from fractions import Fraction

from vf import HarnessError

sys.setrecursionlimit(max(8000, sys.getrecursionlimit()))


class Unsupported(HarnessError):
    pass


class JEx(Exception):
    """A Java exception."""
    def __init__(self, cls, msg=None, data=None, cause=None):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg
        self.data = data
        self.cause = cause


ERRORS = {'Error', 'AssertionError', 'StackOverflowError', 'OutOfMemoryError'}
CHECKED = {'IOException', 'SQLException', 'FileNotFoundException', 'MalformedURLException'}
PYERR = (TypeError, AttributeError, IndexError, KeyError, ValueError, ZeroDivisionError)


def short(cls):
    return cls.rsplit('.', 1)[-1]


def catches(cls, ex):
    name = short(cls)
    if isinstance(ex, RecursionError):
        return name in ('StackOverflowError', 'Error', 'Throwable')
    if not isinstance(ex, JEx):
        return name in ('Exception', 'Throwable', 'RuntimeException', 'ClassCastException')
    mine = short(ex.cls)
    if name == 'Throwable' or name == mine:
        return True
    if name == 'Error':
        return mine in ERRORS
    if mine in ERRORS:
        return False
    if name == 'Exception':
        return True
    if name == 'RuntimeException':
        return mine not in CHECKED
    if name == 'IllegalArgumentException':
        return mine in ('NumberFormatException', 'ArityException')
    if name == 'IndexOutOfBoundsException':
        return mine in ('StringIndexOutOfBoundsException', 'ArrayIndexOutOfBoundsException')
    if name == 'IOException':
        return mine in ('FileNotFoundException', 'MalformedURLException')
    return False


# ---------------------------------------------------------------- values

class Sym:
    __slots__ = ('ns', 'name', 'meta')

    def __init__(self, name, ns=None, meta=None):
        self.name = name
        self.ns = ns
        self.meta = meta

    def __eq__(self, other):
        return isinstance(other, Sym) and self.name == other.name and self.ns == other.ns

    def __hash__(self):
        return hash(('sym', self.ns, self.name))

    def __repr__(self):
        return self.ns + '/' + self.name if self.ns else self.name

    def __call__(self, m, d=None):
        return get(m, self, d)


class Kw:
    __slots__ = ('ns', 'name')
    table = {}

    def __repr__(self):
        return ':' + (self.ns + '/' + self.name if self.ns else self.name)

    def __call__(self, m, d=None):
        return get(m, self, d)


def kw(name, ns=None):
    key = (ns, name)
    k = Kw.table.get(key)
    if k is None:
        k = Kw()
        k.ns, k.name = ns, name
        Kw.table[key] = k
    return k


class Char:
    __slots__ = ('c',)
    table = {}

    def __repr__(self):
        return '\\' + self.c


def char(c):
    x = Char.table.get(c)
    if x is None:
        x = Char()
        x.c = c
        Char.table[c] = x
    return x


class Buf:
    """A cached iterator."""
    __slots__ = ('items', 'it')

    def __init__(self, it):
        self.items = []
        self.it = it

    def has(self, i):
        while len(self.items) <= i:
            if self.it is None:
                return False
            try:
                self.items.append(next(self.it))
            except StopIteration:
                self.it = None
                return False
        return True


class Done:
    __slots__ = ('items',)
    it = None

    def __init__(self, items):
        self.items = items

    def has(self, i):
        return i < len(self.items)


class Seq:
    """A list or a sequence, maybe lazy."""
    __slots__ = ('src', 'off', 'lazy', 'meta')

    def __init__(self, src, off=0, lazy=False):
        self.src = src
        self.off = off
        self.lazy = lazy
        self.meta = None

    def __iter__(self):
        src, i = self.src, self.off
        while src.has(i):
            yield src.items[i]
            i += 1

    def some(self):
        return self.src.has(self.off)

    def first(self):
        return self.src.items[self.off] if self.src.has(self.off) else None

    def rest(self):
        if self.src.has(self.off):
            return Seq(self.src, self.off + 1)
        return EMPTY

    def __repr__(self):
        return pr(self)


EMPTY = Seq(Done(()))


def plist(items):
    return Seq(Done(tuple(items)))


def lazy(it):
    return Seq(Buf(iter(it)), 0, True)


class Vec:
    __slots__ = ('t', 'meta')

    def __init__(self, t=()):
        self.t = tuple(t)
        self.meta = None

    def __iter__(self):
        return iter(self.t)

    def __len__(self):
        return len(self.t)

    def __call__(self, i):
        if isinstance(i, int) and not isinstance(i, bool):
            if 0 <= i < len(self.t):
                return self.t[i]
            raise JEx('java.lang.IndexOutOfBoundsException')
        raise JEx('java.lang.IllegalArgumentException', 'Key must be integer')

    def __repr__(self):
        return pr(self)


SLOT = object()


class PMap:
    """d: canonical key -> (key, value). A sorted map has a comparator, which also tells what keys are equal, and keeps d in order."""
    __slots__ = ('d', 'meta', 'cmp')

    def __init__(self, d=None, cmp=None):
        self.d = d if d is not None else {}
        self.meta = None
        self.cmp = cmp

    def slot(self, k):
        if self.cmp is None:
            return ck(k)
        for c, (k2, _) in self.d.items():
            if self.cmp(k, k2) == 0:
                return c
        return SLOT

    def __iter__(self):
        return iter([Vec((k, v)) for k, v in self.d.values()])

    def __len__(self):
        return len(self.d)

    def __call__(self, k, d=None):
        return get(self, k, d)

    def assoc(self, k, v):
        d = dict(self.d)
        c = self.slot(k)
        if c in d:
            k = d[c][0]
        elif self.cmp is not None:
            items = list(d.items())
            i = 0
            while i < len(items) and self.cmp(k, items[i][1][0]) > 0:
                i += 1
            return PMap(dict(items[:i] + [(ck(k), (k, v))] + items[i:]), self.cmp)
        d[c] = (k, v)
        return PMap(d, self.cmp)

    def dissoc(self, k):
        d = dict(self.d)
        d.pop(self.slot(k), None)
        return PMap(d, self.cmp)

    def __repr__(self):
        return pr(self)


class PSet:
    __slots__ = ('d', 'meta')

    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self.meta = None

    def __iter__(self):
        return iter(list(self.d.values()))

    def __len__(self):
        return len(self.d)

    def __call__(self, k, d=None):
        return self.d.get(ck(k), d)

    def __repr__(self):
        return pr(self)


class Record:
    """An instance of a deftype or of a reify."""
    __slots__ = ('cls', 'fields')

    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = fields


class JClass:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, JClass) and self.name == other.name

    def __hash__(self):
        return hash(self.name)


class Atom:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Var:
    __slots__ = ('ns', 'name', 'root', 'bound', 'macro', 'meta', 'stack')

    def __init__(self, ns, name):
        self.ns, self.name = ns, name
        self.root = None
        self.bound = False
        self.macro = False
        self.meta = None
        self.stack = []

    def get(self):
        if not self.bound:
            raise JEx('java.lang.IllegalStateException',
                      'Attempting to call unbound fn: %s/%s' % (self.ns, self.name))
        return self.root

    def __call__(self, *args):
        return self.get()(*args)

    def __repr__(self):
        return "#'%s/%s" % (self.ns, self.name)


class Delay:
    def __init__(self, f):
        self.f = f
        self.v = None
        self.done = False

    def force(self):
        if not self.done:
            self.v = self.f()
            self.done = True
        return self.v


class Reduced:
    def __init__(self, v):
        self.v = v


class Recur:
    __slots__ = ('args',)

    def __init__(self, args):
        self.args = args


class Regex:
    def __init__(self, pat):
        self.pat = pat
        self.re = re.compile(jregex(pat))


JCLASSES = {'Punct': r'!-/:-@\[-`{-~', 'Alpha': 'a-zA-Z', 'Digit': '0-9', 'Alnum': 'a-zA-Z0-9',
            'Upper': 'A-Z', 'Lower': 'a-z', 'Space': r' \t\n\x0b\f\r'}


def jregex(pat):
    def sub(m):
        body = JCLASSES.get(m.group(2))
        if body is None:
            raise Unsupported('regex ' + pat)
        return '[' + ('^' if m.group(1) == 'P' else '') + body + ']'
    pat = re.sub(r'\\([pP])\{(\w+)\}', sub, pat)
    # in Java \s, \d and \w are ASCII only
    return '(?a)' + pat if not pat.startswith('(?') else pat


# ---------------------------------------------------------------- equality, keys, printing

def is_int(x):
    return isinstance(x, int) and not isinstance(x, bool)


def is_num(x):
    return (isinstance(x, (int, float, Fraction))) and not isinstance(x, bool)


def sequential(x):
    return isinstance(x, (Vec, Seq))


def coll(x):
    return isinstance(x, (Vec, Seq, PMap, PSet))


def eq(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    ta, tb = type(a), type(b)
    if ta is str and tb is str:
        return a == b
    if ta is bool or tb is bool:
        return False
    if ta in (int, float, Fraction):
        return tb is ta and a == b
    if isinstance(a, (Vec, Seq)):
        if not isinstance(b, (Vec, Seq)):
            return False
        if ta is Vec and tb is Vec and len(a.t) != len(b.t):
            return False
        end = object()
        for x, y in itertools.zip_longest(a, b, fillvalue=end):
            if x is end or y is end or not eq(x, y):
                return False
        return True
    if ta is PMap:
        if tb is not PMap or len(a) != len(b):
            return False
        for c, (k, v) in a.d.items():
            if c not in b.d or not eq(v, b.d[c][1]):
                return False
        return True
    if ta is PSet:
        return tb is PSet and len(a) == len(b) and all(c in b.d for c in a.d)
    if ta is Sym or ta is JClass:
        return a == b
    if ta in (list, dict) or isinstance(a, (Record, Kw, Char)):
        return False
    return ta is tb and a == b


def ck(x):
    """A Python value that stands for the value as a key."""
    t = type(x)
    if t is str or t is int or x is None or t is Kw or t is Char or t is Sym:
        return x
    if t is bool:
        return ('b', x)
    if t is float:
        return ('f', x)
    if t is Vec or isinstance(x, Seq):
        return ('s', tuple([ck(i) for i in x]))
    if t is PSet:
        return ('set', frozenset(x.d))
    if t is PMap:
        return ('map', frozenset([(c, ck(v)) for c, (k, v) in x.d.items()]))
    if t is Fraction:
        return ('r', x)
    if t is JClass:
        return x
    return ('o', id(x), Keep(x))


class Keep:
    """Keeps an object alive as long as the key that holds its identity."""
    def __init__(self, x):
        self.x = x

    def __eq__(self, other):
        return isinstance(other, Keep) and self.x is other.x

    def __hash__(self):
        return id(self.x)


def pmap(pairs):
    d = {}
    for k, v in pairs:
        c = ck(k)
        d[c] = (d[c][0] if c in d else k, v)
    return PMap(d)


def pset(items):
    d = {}
    for x in items:
        d.setdefault(ck(x), x)
    return PSet(d)


def jdouble(x):
    if x != x:
        return 'NaN'
    if x in (math.inf, -math.inf):
        return 'Infinity' if x > 0 else '-Infinity'
    if x == 0:
        return '-0.0' if math.copysign(1, x) < 0 else '0.0'
    sign = '-' if x < 0 else ''
    digits, exp = '%s' % repr(abs(x)), 0
    if 'e' in digits:
        digits, e = digits.split('e')
        exp = int(e)
    whole, _, frac = digits.partition('.')
    point = len(whole) + exp
    ds = whole + frac
    lead = len(ds) - len(ds.lstrip('0'))
    ds = ds.lstrip('0')
    point -= lead
    ds = ds.rstrip('0') or '0'
    if 1e-3 <= abs(x) < 1e7:
        if point <= 0:
            return sign + '0.' + '0' * -point + ds
        if len(ds) <= point:
            return sign + ds + '0' * (point - len(ds)) + '.0'
        return sign + ds[:point] + '.' + ds[point:]
    return sign + ds[0] + '.' + (ds[1:] or '0') + 'E' + str(point - 1)


CHARNAMES = {'newline': '\n', 'space': ' ', 'tab': '\t', 'return': '\r', 'backspace': '\b',
             'formfeed': '\f'}
NAMECHARS = {v: k for k, v in CHARNAMES.items()}


def pr(x, readable=True):
    if x is None:
        return 'nil'
    t = type(x)
    if t is bool:
        return 'true' if x else 'false'
    if t is str:
        if not readable:
            return x
        return '"' + x.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n').replace(
            '\t', '\\t').replace('\r', '\\r') + '"'
    if t is int:
        return str(x)
    if t is float:
        return jdouble(x)
    if t is Fraction:
        return '%d/%d' % (x.numerator, x.denominator)
    if t is Kw or t is Sym:
        return repr(x)
    if t is Char:
        return '\\' + NAMECHARS.get(x.c, x.c) if readable else x.c
    if t is Vec:
        return '[' + ' '.join(pr(i, readable) for i in x) + ']'
    if isinstance(x, Seq):
        return '(' + ' '.join(pr(i, readable) for i in x) + ')'
    if t is PMap:
        return '{' + ', '.join(pr(k, readable) + ' ' + pr(v, readable)
                               for k, v in x.d.values()) + '}'
    if t is PSet:
        return '#{' + ' '.join(pr(i, readable) for i in x) + '}'
    if t is Regex:
        return '#"' + x.pat + '"'
    if t is JClass or t is Var:
        return repr(x)
    if isinstance(x, JEx):
        return str(x)
    return '#object[%s]' % t.__name__


def tostr(x):
    """(str x) of one value."""
    t = type(x)
    if x is None:
        return ''
    if t is str:
        return x
    if t is Char:
        return x.c
    if isinstance(x, Seq) and x.lazy:
        return 'clojure.lang.LazySeq@%x' % (hash(ck(x)) & 0x7fffffff)
    if t is Regex:
        return x.pat
    if t is JClass:
        return 'class ' + x.name
    if hasattr(x, 'java_str'):
        return x.java_str()
    return pr(x)


# ---------------------------------------------------------------- reader

TOKEN = re.compile(r'''[\s,]+|;[^\n]*|"((?:\\.|[^"\\])*)"|\#"((?:\\.|[^"\\])*)"|\#_|\#\(|\#\{|\#'|\#\^'''
                   r'''|\#\?@?|\\(?:newline|space|tab|return|backspace|formfeed|u[0-9a-fA-F]{4}|[\s\S])'''
                   r'''|~@|[()\[\]{}'`~^@]|\#![^\n]*|[^\s,;"()\[\]{}'`~^@\\][^\s,;"()\[\]{}`~^@\\]*''',
                   re.S)
NUMBER = re.compile(r'^[-+]?\d+(\.\d*)?([eE][-+]?\d+)?M?$')
ESC = {'n': '\n', 't': '\t', 'r': '\r', '"': '"', '\\': '\\', 'b': '\b', 'f': '\f'}


class Splice:
    def __init__(self, items):
        self.items = items


def unescape(s):
    return re.sub(r'\\(u[0-9a-fA-F]{4}|[0-7]{1,3}|.)',
                  lambda m: chr(int(m.group(1)[1:], 16)) if m.group(1)[0] == 'u'
                  else (ESC[m.group(1)] if m.group(1) in ESC else chr(int(m.group(1), 8))), s,
                  flags=re.S)


class Reader:
    def __init__(self, text, ns=None, rt=None):
        self.toks = []
        pos = 0
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if m is None:
                raise Unsupported('cannot read at %r' % text[pos:pos + 30])
            tok = m.group(0)
            pos = m.end()
            if tok[0] in ' \t\n\r,;\f\x0b' or tok.startswith('#!'):
                continue
            self.toks.append(tok)
        self.i = 0
        self.fnargs = None
        self.rt = rt

    def forms(self):
        while self.i < len(self.toks):
            x = self.read()
            if not isinstance(x, Splice):
                yield x

    def until(self, close):
        out = []
        while True:
            if self.i >= len(self.toks):
                raise Unsupported('unexpected end of file')
            if self.toks[self.i] == close:
                self.i += 1
                return out
            x = self.read()
            if isinstance(x, Splice):
                out.extend(x.items)
            else:
                out.append(x)

    def one(self):
        while True:
            x = self.read()
            if not isinstance(x, Splice):
                return x

    def read(self):
        tok = self.toks[self.i]
        self.i += 1
        c = tok[0]
        if c == '(':
            return plist(self.until(')'))
        if c == '[':
            return Vec(self.until(']'))
        if c == '{':
            items = self.until('}')
            if len(items) % 2:
                raise Unsupported('map literal with an odd number of forms')
            return pmap(zip(items[::2], items[1::2]))
        if c == '"':
            return unescape(tok[1:-1])
        if tok == "'":
            return plist([Sym('quote'), self.one()])
        if tok == '`':
            return plist([Sym('syntax-quote'), self.one()])
        if tok == '~':
            return plist([Sym('unquote'), self.one()])
        if tok == '~@':
            return plist([Sym('unquote-splicing'), self.one()])
        if tok == '@':
            return plist([Sym('deref', 'clojure.core'), self.one()])
        if tok == '^' or tok == '#^':
            meta = self.one()
            x = self.one()
            if isinstance(meta, Kw):
                meta = pmap([(meta, True)])
            elif not isinstance(meta, PMap):
                meta = pmap([(kw('tag'), meta)])
            if isinstance(x, Sym):
                x = Sym(x.name, x.ns, meta)
            return x
        if c == '\\':
            name = tok[1:]
            if name in CHARNAMES:
                return char(CHARNAMES[name])
            if len(name) == 5 and name[0] == 'u':
                return char(chr(int(name[1:], 16)))
            return char(name)
        if tok == '#_':
            self.one()
            return Splice([])
        if tok == '#{':
            return pset(self.until('}'))
        if tok.startswith('#"'):
            return Regex(tok[2:-1])
        if tok == "#'":
            return plist([Sym('var'), self.one()])
        if tok == '#(':
            if self.fnargs is not None:
                raise Unsupported('nested #()')
            self.fnargs = {}
            body = plist(self.until(')'))
            args, self.fnargs = self.fnargs, None
            n = max([k for k in args if k != '&'] or [0])
            names = [args.get(i) or Sym('p%d__auto' % i) for i in range(1, n + 1)]
            if '&' in args:
                names += [Sym('&'), args['&']]
            return plist([Sym('fn*'), Vec(names), body])
        if tok in ('#?', '#?@'):
            clauses = list(self.one())
            for k, v in zip(clauses[::2], clauses[1::2]):
                if k in (kw('clj'), kw('default')):
                    return Splice(list(v)) if tok == '#?@' else v
            return Splice([])
        if c == '#':
            raise Unsupported('reader macro ' + tok)
        if c in ')]}':
            raise Unsupported('unmatched ' + c)
        return self.atom(tok)

    def atom(self, tok):
        if NUMBER.match(tok):
            t = tok.rstrip('M')
            if '.' in t or 'e' in t.lower():
                return float(t)
            return int(t)
        if re.match(r'^[-+]?\d+N$', tok):
            return int(tok[:-1])
        if re.match(r'^[-+]?0[xX][0-9a-fA-F]+$', tok):
            return int(tok, 16)
        if re.match(r'^[-+]?\d+/\d+$', tok):
            f = Fraction(tok)
            return int(f) if f.denominator == 1 else f
        if tok == 'nil':
            return None
        if tok == 'true':
            return True
        if tok == 'false':
            return False
        if tok[0] == ':':
            if tok.startswith('::'):
                return kw(tok[2:], self.rt.cur.name if self.rt else None)
            ns, _, name = tok[1:].rpartition('/')
            return kw(name, ns or None) if name else kw(tok[1:])
        if self.fnargs is not None and tok[0] == '%':
            key = '&' if tok == '%&' else int(tok[1:] or 1)
            if key not in self.fnargs:
                self.fnargs[key] = Sym('p%s__%d__auto' % ('rest' if key == '&' else key, self.i))
            return self.fnargs[key]
        if tok != '/' and '/' in tok:
            ns, _, name = tok.partition('/')
            return Sym(name, ns)
        return Sym(tok)


# ---------------------------------------------------------------- seqs

def seq_iter(x):
    """An iterator over anything that can be a sequence."""
    if x is None:
        return iter(())
    if isinstance(x, (Seq, Vec, PMap, PSet)):
        return iter(x)
    if isinstance(x, str):
        return iter([char(c) for c in x])
    if isinstance(x, (list, tuple)):
        return iter(x)
    if hasattr(x, 'java_iter'):
        return x.java_iter()
    raise JEx('java.lang.IllegalArgumentException', "Don't know how to create ISeq from: " + tyname(x))


def tyname(x):
    return type_of(x).name if x is not None else 'null'


def seq(x):
    if x is None:
        return None
    if isinstance(x, Seq):
        if not x.some():
            return None
        return Seq(x.src, x.off) if x.lazy else x
    items = tuple(seq_iter(x))
    return Seq(Done(items)) if items else None


def first(x):
    if x is None:
        return None
    if isinstance(x, Seq):
        return x.first()
    if isinstance(x, Vec):
        return x.t[0] if x.t else None
    if isinstance(x, str):
        return char(x[0]) if x else None
    for i in seq_iter(x):
        return i
    return None


def rest(x):
    if isinstance(x, Seq):
        return x.rest()
    s = seq(x)
    return s.rest() if s is not None else EMPTY


def nxt(x):
    return seq(rest(x))


def cons(x, s):
    if isinstance(s, Seq) and s.src.it is not None or isinstance(s, Seq) and s.lazy:
        return Seq(Buf(itertools.chain((x,), s)))
    return Seq(Done((x,) + tuple(seq_iter(s))))


def conj1(c, x):
    if c is None:
        return plist([x])
    if isinstance(c, Vec):
        return Vec(c.t + (x,))
    if isinstance(c, Seq):
        return cons(x, c)
    if isinstance(c, PSet):
        k = ck(x)
        if k in c.d:
            return c
        d = dict(c.d)
        d[k] = x
        return PSet(d)
    if isinstance(c, PMap):
        if x is None:
            return c
        if isinstance(x, PMap):
            if c.cmp is not None:
                for k, v in x.d.values():
                    c = c.assoc(k, v)
                return c
            d = dict(c.d)
            d.update(x.d)
            return PMap(d)
        if isinstance(x, Vec) and len(x) == 2:
            return c.assoc(x.t[0], x.t[1])
        raise JEx('java.lang.IllegalArgumentException', 'Vector arg to map conj must be a pair')
    raise JEx('java.lang.ClassCastException', tyname(c) + ' cannot be cast to IPersistentCollection')


def get(m, k, d=None):
    t = type(m)
    if t is PMap:
        e = m.d.get(ck(k) if m.cmp is None else m.slot(k))
        return e[1] if e is not None else d
    if m is None:
        return d
    if t is PSet:
        return m.d.get(ck(k), d)
    if t is Vec:
        return m.t[k] if is_int(k) and 0 <= k < len(m.t) else d
    if t is str:
        return char(m[k]) if is_int(k) and 0 <= k < len(m) else d
    if t is Record and isinstance(k, Kw):
        return m.fields.get(k.name, d)
    return d


def truthy(x):
    return x is not None and x is not False


MAXL, MINL = (1 << 63) - 1, -(1 << 63)


def chk(n):
    if type(n) is int and not MINL <= n <= MAXL:
        raise JEx('java.lang.ArithmeticException', 'integer overflow')
    return n


def wrap64(n):
    n &= (1 << 64) - 1
    return n - (1 << 64) if n >> 63 else n


def num(x):
    if not is_num(x):
        if x is None:
            raise JEx('java.lang.NullPointerException')
        raise JEx('java.lang.ClassCastException', tyname(x) + ' cannot be cast to java.lang.Number')
    return x


def simp(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def utf16(s):
    return s.encode('utf-16-be', 'surrogatepass')


def compare(a, b):
    if a is b:
        return 0
    if a is None:
        return -1
    if b is None:
        return 1
    if is_num(a) and is_num(b):
        return (a > b) - (a < b)
    if isinstance(a, str) and isinstance(b, str):
        x, y = utf16(a), utf16(b)
        return (x > y) - (x < y)
    if isinstance(a, Char) and isinstance(b, Char):
        return (a.c > b.c) - (a.c < b.c)
    if isinstance(a, (Kw, Sym)) and type(a) is type(b):
        if a.ns != b.ns:
            return compare(a.ns, b.ns)
        return compare(a.name, b.name)
    if isinstance(a, bool) and isinstance(b, bool):
        return a - b
    if isinstance(a, Vec) and isinstance(b, Vec):
        if len(a) != len(b):
            return -1 if len(a) < len(b) else 1
        for x, y in zip(a, b):
            c = compare(x, y)
            if c:
                return c
        return 0
    raise JEx('java.lang.ClassCastException',
              '%s cannot be cast to %s' % (tyname(a), tyname(b)))


def type_of(x):
    if x is None:
        return None
    if isinstance(x, bool):
        return JClass('java.lang.Boolean')
    if isinstance(x, int):
        return JClass('java.lang.Long')
    if isinstance(x, float):
        return JClass('java.lang.Double')
    if isinstance(x, str):
        return JClass('java.lang.String')
    if isinstance(x, Char):
        return JClass('java.lang.Character')
    if isinstance(x, Kw):
        return JClass('clojure.lang.Keyword')
    if isinstance(x, Sym):
        return JClass('clojure.lang.Symbol')
    if isinstance(x, Vec):
        return JClass('clojure.lang.PersistentVector')
    if isinstance(x, Seq):
        return JClass('clojure.lang.LazySeq' if x.lazy else 'clojure.lang.PersistentList')
    if isinstance(x, PMap):
        return JClass('clojure.lang.PersistentArrayMap')
    if isinstance(x, PSet):
        return JClass('clojure.lang.PersistentHashSet')
    if isinstance(x, Fraction):
        return JClass('clojure.lang.Ratio')
    if isinstance(x, Record):
        return JClass(x.cls)
    if isinstance(x, JEx):
        return JClass(x.cls)
    if hasattr(x, 'java_class'):
        return JClass(x.java_class)
    return JClass('clojure.lang.AFn' if callable(x) else type(x).__name__)


SUPERS = {
    'Number': lambda x: is_num(x), 'Integer': is_int, 'Long': is_int,
    'CharSequence': lambda x: isinstance(x, str), 'Object': lambda x: x is not None,
    'Sequential': sequential, 'ISeq': lambda x: isinstance(x, Seq),
    'IPersistentCollection': coll, 'Collection': coll, 'Iterable': coll,
    'IPersistentVector': lambda x: isinstance(x, Vec),
    'IPersistentMap': lambda x: isinstance(x, PMap), 'Map': lambda x: isinstance(x, PMap),
    'IPersistentSet': lambda x: isinstance(x, PSet), 'Set': lambda x: isinstance(x, PSet),
    'IFn': lambda x: callable(x), 'List': sequential, 'Named': lambda x: isinstance(x, (Kw, Sym)),
}


def instance(cls, x):
    if x is None:
        return False
    t = type_of(x)
    if t == cls or short(t.name) == short(cls.name):
        return True
    f = SUPERS.get(short(cls.name))
    return bool(f and f(x))


def call(f, *args):
    if f is None:
        raise JEx('java.lang.NullPointerException')
    if not callable(f):
        raise JEx('java.lang.ClassCastException', tyname(f) + ' cannot be cast to clojure.lang.IFn')
    return f(*args)


# ---------------------------------------------------------------- compiler

class Scope:
    """The locals of one function body at one point."""
    def __init__(self, fn, names):
        self.fn = fn
        self.names = names

    def bind(self, name):
        slot = self.fn.n
        self.fn.n += 1
        names = dict(self.names)
        names[name] = slot
        return Scope(self.fn, names), slot


class FnCtx:
    def __init__(self, n):
        self.n = n


class Fn:
    __slots__ = ('arities', 'variadic', 'name', 'java_class')

    def __call__(self, *args):
        f = self.arities.get(len(args))
        if f is not None:
            return f(args)
        v = self.variadic
        if v is not None and len(args) >= v[0]:
            n = v[0]
            extra = args[n:]
            return v[1](args[:n] + ((plist(extra) if extra else None),))
        raise JEx('clojure.lang.ArityException',
                  'Wrong number of args (%d) passed to: %s' % (len(args), self.name))


class NS:
    def __init__(self, name):
        self.name = name
        self.vars = {}
        self.aliases = {}
        self.refers = {}
        self.imports = {}
        self.stub = False


JAVA_LANG = {'Integer', 'Long', 'Double', 'Float', 'String', 'Character', 'Boolean', 'Math', 'Object',
             'Exception', 'Throwable', 'Error', 'RuntimeException', 'System', 'Thread', 'Number',
             'StringBuilder', 'NumberFormatException', 'IllegalArgumentException', 'BigInteger',
             'BigDecimal', 'Short', 'Byte', 'Class', 'ArithmeticException', 'NullPointerException',
             'IndexOutOfBoundsException', 'ClassCastException', 'IllegalStateException',
             'UnsupportedOperationException', 'AssertionError', 'CharSequence', 'Iterable'}


class Runtime:
    def __init__(self, roots=()):
        from clj_core import install
        self.roots = list(roots)
        self.nss = {}
        self.macros = {}
        self.specials = {}
        self.gensym = 0
        self.static = {}
        self.ctors = {}
        self.methods = {}
        self.hosts = {}
        self.out = []
        self.core = self.ns('clojure.core')
        self.cur = self.ns('user')
        install(self)

    # -- namespaces

    def ns(self, name):
        n = self.nss.get(name)
        if n is None:
            n = self.nss[name] = NS(name)
        return n

    def define(self, ns, name, value):
        n = self.ns(ns)
        v = n.vars.get(name)
        if v is None:
            v = n.vars[name] = Var(ns, name)
        v.root = value
        v.bound = True
        return v

    def require(self, name):
        if name in self.nss:
            return self.nss[name]
        if name in self.hosts:
            n = self.ns(name)
            for k, v in self.hosts[name].items():
                self.define(name, k, v)
            return n
        path = name.replace('.', '/').replace('-', '_') + '.clj'
        import os
        for root in self.roots:
            full = os.path.join(root, path)
            if os.path.exists(full):
                self.ns(name)
                self.load(full)
                return self.nss[name]
        n = self.ns(name)
        n.stub = True
        return n

    def load(self, path):
        with open(path, encoding='utf-8') as f:
            self.load_text(f.read())

    def load_text(self, text):
        saved = self.cur
        last = None
        try:
            for form in Reader(text, rt=self).forms():
                last = self.eval(form)
        finally:
            self.cur = saved
        return last

    def eval_text(self, text, ns=None):
        saved = self.cur
        if ns:
            self.cur = self.require(ns)
        try:
            last = None
            for form in Reader(text, rt=self).forms():
                last = self.eval(form)
            return last
        finally:
            self.cur = saved

    def eval(self, form):
        fn = FnCtx(0)
        code = self.comp(form, Scope(fn, {}))
        return code([None] * fn.n)

    def fn(self, ns, name):
        """The value of a var, for the harness."""
        n = self.require(ns)
        if name not in n.vars:
            raise Unsupported('no %s/%s' % (ns, name))
        return n.vars[name].get()

    def find_ns(self, alias):
        cur = self.cur
        if alias in cur.aliases:
            return self.nss[cur.aliases[alias]]
        if alias in self.nss:
            return self.nss[alias]
        if alias in self.hosts:
            return self.require(alias)
        return None

    def resolve(self, s):
        """The Var of a symbol, or a JClass, or None."""
        if s.ns:
            n = self.find_ns(s.ns)
            if n is not None:
                v = n.vars.get(s.name)
                if v is None and s.name in n.refers:
                    v = n.refers[s.name]
                if v is None and n.stub:
                    v = self.stub(n, s.name)
                if v is None:
                    raise Unsupported('no such var: %s' % s)
                return v
            return None
        cur = self.cur
        v = cur.vars.get(s.name) or cur.refers.get(s.name) or self.core.vars.get(s.name)
        return v

    def stub(self, n, name):
        v = Var(n.name, name)

        def missing(*args):
            raise Unsupported('%s/%s is not available' % (n.name, name))
        v.root = missing
        v.bound = True
        n.vars[name] = v
        return v

    def class_of(self, s):
        name = s.name if not s.ns else None
        if name is None:
            return None
        if name in self.cur.imports:
            return JClass(self.cur.imports[name])
        if name in JAVA_LANG:
            return JClass('java.lang.' + name)
        if '.' in name and re.match(r'^[a-z][\w.]*\.[A-Z]\w*$', name):
            return JClass(name)
        return None

    # -- compilation: comp(form, scope) gives a function of the frame

    def comp(self, x, sc):
        t = type(x)
        if t is Sym:
            return self.comp_sym(x, sc)
        if t is Seq:
            if not x.some():
                return lambda f: EMPTY
            return self.comp_list(x, sc)
        if t is Vec:
            codes = [self.comp(i, sc) for i in x]
            return lambda f: Vec([c(f) for c in codes])
        if t is PMap:
            codes = [(self.comp(k, sc), self.comp(v, sc)) for k, v in x.d.values()]
            return lambda f: pmap([(k(f), v(f)) for k, v in codes])
        if t is PSet:
            codes = [self.comp(i, sc) for i in x]
            return lambda f: pset([c(f) for c in codes])
        return lambda f: x

    def comp_sym(self, s, sc):
        if not s.ns and s.name in sc.names:
            slot = sc.names[s.name]
            return lambda f: f[slot]
        v = self.resolve(s)
        if v is not None:
            if v.macro:
                raise Unsupported("can't take value of a macro: %s" % s)
            if v.bound and v.ns == 'clojure.core' and not v.stack:
                return lambda f: v.root

            def getvar(f):
                if not v.bound:
                    return v
                return v.root
            return getvar
        if s.ns:
            key = (self.cur.imports.get(s.ns, s.ns).rsplit('.', 1)[-1], s.name)
            if key in self.static:
                val = self.static[key]
                return lambda f: val
            raise Unsupported('no such namespace or class: %s' % s)
        c = self.class_of(s)
        if c is not None:
            return lambda f: c
        if s.name in self.macros or s.name in self.specials:
            raise Unsupported("can't take value of a macro: %s" % s)
        raise Unsupported('unable to resolve symbol: %s in %s' % (s, self.cur.name))

    def body(self, forms, sc):
        forms = list(forms)
        if not forms:
            return lambda f: None
        codes = [self.comp(x, sc) for x in forms]
        if len(codes) == 1:
            return codes[0]
        init, last = codes[:-1], codes[-1]

        def run(f):
            for c in init:
                c(f)
            return last(f)
        return run

    def comp_list(self, x, sc):
        items = list(x)
        head = items[0]
        if type(head) is Sym:
            name = head.name
            local = not head.ns and name in sc.names
            if not local:
                own = None
                if not head.ns or head.ns == 'clojure.core':
                    if name in self.specials:
                        return self.specials[name](self, items, sc)
                    own = self.cur.vars.get(name) or self.cur.refers.get(name) if not head.ns else None
                    if own is None and name in self.macros:
                        return self.comp(self.macros[name](self, *items[1:]), sc)
                v = own or (self.resolve(head) if not (name.startswith('.') and name != '.'
                                                       and name != '..') else None)
                if v is not None and v.macro:
                    return self.comp(v.root(*items[1:]), sc)
                if v is None:
                    if name.startswith('.') and len(name) > 1 and not head.ns:
                        return self.comp_method(name[1:], items[1], items[2:], sc)
                    if name.endswith('.') and len(name) > 1 and not head.ns:
                        return self.comp_new(Sym(name[:-1]), items[1:], sc)
                    if head.ns:
                        key = (short(self.cur.imports.get(head.ns, head.ns)), name)
                        if key not in self.static:
                            raise Unsupported('no static method %s' % head)
        codes = [self.comp(i, sc) for i in items[1:]]
        fc = self.comp(head, sc)
        n = len(codes)
        if n == 0:
            return lambda f: _callable(fc(f))()
        if n == 1:
            a = codes[0]
            return lambda f: _callable(fc(f))(a(f))
        if n == 2:
            a, b = codes
            return lambda f: _callable(fc(f))(a(f), b(f))
        return lambda f: _callable(fc(f))(*[c(f) for c in codes])

    def comp_method(self, name, target, args, sc):
        if type(target) is Sym and not target.ns and target.name not in sc.names \
                and self.resolve(target) is None:
            cls = self.class_of(target)
            if cls is not None and (short(cls.name), name) in self.static:
                fn = self.static[(short(cls.name), name)]
                codes = [self.comp(a, sc) for a in args]
                return lambda f: fn(*[c(f) for c in codes])
        t = self.comp(target, sc)
        codes = [self.comp(a, sc) for a in args]
        return lambda f: self.method(name, t(f), [c(f) for c in codes])

    def method(self, name, target, args):
        if target is None:
            raise JEx('java.lang.NullPointerException')
        if name.startswith('-') and isinstance(target, Record):
            return target.fields[name[1:]]
        for cls, table in self.methods.items():
            if isinstance(target, cls) and name in table:
                return table[name](target, *args)
        if isinstance(target, Record):
            impl = PROTO_IMPLS.get((target.cls, name))
            if impl is not None:
                return impl(target, *args)
        if hasattr(target, name) and hasattr(target, 'java_class'):
            return getattr(target, name)(*args)
        raise Unsupported('method %s of %s' % (name, tyname(target)))

    def comp_new(self, s, args, sc):
        codes = [self.comp(a, sc) for a in args]
        v = self.cur.vars.get('->' + s.name) or self.cur.refers.get('->' + s.name)
        if v is not None:
            return lambda f: v.root(*[c(f) for c in codes])
        name = short(self.cur.imports.get(s.name, s.name))
        ctor = self.ctors.get(name)
        if ctor is None:
            if name.endswith('Exception') or name.endswith('Error') or name == 'Throwable':
                def ctor(*a, _n=name):
                    return JEx('java.lang.' + _n, a[0] if a else None,
                               cause=a[1] if len(a) > 1 else None)
            else:
                def ctor(*a, _n=name):
                    raise Unsupported('constructor of %s' % _n)
        return lambda f: ctor(*[c(f) for c in codes])

    # -- functions

    def comp_fn(self, name, arities, sc, label):
        """arities: a list of (params Vec, body forms)."""
        n0 = sc.fn.n
        specs = []
        variadic = None
        for params, forms in arities:
            ctx = FnCtx(n0)
            s = Scope(ctx, dict(sc.names))
            self_slot = None
            if name:
                s, self_slot = s.bind(name)
            ps = list(params)
            slots, todo, var = [], [], False
            i = 0
            while i < len(ps):
                p = ps[i]
                if isinstance(p, Sym) and p.name == '&':
                    var = True
                    i += 1
                    continue
                if isinstance(p, Sym):
                    s, slot = s.bind(p.name)
                else:
                    slot = ctx.n
                    ctx.n += 1
                    todo.append((p, slot))
                slots.append(slot)
                i += 1
            binds = []
            for p, slot in todo:
                s = self.destructure(p, (lambda sl: lambda f: f[sl])(slot), s, binds)
            code = self.body(forms, s)
            base = slots[0] if slots else ctx.n
            specs.append((slots, binds, code, ctx, self_slot, var))

        def make(f):
            snap = f[:n0]
            out = Fn()
            out.arities = {}
            out.variadic = None
            out.name = label
            for slots, binds, code, ctx, self_slot, var in specs:
                run = self.runner(snap, n0, slots, binds, code, ctx, self_slot, out)
                if var:
                    out.variadic = (len(slots) - 1, run)
                else:
                    out.arities[len(slots)] = run
            return out
        return make

    @staticmethod
    def runner(snap, n0, slots, binds, code, ctx, self_slot, me):
        def run(args):
            while True:
                f = snap + [None] * (ctx.n - n0)
                if self_slot is not None:
                    f[self_slot] = me
                for s, a in zip(slots, args):
                    f[s] = a
                for s, c in binds:
                    f[s] = c(f)
                r = code(f)
                if type(r) is Recur:
                    args = r.args
                    continue
                return r
        return run

    def destructure(self, p, src, sc, out):
        """Adds the pairs (slot, code) that bind the pattern to `out`; gives the new scope."""
        if isinstance(p, Sym):
            sc, slot = sc.bind(p.name)
            out.append((slot, src))
            return sc
        tmp = sc.fn.n
        sc.fn.n += 1
        out.append((tmp, src))
        if isinstance(p, Vec):
            items = list(p)
            i = pos = 0
            while i < len(items):
                it = items[i]
                if isinstance(it, Sym) and it.name == '&':
                    k = pos
                    sc = self.destructure(items[i + 1], lambda f, k=k: _nthrest(f[tmp], k), sc, out)
                    i += 2
                elif it is kw('as'):
                    sc = self.destructure(items[i + 1], lambda f: f[tmp], sc, out)
                    i += 2
                else:
                    sc = self.destructure(it, lambda f, k=pos: _nth(f[tmp], k, None), sc, out)
                    pos += 1
                    i += 1
            return sc
        if isinstance(p, PMap):
            out.append((tmp, lambda f: _asmap(f[tmp])))
            defaults = {}
            entries = [(k, v) for k, v in p.d.values()]
            for k, v in entries:
                if k is kw('or'):
                    for dk, dv in v.d.values():
                        defaults[dk.name] = self.comp(dv, sc)
            for k, v in entries:
                if k is kw('or'):
                    continue
                if k is kw('as'):
                    sc = self.destructure(v, lambda f: f[tmp], sc, out)
                elif isinstance(k, Kw) and k.name in ('keys', 'strs', 'syms'):
                    for s in v:
                        name = s.name
                        key = kw(name) if k.name == 'keys' else name if k.name == 'strs' else Sym(name)
                        sc = self.destructure(Sym(name), self._lookup(tmp, lambda f, q=key: q,
                                                                      defaults.get(name)), sc, out)
                else:
                    d = defaults.get(k.name) if isinstance(k, Sym) else None
                    sc = self.destructure(k, self._lookup(tmp, self.comp(v, sc), d), sc, out)
            return sc
        raise Unsupported('binding form %s' % pr(p))

    @staticmethod
    def _lookup(tmp, key, default):
        miss = object()

        def run(f):
            v = get(f[tmp], key(f), miss)
            if v is miss:
                return default(f) if default is not None else None
            return v
        return run

    def sym(self, prefix='g'):
        self.gensym += 1
        return Sym('%s__%d' % (prefix, self.gensym))


PROTO_IMPLS = {}


def _callable(fn):
    if callable(fn):
        return fn
    if fn is None:
        raise JEx('java.lang.NullPointerException')
    raise JEx('java.lang.ClassCastException', tyname(fn) + ' cannot be cast to clojure.lang.IFn')


def _nth(x, i, d=None):
    if x is None:
        return d
    if isinstance(x, Vec):
        return x.t[i] if 0 <= i < len(x.t) else d
    if isinstance(x, Seq):
        return x.src.items[x.off + i] if x.src.has(x.off + i) else d
    if isinstance(x, (PMap, PSet)):
        raise JEx('java.lang.UnsupportedOperationException', 'nth not supported on this type')
    if isinstance(x, str):
        return char(x[i]) if 0 <= i < len(x) else d
    items = list(itertools.islice(seq_iter(x), i + 1))
    return items[i] if len(items) > i else d


def _nthrest(x, k):
    if isinstance(x, Seq):
        s = Seq(x.src, x.off + k)
        return s if s.some() else None
    items = list(seq_iter(x))[k:]
    return plist(items) if items else None


def _asmap(x):
    if isinstance(x, Seq):
        items = list(x)
        if len(items) == 1 and isinstance(items[0], PMap):
            return items[0]
        if len(items) % 2:
            raise JEx('java.lang.IllegalArgumentException', 'No value supplied for key')
        return pmap(zip(items[::2], items[1::2]))
    return x
