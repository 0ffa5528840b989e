"""The core library of the interpreter of lib/clj.py: special forms, macros, functions, and the
stand-ins for the libraries that the repository's Clojure code uses (clojure.string, clojure.set,
clojure.java.jdbc over sqlite3, clojure.math.combinatorics, clojure.test)."""
import functools
import hashlib
import itertools
import math
import random as pyrandom
import re
import sqlite3
import time as pytime
from fractions import Fraction

import clj
from clj import (Atom, Char, Delay, EMPTY, JClass, JEx, Kw, NS, PMap, PROTO_IMPLS, PSet, PYERR, Record,
                 Recur, Reduced, Regex, Scope, Seq, Sym, Unsupported, Var, Vec, call, catches, char, chk,
                 ck, coll, compare, conj1, cons, eq, first, get, instance, is_int, is_num, kw, lazy, num,
                 nxt, plist, pmap, pr, pset, rest, seq, seq_iter, sequential, short,
                 simp, tostr, truthy, tyname, type_of, wrap64)

S = Sym


def L(*items):
    return plist(items)


# ---------------------------------------------------------------- special forms

def sp_quote(rt, x, sc):
    v = x[1]
    return lambda f: v


def sp_if(rt, x, sc):
    c, a = rt.comp(x[1], sc), rt.comp(x[2], sc)
    b = rt.comp(x[3], sc) if len(x) > 3 else (lambda f: None)

    def run(f):
        t = c(f)
        return b(f) if t is None or t is False else a(f)
    return run


def sp_do(rt, x, sc):
    return rt.body(x[1:], sc)


def sp_def(rt, x, sc):
    s = x[1]
    n = rt.cur
    v = n.vars.get(s.name)
    if v is None:
        v = n.vars[s.name] = Var(n.name, s.name)
    v.meta = s.meta
    v.macro = False
    if len(x) == 2:
        return lambda f: v
    init = x[-1] if len(x) < 4 else x[3]
    code = rt.comp(init, sc)

    def run(f):
        val = code(f)
        v.root = val
        v.bound = True
        return v
    return run


def sp_let(rt, x, sc):
    out = []
    bs = list(x[1])
    for p, e in zip(bs[::2], bs[1::2]):
        code = rt.comp(e, sc)
        sc = rt.destructure(p, code, sc, out)
    body = rt.body(x[2:], sc)

    def run(f):
        for s, c in out:
            f[s] = c(f)
        return body(f)
    return run


def grow(fn):
    """Frames are allocated before nested forms were compiled only at the top level."""
    return fn


def sp_loop(rt, x, sc):
    bs = list(x[1])
    inits, slots, later = [], [], []
    for p, e in zip(bs[::2], bs[1::2]):
        out = []
        code = rt.comp(e, sc)
        if isinstance(p, Sym):
            sc, slot = sc.bind(p.name)
        else:
            slot = sc.fn.n
            sc.fn.n += 1
            sc = rt.destructure(p, (lambda sl: lambda f: f[sl])(slot), sc, out)
        slots.append(slot)
        inits.append((slot, code, out))
        later.extend(out)
    body = rt.body(x[2:], sc)

    def run(f):
        for s, c, out in inits:
            f[s] = c(f)
            for s2, c2 in out:
                f[s2] = c2(f)
        while True:
            r = body(f)
            if type(r) is Recur:
                if len(r.args) != len(slots):
                    raise JEx('java.lang.IllegalArgumentException', 'Mismatched argument count to recur')
                for s, v in zip(slots, r.args):
                    f[s] = v
                for s, c in later:
                    f[s] = c(f)
                continue
            return r
    return run


def sp_recur(rt, x, sc):
    codes = [rt.comp(i, sc) for i in x[1:]]
    return lambda f: Recur([c(f) for c in codes])


def sp_fn(rt, x, sc):
    i = 1
    name = None
    if isinstance(x[i], Sym):
        name = x[i].name
        i += 1
    if isinstance(x[i], Vec):
        ar = [(x[i], x[i + 1:])]
    else:
        ar = [(first(a), list(rest(a))) for a in x[i:]]
    ar = [(p, prepost(b)) for p, b in ar]
    return rt.comp_fn(name, ar, sc, '%s/%s' % (rt.cur.name, name or 'fn'))


def prepost(body):
    body = list(body)
    if len(body) > 1 and isinstance(body[0], PMap) and (get(body[0], kw('pre')) is not None
                                                       or get(body[0], kw('post')) is not None):
        pre = get(body[0], kw('pre'))
        post = get(body[0], kw('post'))
        out = [L(S('assert'), p) for p in (pre or ())]
        if post:
            return out + [L(S('let'), Vec([S('%'), L(S('do'), *body[1:])]),
                            *([L(S('assert'), p) for p in post] + [S('%')]))]
        return out + body[1:]
    return body


def sp_defmacro(rt, x, sc):
    name = x[1].name
    i = 2
    if isinstance(x[i], str):
        i += 1
    if isinstance(x[i], PMap):
        i += 1
    if isinstance(x[i], Vec):
        ar = [(x[i], x[i + 1:])]
    else:
        ar = [(first(a), list(rest(a))) for a in x[i:]]
    code = rt.comp_fn(None, ar, sc, name)
    n = rt.cur
    v = n.vars.get(name)
    if v is None:
        v = n.vars[name] = Var(n.name, name)
    v.root = code([None] * sc.fn.n)
    v.bound = True
    v.macro = True
    return lambda f: v


def sp_var(rt, x, sc):
    v = rt.resolve(x[1])
    if v is None:
        raise Unsupported('no var %s' % x[1])
    return lambda f: v


def sp_throw(rt, x, sc):
    c = rt.comp(x[1], sc)

    def run(f):
        e = c(f)
        if e is None:
            raise JEx('java.lang.NullPointerException')
        raise e
    return run


def sp_try(rt, x, sc):
    body, handlers, final = [], [], None
    for form in x[1:]:
        h = first(form) if isinstance(form, Seq) and form.some() else None
        if isinstance(h, Sym) and h.name == 'catch':
            parts = list(form)
            cls = rt.class_of(parts[1])
            name = cls.name if cls else parts[1].name
            s, slot = sc.bind(parts[2].name)
            handlers.append((name, slot, rt.body(parts[3:], s)))
        elif isinstance(h, Sym) and h.name == 'finally':
            final = rt.body(list(form)[1:], sc)
        else:
            body.append(form)
    code = rt.body(body, sc)

    def run(f):
        try:
            try:
                return code(f)
            except (JEx, RecursionError) + PYERR as e:
                for name, slot, h in handlers:
                    if catches(name, e):
                        f[slot] = e if isinstance(e, JEx) else JEx('java.lang.' + (
                            'ArithmeticException' if isinstance(e, ZeroDivisionError)
                            else 'ClassCastException'), str(e))
                        return h(f)
                raise
        finally:
            if final is not None:
                final(f)
    return run


def sp_new(rt, x, sc):
    return rt.comp_new(x[1], x[2:], sc)


def sp_dot(rt, x, sc):
    if isinstance(x[2], Seq):
        parts = list(x[2])
        return rt.comp_method(parts[0].name, x[1], parts[1:], sc)
    return rt.comp_method(x[2].name, x[1], x[3:], sc)


def sp_case(rt, x, sc):
    e = rt.comp(x[1], sc)
    clauses = x[2:]
    default = None
    if len(clauses) % 2:
        default = rt.comp(clauses[-1], sc)
        clauses = clauses[:-1]
    table = {}
    for k, v in zip(clauses[::2], clauses[1::2]):
        code = rt.comp(v, sc)
        for one in (list(k) if isinstance(k, Seq) else [k]):
            table[ck(one)] = code

    def run(f):
        v = e(f)
        code = table.get(ck(v))
        if code is None:
            if default is None:
                raise JEx('java.lang.IllegalArgumentException', 'No matching clause: ' + tostr(v))
            return default(f)
        return code(f)
    return run


def sp_letfn(rt, x, sc):
    slots = []
    for d in x[1]:
        sc, slot = sc.bind(first(d).name)
        slots.append(slot)
    codes = []
    for d in x[1]:
        codes.append(sp_fn(rt, [S('fn*')] + list(d), sc))
    body = rt.body(x[2:], sc)

    def run(f):
        fs = [None] * len(slots)

        def proxy(i):
            return lambda *a: fs[i](*a)
        for i, s in enumerate(slots):
            f[s] = proxy(i)
        for i, c in enumerate(codes):
            fs[i] = c(f)
        return body(f)
    return run


def sp_binding(rt, x, sc):
    bs = list(x[1])
    pairs = [(rt.resolve(s), rt.comp(e, sc)) for s, e in zip(bs[::2], bs[1::2])]
    body = rt.body(x[2:], sc)

    def run(f):
        vals = [(v, c(f)) for v, c in pairs]
        old = [(v, v.root, v.bound) for v, _ in vals]
        for v, val in vals:
            v.root, v.bound = val, True
        try:
            return body(f)
        finally:
            for v, r, b in old:
                v.root, v.bound = r, b
    return run


def sp_setbang(rt, x, sc):
    v = rt.resolve(x[1])
    c = rt.comp(x[2], sc)

    def run(f):
        v.root = c(f)
        return v.root
    return run


def sp_syntax_quote(rt, x, sc):
    return rt.comp(sq(rt, x[1], {}), sc)


def sq(rt, x, gens):
    if isinstance(x, Sym):
        if x.ns is None and x.name.endswith('#'):
            if x.name not in gens:
                gens[x.name] = rt.sym(x.name[:-1])
            return L(S('quote'), gens[x.name])
        if x.ns is None and not x.name.startswith('.') and not x.name.endswith('.') and x.name != '&':
            if x.name in rt.specials:
                return L(S('quote'), x)
            v = rt.resolve(x)
            if v is not None:
                return L(S('quote'), Sym(v.name, v.ns))
            if x.name in rt.macros:
                return L(S('quote'), Sym(x.name, 'clojure.core'))
            if rt.class_of(x) is not None:
                return L(S('quote'), Sym(rt.class_of(x).name))
            return L(S('quote'), Sym(x.name, rt.cur.name))
        if x.ns and x.ns in rt.cur.aliases:
            return L(S('quote'), Sym(x.name, rt.cur.aliases[x.ns]))
        return L(S('quote'), x)
    if isinstance(x, Seq):
        if not x.some():
            return L(S('quote'), x)
        h = x.first()
        if isinstance(h, Sym) and h.name == 'unquote':
            return list(x)[1]
        return L(S('apply', 'clojure.core'), S('list', 'clojure.core'), sqs(rt, x, gens))
    if isinstance(x, Vec):
        return L(S('vec', 'clojure.core'), sqs(rt, x, gens))
    if isinstance(x, PSet):
        return L(S('set', 'clojure.core'), sqs(rt, x, gens))
    if isinstance(x, PMap):
        items = []
        for k, v in x.d.values():
            items += [k, v]
        return L(S('apply', 'clojure.core'), S('hash-map', 'clojure.core'), sqs(rt, items, gens))
    return x


def sqs(rt, items, gens):
    parts = []
    for i in items:
        if isinstance(i, Seq) and i.some() and isinstance(i.first(), Sym) \
                and i.first().name == 'unquote-splicing':
            parts.append(list(i)[1])
        else:
            parts.append(L(S('list', 'clojure.core'), sq(rt, i, gens)))
    return L(S('concat', 'clojure.core'), *parts)


def libspec(rt, spec, use=False):
    """[name :as x :refer [...]] or name, or (prefix [name] ...)."""
    n = rt.cur
    if isinstance(spec, Sym):
        lib = rt.require(spec.name)
        if use:
            refer_all(n, lib)
        return
    items = list(spec)
    if isinstance(spec, Seq):
        for sub in items[1:]:
            if isinstance(sub, Sym):
                libspec(rt, Sym(items[0].name + '.' + sub.name), use)
            else:
                subs = list(sub)
                libspec(rt, Vec([Sym(items[0].name + '.' + subs[0].name)] + subs[1:]), use)
        return
    lib = rt.require(items[0].name)
    opts = dict((k.name, v) for k, v in zip(items[1::2], items[2::2]))
    if 'as' in opts:
        n.aliases[opts['as'].name] = lib.name
    refer = opts.get('refer', opts.get('only'))
    renames = {k.name: v.name for k, v in opts['rename'].d.values()} if 'rename' in opts else {}
    if isinstance(refer, Kw):
        refer_all(n, lib)
    elif refer is not None:
        for s in refer:
            v = lib.vars.get(s.name)
            if v is None:
                if s.name in rt.macros:
                    continue
                if not lib.stub:
                    raise Unsupported('%s does not exist in %s' % (s.name, lib.name))
                v = rt.stub(lib, s.name)
            n.refers[renames.get(s.name, s.name)] = v
    elif use:
        exclude = {s.name for s in opts.get('exclude', ())}
        refer_all(n, lib, exclude)


def refer_all(n, lib, exclude=()):
    for name, v in lib.vars.items():
        if name not in exclude and not (v.meta is not None and get(v.meta, kw('private'))):
            n.refers[name] = v


def do_import(rt, spec):
    if isinstance(spec, Sym):
        rt.cur.imports[short(spec.name)] = spec.name
        return
    items = list(spec)
    for s in items[1:]:
        rt.cur.imports[s.name] = items[0].name + '.' + s.name


def sp_ns(rt, x, sc):
    rt.cur = rt.ns(x[1].name)
    for clause in x[2:]:
        if not isinstance(clause, Seq):
            continue
        k = clause.first()
        for spec in rest(clause):
            if isinstance(spec, Kw):
                continue
            if k.name == 'require':
                libspec(rt, spec)
            elif k.name == 'use':
                libspec(rt, spec, True)
            elif k.name == 'import':
                do_import(rt, spec)
            elif k.name in ('refer-clojure', 'gen-class'):
                pass
            else:
                raise Unsupported('ns clause :' + k.name)
    return lambda f: None


def protocol_methods(rt, cls, body, sc, fields):
    """The methods of a deftype, of a reify: list of (name, code, arity)."""
    out = []
    for d in body:
        if not isinstance(d, Seq):
            continue
        parts = list(d)
        params = parts[1]
        if fields:
            ps = list(params)
            me = ps[0] if isinstance(ps[0], Sym) else rt.sym('this')
            binds = []
            for fld in fields:
                if fld.name not in [p.name for p in ps if isinstance(p, Sym)]:
                    binds += [fld, L(S('.-field'), S(me.name + '__me'), fld.name)]
            form = [S('fn*'), Vec([S(me.name + '__me')] + ps[1:]),
                    L(S('let'), Vec([me, S(me.name + '__me')] + binds), *parts[2:])]
        else:
            form = [S('fn*'), params] + parts[2:]
        out.append((parts[0].name, sp_fn(rt, form, sc)))
    return out


def sp_field(rt, x, sc):
    c = rt.comp(x[1], sc)
    name = x[2]
    return lambda f: c(f).fields[name]


def merge_impl(cls, name, fn):
    old = PROTO_IMPLS.get((cls, name))
    if old is not None and isinstance(old, clj.Fn):
        new = clj.Fn()
        new.arities = dict(old.arities)
        new.arities.update(fn.arities)
        new.variadic = fn.variadic or old.variadic
        new.name = name
        fn = new
    PROTO_IMPLS[(cls, name)] = fn


def sp_deftype(rt, x, sc):
    name = x[1].name
    fields = list(x[2])
    cls = rt.cur.name + '.' + name
    rt.cur.imports[name] = cls
    n = rt.cur
    for key in [k for k in PROTO_IMPLS if k[0] == cls]:
        del PROTO_IMPLS[key]

    def ctor(*args):
        if len(args) != len(fields):
            raise JEx('clojure.lang.ArityException', 'wrong number of args to %s' % name)
        return Record(cls, dict(zip([f.name for f in fields], args)))
    rt.define(n.name, '->' + name, ctor)
    methods = protocol_methods(rt, cls, x[3:], sc, fields)

    def run(f):
        for m, code in methods:
            merge_impl(cls, m, code(f))
        return JClass(cls)
    return run


def sp_defrecord(rt, x, sc):
    raise Unsupported('defrecord')


def sp_reify(rt, x, sc):
    cls = 'reify__%d' % id(x)
    methods = protocol_methods(rt, cls, x[1:], sc, None)

    def run(f):
        r = Record(cls, {})
        for m, code in methods:
            PROTO_IMPLS[(cls, m)] = code(f)
        return r
    return run


EXT = []


def sp_defprotocol(rt, x, sc):
    n = rt.cur
    for d in x[2:]:
        if not isinstance(d, Seq):
            continue
        m = first(d).name

        def dispatch(this, *args, _m=m):
            if isinstance(this, Record):
                impl = PROTO_IMPLS.get((this.cls, _m))
                if impl is not None:
                    return impl(this, *args)
            for cls, name, impl in EXT:
                if name == _m and (cls is None and this is None
                                   or cls is not None and instance(cls, this)):
                    return impl(this, *args)
            raise JEx('java.lang.IllegalArgumentException',
                      'No implementation of method: :%s found for class: %s' % (_m, tyname(this)))
        rt.define(n.name, m, dispatch)
    rt.define(n.name, x[1].name, kw(x[1].name, 'protocol'))
    return lambda f: x[1]


def sp_extend_type(rt, x, sc):
    cls = rt.class_of(x[1]) if x[1] is not None else None
    methods = protocol_methods(rt, None, x[2:], sc, None)

    def run(f):
        for m, code in methods:
            EXT.append((cls, m, code(f)))
    return run


def sp_extend_protocol(rt, x, sc):
    codes = []
    cur = []
    for i in x[2:]:
        if isinstance(i, Seq):
            cur.append(i)
        else:
            if cur:
                codes.append(sp_extend_type(rt, cur, sc))
            cur = [None, i, x[1]]
    if cur:
        codes.append(sp_extend_type(rt, cur, sc))

    def run(f):
        for c in codes:
            c(f)
    return run


class Multi:
    def __init__(self, dispatch):
        self.dispatch = dispatch
        self.methods = []
        self.default = None

    def __call__(self, *args):
        key = call(self.dispatch, *args)
        for k, m in self.methods:
            if eq(k, key):
                return m(*args)
        if isinstance(key, JClass) and args:
            for k, m in self.methods:
                if isinstance(k, JClass) and instance(k, args[0]):
                    return m(*args)
        if self.default is not None:
            return self.default(*args)
        raise JEx('java.lang.IllegalArgumentException', 'No method in multimethod')


def sp_defmulti(rt, x, sc):
    i = 2
    while isinstance(x[i], (str, PMap)):
        i += 1
    return sp_def(rt, [x[0], x[1], L(S('multi*', 'clojure.core'), x[i])], sc)


def sp_defmethod(rt, x, sc):
    v = rt.resolve(x[1])
    key = rt.comp(x[2], sc)
    code = sp_fn(rt, [S('fn*')] + x[3:], sc)

    def run(f):
        k = key(f)
        fn = code(f)
        if k is kw('default'):
            v.root.default = fn
        else:
            v.root.methods = [(a, b) for a, b in v.root.methods if not eq(a, k)] + [(k, fn)]
        return v.root
    return run


SPECIALS = {
    'quote': sp_quote, 'if': sp_if, 'do': sp_do, 'def': sp_def, 'defonce': sp_def, 'let': sp_let,
    'let*': sp_let, 'loop': sp_loop, 'loop*': sp_loop, 'recur': sp_recur, 'fn': sp_fn, 'fn*': sp_fn,
    'defmacro': sp_defmacro, 'var': sp_var, 'throw': sp_throw, 'try': sp_try, 'new': sp_new,
    '.': sp_dot, 'case': sp_case, 'letfn': sp_letfn, 'binding': sp_binding, 'set!': sp_setbang,
    'syntax-quote': sp_syntax_quote, 'ns': sp_ns, 'deftype': sp_deftype, 'defrecord': sp_defrecord,
    'reify': sp_reify, 'defprotocol': sp_defprotocol, 'extend-type': sp_extend_type,
    'extend-protocol': sp_extend_protocol, 'defmulti': sp_defmulti, 'defmethod': sp_defmethod,
    '.-field': sp_field,
}


# ---------------------------------------------------------------- macros: forms to forms

def C(name):
    return Sym(name, 'clojure.core')


def m_defn(rt, name, *b):
    b = list(b)
    if b and isinstance(b[0], str):
        b = b[1:]
    if b and isinstance(b[0], PMap):
        b = b[1:]
    return L(S('def'), name, L(S('fn'), *([S(name.name)] + b)))


def m_defn_private(rt, name, *b):
    return m_defn(rt, Sym(name.name, None, pmap([(kw('private'), True)])), *b)


def m_declare(rt, *names):
    return L(S('do'), *[L(S('def'), n) for n in names])


def m_when(rt, c, *b):
    return L(S('if'), c, L(S('do'), *b))


def m_when_not(rt, c, *b):
    return L(S('if'), c, None, L(S('do'), *b))


def m_if_not(rt, c, a, b=None):
    return L(S('if'), c, b, a)


def m_cond(rt, *cl):
    if not cl:
        return None
    if len(cl) < 2:
        raise Unsupported('cond requires an even number of forms')
    return L(S('if'), cl[0], cl[1], L(C('cond'), *cl[2:]))


def m_condp(rt, pred, e, *cl):
    p, v = rt.sym(), rt.sym()

    def build(cl):
        if not cl:
            return L(S('throw'), L(S('IllegalArgumentException.'), 'No matching clause'))
        if len(cl) == 1:
            return cl[0]
        if cl[1] is kw('>>'):
            t = rt.sym()
            return L(C('if-let'), Vec([t, L(p, cl[0], v)]), L(cl[2], t), build(cl[3:]))
        return L(S('if'), L(p, cl[0], v), cl[1], build(cl[2:]))
    return L(S('let'), Vec([p, pred, v, e]), build(cl))


def m_and(rt, *xs):
    if not xs:
        return True
    if len(xs) == 1:
        return xs[0]
    g = rt.sym('and')
    return L(S('let'), Vec([g, xs[0]]), L(S('if'), g, L(C('and'), *xs[1:]), g))


def m_or(rt, *xs):
    if not xs:
        return None
    if len(xs) == 1:
        return xs[0]
    g = rt.sym('or')
    return L(S('let'), Vec([g, xs[0]]), L(S('if'), g, g, L(C('or'), *xs[1:])))


def m_thread(rt, x, *fs):
    for f in fs:
        if isinstance(f, Seq):
            x = L(f.first(), x, *list(rest(f)))
        else:
            x = L(f, x)
    return x


def m_thread_last(rt, x, *fs):
    for f in fs:
        x = L(*(list(f) + [x])) if isinstance(f, Seq) else L(f, x)
    return x


def m_some_thread(rt, x, *fs):
    if not fs:
        return x
    g = rt.sym()
    return L(S('let'), Vec([g, x]), L(S('if'), L(C('nil?'), g), None,
                                      L(C('some->'), m_thread(rt, g, fs[0]), *fs[1:])))


def m_some_thread_last(rt, x, *fs):
    if not fs:
        return x
    g = rt.sym()
    return L(S('let'), Vec([g, x]), L(S('if'), L(C('nil?'), g), None,
                                      L(C('some->>'), m_thread_last(rt, g, fs[0]), *fs[1:])))


def m_cond_thread(rt, x, *cl, last=False):
    for c, f in zip(cl[::2], cl[1::2]):
        g = rt.sym()
        x = L(S('let'), Vec([g, x]), L(S('if'), c, (m_thread_last if last else m_thread)(rt, g, f), g))
    return x


def m_as_thread(rt, x, name, *fs):
    binds = [name, x]
    for f in fs:
        binds += [name, f]
    return L(S('let'), Vec(binds), name)


def m_if_let(rt, b, a, c=None):
    g = rt.sym()
    bs = list(b)
    return L(S('let'), Vec([g, bs[1]]), L(S('if'), g, L(S('let'), Vec([bs[0], g]), a), c))


def m_when_let(rt, b, *body):
    return m_if_let(rt, b, L(S('do'), *body))


def m_if_some(rt, b, a, c=None):
    g = rt.sym()
    bs = list(b)
    return L(S('let'), Vec([g, bs[1]]), L(S('if'), L(C('nil?'), g), c, L(S('let'), Vec([bs[0], g]), a)))


def m_when_some(rt, b, *body):
    return m_if_some(rt, b, L(S('do'), *body))


def m_when_first(rt, b, *body):
    g = rt.sym()
    bs = list(b)
    return L(C('when-let'), Vec([g, L(C('seq'), bs[1])]),
             L(S('let'), Vec([bs[0], L(C('first'), g)]), *body))


def m_doseq(rt, b, *body):
    bs = list(b)
    if not bs:
        return L(S('do'), *(list(body) + [None]))
    p, e, more = bs[0], bs[1], bs[2:]
    if isinstance(p, Kw):
        inner = L(C('doseq'), Vec(more), *body)
        if p.name == 'let':
            return L(S('let'), e, inner)
        if p.name == 'when':
            return L(C('when'), e, inner)
        if p.name == 'while':
            return L(S('if'), e, inner, C('stop-iteration'))
    g = rt.sym()
    return L(C('doseq*'), L(S('fn*'), Vec([g]), L(S('let'), Vec([p, g]), L(C('doseq'), Vec(more), *body))),
             e)


def m_for(rt, b, body):
    bs = list(b)
    if not bs:
        return L(C('list'), body)
    p, e, more = bs[0], bs[1], bs[2:]
    if isinstance(p, Kw):
        inner = L(C('for'), Vec(more), body)
        if p.name == 'let':
            return L(S('let'), e, inner)
        if p.name == 'when':
            return L(S('if'), e, inner)
        if p.name == 'while':
            return L(S('if'), e, inner, C('stop-iteration'))
    g = rt.sym()
    return L(C('for*'), L(S('fn*'), Vec([g]), L(S('let'), Vec([p, g]), L(C('for'), Vec(more), body))), e)


def m_dotimes(rt, b, *body):
    bs = list(b)
    return L(C('doseq'), Vec([bs[0], L(C('range'), bs[1])]), *body)


def m_doto(rt, x, *fs):
    g = rt.sym()
    return L(S('let'), Vec([g, x]), *([m_thread(rt, g, f) for f in fs] + [g]))


def m_dotdot(rt, x, *fs):
    for f in fs:
        x = L(S('.'), x, *(list(f) if isinstance(f, Seq) else [f]))
    return x


def m_while(rt, c, *body):
    return L(S('loop'), Vec(), L(C('when'), c, *(list(body) + [L(S('recur'))])))


def m_fn0(core):
    def m(rt, *body):
        return L(C(core), L(S('fn*'), Vec(), *body))
    return m


def m_assert(rt, x, msg=None):
    return L(S('if'), x, None, L(S('throw'), L(S('AssertionError.'), 'Assert failed: ' + pr(x))))


def m_comment(rt, *xs):
    return None


def m_with_open(rt, b, *body):
    bs = list(b)
    if not bs:
        return L(S('do'), *body)
    return L(S('let'), Vec(bs[:2]), L(S('try'), L(C('with-open'), Vec(bs[2:]), *body),
                                      L(S('finally'), L(S('.close'), bs[0]))))


def m_deftest(rt, name, *body):
    return L(S('do'), L(S('def'), name, L(S('fn*'), Vec(), *body)),
             L(C('add-test'), name.name, name))


def m_is(rt, x, msg=None):
    if isinstance(x, Seq) and isinstance(x.first(), Sym) and x.first().name == 'thrown?':
        parts = list(x)
        return L(C('is*'), L(S('try'), L(S('do'), *parts[2:]), False, L(S('catch'), parts[1], S('e'), True)),
                 pr(x))
    return L(C('is*'), x, pr(x))


def m_do(rt, *b):
    return L(S('do'), *b)


def m_testing(rt, s, *b):
    return L(S('do'), *b)


def m_with_db_transaction(rt, b, *body):
    bs = list(b)
    return L(Sym('db-transaction*', 'clojure.java.jdbc'), bs[1], L(S('fn*'), Vec([bs[0]]), *body))


def m_in_ns(rt, x):
    return L(S('ns'), list(x)[1])


def m_lib(use):
    def m(rt, *specs):
        for s in specs:
            s = list(s)[1] if isinstance(s, Seq) and s.first() == S('quote') else s
            libspec(rt, s, use)
        return None
    return m


def m_import(rt, *specs):
    for s in specs:
        do_import(rt, list(s)[1] if isinstance(s, Seq) and s.first() == S('quote') else s)


MACROS = {
    'defn': m_defn, 'defn-': m_defn_private, 'declare': m_declare, 'when': m_when, 'when-not': m_when_not,
    'if-not': m_if_not, 'cond': m_cond, 'condp': m_condp, 'and': m_and, 'or': m_or, '->': m_thread,
    '->>': m_thread_last, 'some->': m_some_thread, 'some->>': m_some_thread_last, 'cond->': m_cond_thread,
    'cond->>': functools.partial(m_cond_thread, last=True), 'as->': m_as_thread, 'if-let': m_if_let,
    'when-let': m_when_let, 'if-some': m_if_some, 'when-some': m_when_some, 'when-first': m_when_first,
    'doseq': m_doseq, 'for': m_for, 'dotimes': m_dotimes, 'doto': m_doto, '..': m_dotdot,
    'while': m_while, 'lazy-seq': m_fn0('lazy-seq*'), 'delay': m_fn0('delay*'),
    'future': m_fn0('delay*'), 'assert': m_assert, 'comment': m_comment, 'with-open': m_with_open,
    'deftest': m_deftest, 'is': m_is, 'testing': m_testing, 'in-ns': m_in_ns, 'require': m_lib(False),
    'use': m_lib(True), 'import': m_import, 'with-out-str': m_fn0('with-out-str*'), 'time': m_do,
    'dosync': m_do, 'locking': lambda rt, l, *b: L(S('do'), *b), 'lazy-cat': lambda rt, *xs: L(
        C('concat'), *[L(C('lazy-seq'), x) for x in xs]),
}


# ---------------------------------------------------------------- functions

class Stop(Exception):
    pass


def fold(op):
    def f(*xs):
        acc = num(xs[0])
        for x in xs[1:]:
            acc = op(acc, num(x))
        return acc
    return f


def add(*xs):
    acc = 0
    if not xs:
        return 0
    acc = num(xs[0])
    for x in xs[1:]:
        acc = chk(simp(acc + num(x)))
    return acc


def sub(x, *xs):
    if not xs:
        return chk(-num(x))
    acc = num(x)
    for y in xs:
        acc = chk(simp(acc - num(y)))
    return acc


def mul(*xs):
    acc = 1
    for x in xs:
        acc = chk(simp(acc * num(x)))
    return acc


def div1(a, b):
    num(a), num(b)
    if isinstance(a, float) or isinstance(b, float):
        if b == 0:
            a = float(a)
            if a == 0 or a != a:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1, float(b))
        return float(a) / float(b)
    if b == 0:
        raise JEx('java.lang.ArithmeticException', 'Divide by zero')
    return simp(Fraction(a) / Fraction(b))


def div(x, *xs):
    if not xs:
        return div1(1, x)
    for y in xs:
        x = div1(x, y)
    return x


def quot(a, b):
    num(a), num(b)
    if b == 0:
        raise JEx('java.lang.ArithmeticException', 'Divide by zero')
    if isinstance(a, float) or isinstance(b, float):
        return float(math.trunc(a / b))
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def rem(a, b):
    q = quot(a, b)
    return a - q * b


def mod(a, b):
    num(a), num(b)
    if b == 0:
        raise JEx('java.lang.ArithmeticException', 'Divide by zero')
    return a - b * math.floor(a / b) if isinstance(a, float) or isinstance(b, float) else a % b


def cmp(op):
    def f(*xs):
        if len(xs) == 1:
            return True
        for a, b in zip(xs, xs[1:]):
            if not op(num(a), num(b)):
                return False
        return True
    return f


def f_eq(*xs):
    return all(eq(a, b) for a, b in zip(xs, xs[1:]))


def numeq(*xs):
    return all(num(a) == num(b) for a, b in zip(xs, xs[1:]))


def count(x):
    if x is None:
        return 0
    if isinstance(x, (Vec, PMap, PSet, str, list, tuple, dict)):
        return len(x)
    if isinstance(x, Seq):
        return sum(1 for _ in x)
    if hasattr(x, 'java_iter'):
        return sum(1 for _ in x.java_iter())
    raise JEx('java.lang.UnsupportedOperationException', 'count not supported on this type: ' + tyname(x))


def empty_p(x):
    return seq(x) is None


def f_map(f, *colls):
    if not colls:
        return lambda rf: Xf(rf, lambda rf, acc, x: rf(acc, call(f, x)))
    if len(colls) == 1:
        c = colls[0]

        def gen():
            for x in seq_iter(c):
                yield call(f, x)
    else:
        def gen():
            for xs in zip(*[seq_iter(c) for c in colls]):
                yield call(f, *xs)
    return lazy(gen())


class Xf:
    def __init__(self, rf, step):
        self.rf, self.step = rf, step

    def __call__(self, *a):
        if len(a) == 2:
            return self.step(self.rf, *a)
        return self.rf(*a)


def transduce(xf, f, *a):
    init, src = a if len(a) == 2 else (call(f), a[0])
    rf = call(xf, f)
    acc = init
    for x in seq_iter(src):
        acc = call(rf, acc, x)
        if isinstance(acc, Reduced):
            acc = acc.v
            break
    return call(rf, acc)


def f_sequence(*a):
    if len(a) == 1:
        return seq(a[0]) or EMPTY
    if len(a) > 2:
        raise Unsupported('sequence of several collections')
    return plist(transduce(a[0], lambda *b: b[0] + [b[1]] if len(b) == 2 else b[0], [], a[1]))


def x_cat(rf):
    def step(rf, acc, x):
        for y in seq_iter(x):
            acc = call(rf, acc, y)
            if isinstance(acc, Reduced):
                return acc
        return acc
    return Xf(rf, step)


def stateful(make):
    """A transducer that keeps a state: make() gives step(rf, acc, x)."""
    return lambda rf: Xf(rf, make())


def x_take(n):
    def make():
        left = [n]

        def step(rf, acc, x):
            left[0] -= 1
            acc = call(rf, acc, x) if left[0] >= 0 else acc
            return acc if left[0] > 0 or isinstance(acc, Reduced) else Reduced(acc)
        return step
    return stateful(make)


def x_drop(n):
    def make():
        left = [n]

        def step(rf, acc, x):
            left[0] -= 1
            return call(rf, acc, x) if left[0] < 0 else acc
        return step
    return stateful(make)


def x_take_while(p):
    return lambda rf: Xf(rf, lambda rf, acc, x: call(rf, acc, x) if truthy(call(p, x)) else Reduced(acc))


def x_drop_while(p):
    def make():
        on = []

        def step(rf, acc, x):
            if not on and truthy(call(p, x)):
                return acc
            on.append(1)
            return call(rf, acc, x)
        return step
    return stateful(make)


def x_distinct():
    def make():
        seen = set()

        def step(rf, acc, x):
            if ck(x) in seen:
                return acc
            seen.add(ck(x))
            return call(rf, acc, x)
        return step
    return stateful(make)


def x_keep_indexed(f, keep=True):
    def make():
        n = itertools.count()

        def step(rf, acc, x):
            v = call(f, next(n), x)
            return acc if keep and v is None else call(rf, acc, v)
        return step
    return stateful(make)


def x_keep(f):
    return x_keep_indexed(lambda i, x: call(f, x))


def trampoline(f, *a):
    v = call(f, *a)
    while isinstance(v, clj.Fn):
        v = call(v)
    return v


def short_form(arity, make, full):
    """With `arity` arguments, a transducer."""
    return lambda *a: make(*a) if len(a) == arity else full(*a)


def f_mapv(f, *colls):
    return Vec(f_map(f, *colls))


def f_filter(p, *c):
    if not c:
        return lambda rf: Xf(rf, lambda rf, acc, x: rf(acc, x) if truthy(call(p, x)) else acc)
    return lazy(x for x in seq_iter(c[0]) if truthy(call(p, x)))


def f_remove(p, *c):
    if not c:
        return lambda rf: Xf(rf, lambda rf, acc, x: acc if truthy(call(p, x)) else rf(acc, x))
    return lazy(x for x in seq_iter(c[0]) if not truthy(call(p, x)))


def f_keep(p, c):
    def gen():
        for x in seq_iter(c):
            v = call(p, x)
            if v is not None:
                yield v
    return lazy(gen())


def f_map_indexed(f, c):
    return lazy(call(f, i, x) for i, x in enumerate(seq_iter(c)))


def f_keep_indexed(f, c):
    def gen():
        for i, x in enumerate(seq_iter(c)):
            v = call(f, i, x)
            if v is not None:
                yield v
    return lazy(gen())


def f_mapcat(f, *colls):
    if not colls:
        return lambda rf: f_map(f)(x_cat(rf))

    def gen():
        for x in f_map(f, *colls):
            for y in seq_iter(x):
                yield y
    return lazy(gen())


def f_concat(*cs):
    def gen():
        for c in cs:
            for x in seq_iter(c):
                yield x
    return lazy(gen())


def f_reduce(f, *a):
    if len(a) == 2:
        acc, it = a[0], seq_iter(a[1])
    else:
        it = seq_iter(a[0])
        try:
            acc = next(it)
        except StopIteration:
            return call(f)
    for x in it:
        acc = call(f, acc, x)
        if isinstance(acc, Reduced):
            return acc.v
    return acc


def f_reduce_kv(f, acc, m):
    if m is None:
        return acc
    pairs = m.d.values() if isinstance(m, PMap) else enumerate(seq_iter(m))
    for k, v in pairs:
        acc = call(f, acc, k, v)
        if isinstance(acc, Reduced):
            return acc.v
    return acc


def f_reductions(f, *a):
    def gen():
        if len(a) == 2:
            acc, it = a[0], seq_iter(a[1])
        else:
            it = seq_iter(a[0])
            try:
                acc = next(it)
            except StopIteration:
                yield call(f)
                return
        yield acc
        for x in it:
            acc = call(f, acc, x)
            yield acc
    return lazy(gen())


def f_apply(f, *a):
    return call(f, *(a[:-1] + tuple(seq_iter(a[-1]))))


def f_conj(*a):
    if not a:
        return Vec()
    c = a[0]
    for x in a[1:]:
        c = conj1(c, x)
    return c


def f_into(*a):
    if not a:
        return Vec()
    if len(a) == 1:
        return a[0]
    to, src = a[0], a[-1]
    if len(a) == 3:
        return transduce(a[1], lambda *b: conj1(*b) if len(b) == 2 else b[0], to, src)
    if isinstance(to, Vec):
        return Vec(to.t + tuple(seq_iter(src)))
    for x in seq_iter(src):
        to = conj1(to, x)
    return to


def f_assoc(m, *kvs):
    if len(kvs) % 2 or not kvs:
        raise JEx('java.lang.IllegalArgumentException', 'assoc expects even number of arguments')
    for k, v in zip(kvs[::2], kvs[1::2]):
        if m is None:
            m = pmap([(k, v)])
        elif isinstance(m, PMap):
            m = m.assoc(k, v)
        elif isinstance(m, Vec):
            if not is_int(k):
                raise JEx('java.lang.IllegalArgumentException', 'Key must be integer')
            if not 0 <= k <= len(m.t):
                raise JEx('java.lang.IndexOutOfBoundsException')
            m = Vec(m.t[:k] + (v,) + m.t[k + 1:])
        else:
            raise JEx('java.lang.ClassCastException', tyname(m) + ' cannot be cast to Associative')
    return m


def f_dissoc(m, *ks):
    if m is None:
        return None
    for k in ks:
        m = m.dissoc(k)
    return m


def f_get_in(m, ks, d=None):
    miss = object()
    for k in seq_iter(ks):
        m = get(m, k, miss)
        if m is miss:
            return d
    return m


def f_assoc_in(m, ks, v):
    ks = list(seq_iter(ks))
    if len(ks) == 1:
        return f_assoc(m, ks[0], v)
    return f_assoc(m, ks[0], f_assoc_in(get(m, ks[0]), ks[1:], v))


def f_update(m, k, f, *a):
    return f_assoc(m, k, call(f, get(m, k), *a))


def f_update_in(m, ks, f, *a):
    ks = list(seq_iter(ks))
    if len(ks) == 1:
        return f_update(m, ks[0], f, *a)
    return f_assoc(m, ks[0], f_update_in(get(m, ks[0]), ks[1:], f, *a))


def contains(m, k):
    if m is None:
        return False
    if isinstance(m, PMap) or isinstance(m, PSet):
        return (m.slot(k) if isinstance(m, PMap) else ck(k)) in m.d
    if isinstance(m, (Vec, str)):
        return is_int(k) and 0 <= k < len(m)
    raise JEx('java.lang.IllegalArgumentException', 'contains? not supported on type: ' + tyname(m))


def nth(x, i, *d):
    if not is_int(i):
        raise JEx('java.lang.ClassCastException', 'index')
    if x is None:
        return d[0] if d else None
    miss = object()
    v = clj._nth(x, i, miss) if i >= 0 else miss
    if v is miss:
        if d:
            return d[0]
        raise JEx('java.lang.StringIndexOutOfBoundsException' if isinstance(x, str)
                  else 'java.lang.IndexOutOfBoundsException')
    return v


def last(x):
    if isinstance(x, Vec):
        return x.t[-1] if x.t else None
    if isinstance(x, str):
        return char(x[-1]) if x else None
    v = None
    for v in seq_iter(x):
        pass
    return v


def butlast(x):
    items = list(seq_iter(x))[:-1]
    return plist(items) if items else None


def drop_last(*a):
    n, c = (1, a[0]) if len(a) == 1 else a
    items = list(seq_iter(c))
    return lazy(items[:max(0, len(items) - max(0, n))])


def take(n, *c):
    return lazy(itertools.islice(_it(c[0]), max(0, n)))


def _it(c):
    """Delays the creation of the iterator."""
    def gen():
        for x in seq_iter(c):
            yield x
    return gen()


def drop(n, c):
    return lazy(itertools.islice(_it(c), max(0, n), None))


def take_last(n, c):
    items = list(seq_iter(c))
    items = items[len(items) - n:] if 0 < n <= len(items) else items if n > 0 else []
    return plist(items) if items else None


def take_while(p, c):
    return lazy(itertools.takewhile(lambda x: truthy(call(p, x)), _it(c)))


def drop_while(p, c):
    return lazy(itertools.dropwhile(lambda x: truthy(call(p, x)), _it(c)))


def take_nth(n, c):
    return lazy(itertools.islice(_it(c), 0, None, n))


def partition(n, *a):
    step, pad = n, None
    if len(a) == 1:
        c = a[0]
    elif len(a) == 2:
        step, c = a
    else:
        step, pad, c = a

    def gen():
        items = list(seq_iter(c))
        i = 0
        while i < len(items):
            part = items[i:i + n]
            if len(part) < n:
                if len(a) == 3:
                    yield plist(part + list(seq_iter(pad))[:n - len(part)])
                return
            yield plist(part)
            i += step
    return lazy(gen())


def partition_all(n, *a):
    step, c = (n, a[0]) if len(a) == 1 else a

    def gen():
        items = list(seq_iter(c))
        for i in range(0, len(items), step):
            yield plist(items[i:i + n])
    return lazy(gen())


def partition_by(f, c):
    def gen():
        cur, key = [], None
        for x in seq_iter(c):
            k = call(f, x)
            if cur and not eq(k, key):
                yield plist(cur)
                cur = []
            key = k
            cur.append(x)
        if cur:
            yield plist(cur)
    return lazy(gen())


def f_range(*a):
    if not a:
        return lazy(itertools.count())
    start, end, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    num(start), num(end)

    def gen():
        x = start
        while (x < end) if step > 0 else (x > end):
            yield x
            x += step
    s = lazy(gen())
    s.lazy = False
    return s


def f_repeat(*a):
    if len(a) == 1:
        return lazy(itertools.repeat(a[0]))
    return lazy(itertools.repeat(a[1], max(0, a[0])))


def f_repeatedly(*a):
    if len(a) == 1:
        return lazy(call(a[0]) for _ in itertools.count())
    return lazy(call(a[1]) for _ in range(a[0]))


def f_iterate(f, x):
    def gen():
        v = x
        while True:
            yield v
            v = call(f, v)
    return lazy(gen())


def f_cycle(c):
    items = list(seq_iter(c))
    return lazy(itertools.cycle(items))


def interleave(*cs):
    return lazy(x for t in zip(*[_it(c) for c in cs]) for x in t)


def interpose(sep, c):
    def gen():
        for i, x in enumerate(seq_iter(c)):
            if i:
                yield sep
            yield x
    return lazy(gen())


def f_flatten(x):
    def gen(x):
        for i in seq_iter(x):
            if sequential(i):
                yield from gen(i)
            else:
                yield i
    if not sequential(x):
        return EMPTY
    return lazy(gen(x))


def distinct(c):
    def gen():
        seen = set()
        for x in seq_iter(c):
            k = ck(x)
            if k not in seen:
                seen.add(k)
                yield x
    return lazy(gen())


def dedupe(c):
    def gen():
        prev = object()
        for x in seq_iter(c):
            if not eq(prev, x):
                yield x
            prev = x
    return lazy(gen())


def frequencies(c):
    d = {}
    for x in seq_iter(c):
        k = ck(x)
        d[k] = (x, d[k][1] + 1) if k in d else (x, 1)
    return PMap(d)


def group_by(f, c):
    m = PMap()
    for x in seq_iter(c):
        k = call(f, x)
        m = m.assoc(k, conj1(get(m, k, Vec()), x))
    return m


def order(f, a, b):
    r = call(f, a, b)
    if isinstance(r, bool) or r is None:
        if r:
            return -1
        r = call(f, b, a)
        return 1 if truthy(r) else 0
    return int(r)


def comparator(f):
    return functools.cmp_to_key(lambda a, b: order(f, a, b))


def sorted_map(cmp, items):
    m = PMap({}, cmp)
    for k, v in zip(items[::2], items[1::2]):
        m = m.assoc(k, v)
    return m


def f_sort(*a):
    f, c = (compare, a[0]) if len(a) == 1 else a
    items = sorted(seq_iter(c), key=comparator(f))
    return plist(items)


def f_sort_by(kf, *a):
    f, c = (compare, a[0]) if len(a) == 1 else a
    key = comparator(f)
    items = sorted(seq_iter(c), key=lambda x: key(call(kf, x)))
    return plist(items)


def some(p, c):
    for x in seq_iter(c):
        v = call(p, x)
        if truthy(v):
            return v
    return None


def every(p, c):
    return all(truthy(call(p, x)) for x in seq_iter(c))


def f_max(*xs):
    acc = num(xs[0])
    for x in xs[1:]:
        acc = x if num(x) > acc else acc
    return acc


def f_min(*xs):
    acc = num(xs[0])
    for x in xs[1:]:
        acc = x if num(x) < acc else acc
    return acc


def max_key(k, *xs):
    acc = xs[0]
    for x in xs[1:]:
        # the last of equal ones, as in Clojure 1.8 from the third on; the first pair gives the second
        if not call(k, acc) > call(k, x):
            acc = x
    return acc


def min_key(k, *xs):
    acc = xs[0]
    for x in xs[1:]:
        if not call(k, acc) < call(k, x):
            acc = x
    return acc


def merge(*ms):
    out = None
    for m in ms:
        if m is not None:
            out = m if out is None else conj1(out, m)
    return out


def merge_with(f, *ms):
    ms = [m for m in ms if m is not None]
    if not ms:
        return None
    out = ms[0]
    for m in ms[1:]:
        for c, (k, v) in m.d.items():
            out = out.assoc(k, call(f, get(out, k), v)) if c in out.d else out.assoc(k, v)
    return out


def select_keys(m, ks):
    return pmap([(k, get(m, k)) for k in seq_iter(ks) if m is not None and contains(m, k)])


def f_str(*xs):
    return ''.join([tostr(x) for x in xs])


def subs(s, a, b=None):
    if not isinstance(s, str):
        raise JEx('java.lang.ClassCastException' if s is not None else 'java.lang.NullPointerException')
    b = len(s) if b is None else b
    if not 0 <= a <= b <= len(s):
        raise JEx('java.lang.StringIndexOutOfBoundsException', 'String index out of range')
    return s[a:b]


def f_int(x):
    if isinstance(x, Char):
        return ord(x.c)
    num(x)
    x = math.trunc(x)
    if not -(1 << 31) <= x < 1 << 31:
        raise JEx('java.lang.IllegalArgumentException', 'Value out of range for int: %d' % x)
    return x


def f_long(x):
    if isinstance(x, Char):
        return ord(x.c)
    return math.trunc(num(x))


def f_char(x):
    if isinstance(x, Char):
        return x
    if not is_int(x):
        raise JEx('java.lang.ClassCastException')
    if not 0 <= x < 65536:
        raise JEx('java.lang.IllegalArgumentException', 'Value out of range for char: %d' % x)
    return char(chr(x))


def f_name(x):
    if isinstance(x, str):
        return x
    if isinstance(x, (Kw, Sym)):
        return x.name
    raise JEx('java.lang.ClassCastException', tyname(x) + ' cannot be cast to clojure.lang.Named')


def f_keyword(*a):
    if len(a) == 2:
        return kw(a[1], a[0])
    x = a[0]
    if isinstance(x, Kw):
        return x
    if isinstance(x, Sym):
        return kw(x.name, x.ns)
    if isinstance(x, str):
        return kw(x)
    return None


def f_symbol(*a):
    if len(a) == 2:
        return Sym(a[1], a[0])
    x = a[0]
    if isinstance(x, Sym):
        return x
    ns, _, name = x.rpartition('/')
    return Sym(name, ns) if ns and name else Sym(x)


def deref(x):
    if isinstance(x, Atom):
        return x.v
    if isinstance(x, Delay):
        return x.force()
    if isinstance(x, Var):
        return x.get()
    if isinstance(x, Reduced):
        return x.v
    raise JEx('java.lang.ClassCastException', tyname(x) + ' cannot be cast to IDeref')


def swap(a, f, *xs):
    a.v = call(f, a.v, *xs)
    return a.v


def reset(a, v):
    a.v = v
    return v


def comp(*fs):
    if not fs:
        return lambda x: x

    def f(*a):
        v = call(fs[-1], *a)
        for g in reversed(fs[:-1]):
            v = call(g, v)
        return v
    return f


def partial(f, *a):
    return lambda *b: call(f, *(a + b))


def juxt(*fs):
    return lambda *a: Vec([call(f, *a) for f in fs])


def fnil(f, *ds):
    def g(*a):
        a = list(a)
        for i, d in enumerate(ds):
            if i < len(a) and a[i] is None:
                a[i] = d
        return call(f, *a)
    return g


def complement(f):
    return lambda *a: not truthy(call(f, *a))


def memoize(f):
    cache = {}

    def g(*a):
        k = tuple(ck(x) for x in a)
        if k not in cache:
            cache[k] = call(f, *a)
        return cache[k]
    return g


def list_star(*a):
    return cons_all(a[:-1], a[-1])


def cons_all(items, s):
    for x in reversed(items):
        s = cons(x, s)
    return s


def lazy_seq(f):
    def gen():
        for x in seq_iter(call(f)):
            yield x
    return lazy(gen())


STOP = object()


def doseq_star(f, c):
    for x in seq_iter(c):
        if call(f, x) is STOP:
            break
    return None


def for_star(f, c):
    def gen():
        for x in seq_iter(c):
            r = call(f, x)
            if r is STOP:
                return
            for y in seq_iter(r):
                yield y
    return lazy(gen())


def doall(*a):
    c = a[-1]
    if isinstance(c, Seq):
        for _ in c:
            pass
    return c


def dorun(*a):
    doall(*a)
    return None


def pop(c):
    if c is None:
        return None
    if isinstance(c, Vec):
        if not c.t:
            raise JEx('java.lang.IllegalStateException', "Can't pop empty vector")
        return Vec(c.t[:-1])
    if not seq(c):
        raise JEx('java.lang.IllegalStateException', "Can't pop empty list")
    return rest(c)


def peek(c):
    if isinstance(c, Vec):
        return c.t[-1] if c.t else None
    return first(c)


def subvec(v, a, b=None):
    b = len(v) if b is None else b
    if not 0 <= a <= b <= len(v):
        raise JEx('java.lang.IndexOutOfBoundsException')
    return Vec(v.t[a:b])


def find(m, k):
    e = m.d.get(m.slot(k)) if m is not None else None
    return Vec(e) if e else None


def zipmap(ks, vs):
    return pmap(zip(seq_iter(ks), seq_iter(vs)))


def disj(s, *ks):
    if s is None:
        return None
    d = dict(s.d)
    for k in ks:
        d.pop(ck(k), None)
    return PSet(d)


def empty(c):
    if isinstance(c, Vec):
        return Vec()
    if isinstance(c, PMap):
        return PMap()
    if isinstance(c, PSet):
        return PSet()
    if isinstance(c, Seq):
        return EMPTY
    return None


def split_at(n, c):
    return Vec([take(n, c), drop(n, c)])


def split_with(p, c):
    return Vec([take_while(p, c), drop_while(p, c)])


def read_string(rt):
    return lambda s: next(clj.Reader(s, rt=rt).forms())


def compare_pred(t):
    return lambda x: isinstance(x, t)


def nthrest(c, n):
    for _ in range(n):
        c = rest(c)
    return c


def nthnext(c, n):
    return seq(nthrest(c, n))


def tree_seq(branch, children, root):
    def gen(n):
        yield n
        if truthy(call(branch, n)):
            for c in seq_iter(call(children, n)):
                yield from gen(c)
    return lazy(gen(root))


def f_format(fmt, *a):
    def sub(m):
        spec, conv = m.group(1), m.group(2)
        if conv == '%':
            return '%'
        if conv == 'n':
            return '\n'
        v = next(it)
        if conv in 'sS':
            return ('%' + spec + 's') % ('null' if v is None else tostr(v))
        if conv == 'd':
            if not is_int(v):
                raise JEx('java.util.IllegalFormatConversionException')
            return ('%' + spec + 'd') % v
        if conv in 'fxXeg':
            return ('%' + spec + conv) % v
        raise Unsupported('format ' + fmt)
    it = iter(a)
    try:
        return re.sub(r'%([-+0 ,\d.]*)([a-zA-Z%])', sub, fmt)
    except StopIteration:
        raise JEx('java.util.MissingFormatArgumentException')


def ex_info(msg, data, *c):
    return JEx('clojure.lang.ExceptionInfo', msg, data)


def re_result(m):
    if m is None:
        return None
    if m.re.groups == 0:
        return m.group(0)
    return Vec([m.group(0)] + list(m.groups()))


def re_find(p, s):
    return re_result(p.re.search(s))


def re_matches(p, s):
    return re_result(p.re.fullmatch(s))


def re_seq(p, s):
    return lazy(re_result(m) for m in p.re.finditer(s))


def shuffle(c):
    items = list(seq_iter(c))
    pyrandom.shuffle(items)
    return Vec(items)


def f_cast(cls, x):
    return x


def destructure_plain(bs):
    if all(isinstance(b, Sym) for b in list(bs)[::2]):
        return bs
    raise Unsupported('destructure')


def bitop(op):
    return lambda a, b, *c: functools.reduce(op, (a, b) + c)


def install_core(rt):
    import operator as o
    out = rt.out

    def printer(readable, newline):
        def f(*a):
            out.append(' '.join(pr(x, readable) if readable or not isinstance(x, Seq) or not x.lazy
                                else pr(x, False) for x in a) + ('\n' if newline else ''))
            return None
        return f

    def with_out_str(f):
        saved = list(out)
        del out[:]
        try:
            call(f)
            return ''.join(out)
        finally:
            out[:] = saved

    tests = rt.tests = []
    rt.failures = []
    rt.passed = [0]

    def is_star(v, text):
        if truthy(v):
            rt.passed[0] += 1
        else:
            rt.failures.append(text)
        return v

    fns = {
        '+': add, '-': sub, '*': mul, '/': div, 'quot': quot, 'rem': rem, 'mod': mod, 'inc': lambda x: add(x, 1),
        'dec': lambda x: sub(x, 1), "+'": lambda *x: sum(x), "*'": lambda *x: math.prod(x),
        'unchecked-multiply': lambda a, b: wrap64(num(a) * num(b)),
        'unchecked-add': lambda a, b: wrap64(num(a) + num(b)),
        'unchecked-subtract': lambda a, b: wrap64(num(a) - num(b)),
        'unchecked-inc': lambda a: wrap64(a + 1),
        '<': cmp(o.lt), '>': cmp(o.gt), '<=': cmp(o.le), '>=': cmp(o.ge), '==': numeq, '=': f_eq,
        'not=': lambda *a: not f_eq(*a), 'not': lambda x: not truthy(x), 'identical?': lambda a, b: a is b,
        'compare': compare, 'zero?': lambda x: num(x) == 0, 'pos?': lambda x: num(x) > 0,
        'neg?': lambda x: num(x) < 0, 'even?': lambda x: num(x) % 2 == 0, 'odd?': lambda x: num(x) % 2 == 1,
        'max': f_max, 'min': f_min, 'max-key': max_key, 'min-key': min_key, 'abs': lambda x: abs(num(x)),
        'nil?': lambda x: x is None, 'some?': lambda x: x is not None, 'true?': lambda x: x is True,
        'false?': lambda x: x is False, 'string?': compare_pred(str), 'char?': compare_pred(Char),
        'keyword?': compare_pred(Kw), 'symbol?': compare_pred(Sym), 'vector?': compare_pred(Vec),
        'map?': compare_pred(PMap), 'set?': compare_pred(PSet),
        'list?': lambda x: isinstance(x, Seq) and not x.lazy, 'seq?': compare_pred(Seq),
        'sequential?': sequential, 'coll?': coll, 'number?': is_num, 'integer?': is_int, 'int?': is_int,
        'float?': compare_pred(float), 'double?': compare_pred(float), 'rational?': lambda x: is_num(x) and not
        isinstance(x, float), 'ratio?': compare_pred(Fraction), 'fn?': lambda x: callable(x) and not isinstance(
            x, (Kw, Sym, Vec, PMap, PSet)), 'ifn?': callable, 'associative?': compare_pred((Vec, PMap)),
        'counted?': lambda x: isinstance(x, (Vec, PMap, PSet)), 'boolean?': compare_pred(bool),
        'instance?': instance, 'class': type_of, 'type': type_of, 'identity': lambda x: x,
        'constantly': lambda x: lambda *a: x, 'boolean': truthy, 'empty?': empty_p, 'seq': seq,
        'first': first, 'rest': rest, 'next': nxt, 'second': lambda x: first(rest(x)),
        'ffirst': lambda x: first(first(x)), 'fnext': lambda x: first(nxt(x)),
        'nfirst': lambda x: nxt(first(x)), 'nnext': lambda x: nxt(nxt(x)), 'last': last, 'butlast': butlast,
        'drop-last': drop_last, 'nth': nth, 'nthrest': nthrest, 'nthnext': nthnext, 'count': count,
        'cons': cons, 'conj': f_conj, 'into': f_into, 'list': lambda *a: plist(a), 'list*': list_star,
        'vector': lambda *a: Vec(a), 'vec': lambda x: x if isinstance(x, Vec) else Vec(seq_iter(x)),
        'hash-map': lambda *a: hash_map(a), 'array-map': lambda *a: hash_map(a), 'sorted-map': lambda *a: sorted_map(compare, a), 'sorted-map-by': lambda f, *a: sorted_map(lambda x, y: order(f, x, y), a),
        'set': lambda x: x if isinstance(x, PSet) else pset(seq_iter(x)), 'hash-set': lambda *a: pset(a),
        'assoc': f_assoc, 'dissoc': f_dissoc, 'get': get, 'get-in': f_get_in, 'assoc-in': f_assoc_in,
        'update': f_update, 'update-in': f_update_in, 'contains?': contains, 'find': find,
        'keys': lambda m: keysvals(m, 0), 'vals': lambda m: keysvals(m, 1), 'key': lambda e: e.t[0],
        'val': lambda e: e.t[1], 'merge': merge, 'merge-with': merge_with, 'select-keys': select_keys,
        'zipmap': zipmap, 'disj': disj, 'empty': empty, 'peek': peek, 'pop': pop, 'subvec': subvec,
        'map': f_map, 'mapv': f_mapv, 'pmap': f_map, 'filter': f_filter, 'filterv': lambda p, c: Vec(
            f_filter(p, c)), 'remove': f_remove, 'keep': f_keep, 'map-indexed': f_map_indexed,
        'keep-indexed': f_keep_indexed, 'mapcat': f_mapcat, 'concat': f_concat, 'reduce': f_reduce,
        'reduce-kv': f_reduce_kv, 'reductions': f_reductions, 'reduced': Reduced,
        'reduced?': compare_pred(Reduced), 'apply': f_apply, 'take': take,
        'drop': drop, 'take-last': take_last, 'take-while': take_while, 'drop-while': drop_while,
        'take-nth': take_nth, 'partition': partition, 'partition-all': partition_all,
        'partition-by': partition_by, 'range': f_range, 'repeat': f_repeat, 'repeatedly': f_repeatedly,
        'iterate': f_iterate, 'cycle': f_cycle, 'interleave': interleave, 'interpose': interpose,
        'flatten': f_flatten, 'distinct': distinct, 'dedupe': dedupe, 'frequencies': frequencies,
        'group-by': group_by, 'sort': f_sort, 'sort-by': f_sort_by, 'some': some, 'every?': every,
        'not-every?': lambda p, c: not every(p, c), 'not-any?': lambda p, c: not truthy(some(p, c)),
        'not-empty': lambda c: c if seq(c) is not None else None, 'reverse': lambda c: plist(
            reversed(list(seq_iter(c)))), 'rseq': lambda c: seq(plist(reversed(list(seq_iter(c))))),
        'str': f_str, 'subs': subs, 'int': f_int, 'long': f_long, 'short': f_int, 'byte': f_int,
        'double': lambda x: float(num(x)), 'float': lambda x: float(num(x)), 'char': f_char, 'num': num,
        'bigint': lambda x: math.trunc(x), 'biginteger': lambda x: math.trunc(x), 'bigdec': float,
        'name': f_name, 'namespace': lambda x: x.ns, 'keyword': f_keyword, 'symbol': f_symbol,
        'gensym': lambda *a: rt.sym(*a), 'atom': lambda v, *a: Atom(v), 'ref': lambda v, *a: Atom(v),
        'agent': lambda v, *a: Atom(v), 'volatile!': Atom, 'vreset!': reset, 'vswap!': swap, 'deref': deref,
        'swap!': swap, 'reset!': reset, 'alter': swap, 'ref-set': reset, 'force': lambda x: x.force() if
        isinstance(x, Delay) else x, 'realized?': lambda x: True, 'delay*': Delay, 'lazy-seq*': lazy_seq,
        'doseq*': doseq_star, 'for*': for_star, 'stop-iteration': STOP, 'doall': doall, 'dorun': dorun,
        'run!': lambda f, c: dorun(f_map(f, c)), 'comp': comp, 'partial': partial, 'juxt': juxt,
        'fnil': fnil, 'complement': complement, 'memoize': memoize, 'trampoline': trampoline,
        'split-at': split_at, 'split-with': split_with, 'tree-seq': tree_seq, 'format': f_format,
        'printf': lambda *a: out.append(f_format(*a)), 'print': printer(False, False),
        'println': printer(False, True), 'prn': printer(True, True), 'pr': printer(True, False),
        'pr-str': lambda *a: ' '.join(pr(x) for x in a), 'newline': lambda: out.append('\n'),
        'flush': lambda: None, 'prn-str': lambda *a: ' '.join(pr(x) for x in a) + '\n',
        'print-str': lambda *a: ' '.join(pr(x, False) for x in a), 'with-out-str*': with_out_str,
        'read-string': read_string(rt), 'ex-info': ex_info, 'ex-data': lambda e: e.data,
        're-pattern': lambda s: s if isinstance(s, Regex) else Regex(s), 're-find': re_find,
        're-matches': re_matches, 're-seq': re_seq, 'rand': lambda n=1: pyrandom.random() * n,
        'rand-int': lambda n: pyrandom.randrange(n), 'rand-nth': lambda c: pyrandom.choice(
            list(seq_iter(c))), 'shuffle': shuffle, 'cast': f_cast, 'hash': lambda x: hash(ck(x)) & 0x7fffffff,
        'destructure': destructure_plain, 'multi*': Multi, 'add-test': lambda n, f: tests.append((n, f)),
        'is*': is_star, 'meta': lambda x: None, 'with-meta': lambda x, m: x, 'vary-meta': lambda x, *a: x,
        'bit-and': bitop(o.and_), 'bit-or': bitop(o.or_), 'bit-xor': bitop(o.xor),
        'bit-shift-left': lambda a, b: wrap64(a << b), 'bit-shift-right': lambda a, b: a >> b,
        'macroexpand-1': None, 'transient': lambda x: x, 'persistent!': lambda x: x, 'conj!': f_conj,
        'assoc!': f_assoc, 'dissoc!': f_dissoc, 'to-array': lambda c: list(seq_iter(c)),
        'into-array': lambda *a: list(seq_iter(a[-1])), 'aget': lambda a, i: a[i],
        'eval': rt.eval, '*out*': None, '*clojure-version*': None, 'sequence': f_sequence,
        'transduce': transduce, 'cat': x_cat, 'disj!': disj, 'unreduced': lambda x: x.v if isinstance(
            x, Reduced) else x, 'ensure-reduced': lambda x: x if isinstance(x, Reduced) else Reduced(x),
        'completing': lambda f: f, 'replace': lambda m, c: Vec([get(m, x, x) for x in seq_iter(c)]),
        'every-pred': lambda *ps: lambda *a: all(truthy(call(p, x)) for p in ps for x in a),
        'some-fn': lambda *ps: lambda *a: next((v for v in (call(p, x) for x in a for p in ps) if truthy(v)),
                                               None),
        'sorted-set': None, 'slurp': None, 'spit': None, 'bound-fn': None,
        'clojure-version': lambda: '1.8.0', 'object-array': lambda n: [None] * n, 'keyword-identical?': None,
        'distinct?': lambda *a: len({ck(x) for x in a}) == len(a),
        'indexed?': compare_pred(Vec), 'reversible?': compare_pred(Vec),
        'unchecked-int': lambda x: ((math.trunc(x) + (1 << 31)) & ((1 << 32) - 1)) - (1 << 31),
        'unchecked-long': lambda x: wrap64(math.trunc(x)),
        'bit-not': lambda x: ~x, 'bit-test': lambda x, n: bool(x >> n & 1),
        'unsigned-bit-shift-right': lambda a, b: (a & ((1 << 64) - 1)) >> b,
        'clojure.core/list': lambda *a: plist(a),
    }
    for name, arity, make in (('take', 1, x_take), ('drop', 1, x_drop), ('take-while', 1, x_take_while),
                              ('drop-while', 1, x_drop_while), ('distinct', 0, x_distinct),
                              ('keep-indexed', 1, x_keep_indexed), ('keep', 1, x_keep),
                              ('map-indexed', 1, lambda f: x_keep_indexed(f, False))):
        fns[name] = short_form(arity, make, fns[name])
    for name, f in fns.items():
        if f is None:
            def f(*a, _n=name):
                raise Unsupported('clojure.core/' + _n)
        rt.define('clojure.core', name, f)


def hash_map(a):
    if len(a) % 2:
        raise JEx('java.lang.IllegalArgumentException', 'No value supplied for key')
    return pmap(zip(a[::2], a[1::2]))


def keysvals(m, i):
    entries = list(seq_iter(m)) if m is not None else []
    if not entries:
        return None
    return plist([e.t[i] for e in entries])


# ---------------------------------------------------------------- clojure.string, clojure.set

def jsplit(s, p, limit=0):
    """String.split of Java 8."""
    if s == '':
        return ['']
    out, pos = [], 0
    for m in p.finditer(s):
        if limit > 0 and len(out) == limit - 1:
            break
        if m.end() == 0:
            continue          # no leading empty string for a match of nothing at the start
        if m.start() == m.end() == len(s):
            continue
        out.append(s[pos:m.start()])
        pos = m.end()
    out.append(s[pos:])
    if limit == 0:
        while len(out) > 1 and out[-1] == '':
            out.pop()
        if out == [''] and s != '':
            return []
    return out


def s_split(s, p, limit=0):
    return Vec(jsplit(cs(s), p.re, limit))


def cs(x):
    if isinstance(x, str):
        return x
    if x is None:
        raise JEx('java.lang.NullPointerException')
    raise JEx('java.lang.ClassCastException', tyname(x) + ' cannot be cast to java.lang.CharSequence')


def js(x):
    """Clojure's string functions call toString on their argument."""
    if x is None:
        raise JEx('java.lang.NullPointerException')
    return tostr(x)


def jrepl(rep):
    def f(m):
        out, i = '', 0
        while i < len(rep):
            if rep[i] == '\\' and i + 1 < len(rep):
                out += rep[i + 1]
                i += 2
            elif rep[i] == '$' and i + 1 < len(rep) and rep[i + 1].isdigit():
                out += m.group(int(rep[i + 1])) or ''
                i += 2
            elif rep[i] == '$':
                raise JEx('java.lang.IllegalArgumentException', 'Illegal group reference')
            else:
                out += rep[i]
                i += 1
        return out
    return f


def s_replace(s, a, b, n=0):
    s = cs(s)
    if isinstance(a, Char):
        if not isinstance(b, Char):
            raise JEx('java.lang.ClassCastException')
        return s.replace(a.c, b.c, n or -1)
    if isinstance(a, str):
        return s.replace(a, cs(b), n or -1)
    if isinstance(a, Regex):
        if isinstance(b, str):
            return a.re.sub(jrepl(b), s, count=n)
        return a.re.sub(lambda m: tostr(call(b, re_result(m))), s, count=n)
    raise JEx('java.lang.IllegalArgumentException', 'Invalid match arg: ' + tostr(a))


WS = ''.join(chr(i) for i in list(range(9, 14)) + list(range(28, 33))) + '\u1680\u2000\u2001\u2002\u2003' \
    '\u2004\u2005\u2006\u2008\u2009\u200a\u2028\u2029\u205f\u3000'
JTRIM = ''.join(chr(i) for i in range(33))


def s_join(*a):
    sep, c = ('', a[0]) if len(a) == 1 else a
    return tostr(sep).join([tostr(x) for x in seq_iter(c)])


def s_index_of(s, v, i=0):
    v = v.c if isinstance(v, Char) else v
    r = cs(s).find(v, i)
    return None if r < 0 else r


def s_last_index_of(s, v, i=None):
    v = v.c if isinstance(v, Char) else v
    r = cs(s).rfind(v)
    return None if r < 0 else r


def s_capitalize(s):
    s = js(s)
    return s[:1].upper() + s[1:].lower()


STRING = {
    'join': s_join, 'split': s_split, 'replace': s_replace, 'replace-first': lambda s, a, b: s_replace(
        s, a, b, 1), 'lower-case': lambda s: js(s).lower(), 'upper-case': lambda s: js(s).upper(),
    'trim': lambda s: cs(s).strip(WS), 'triml': lambda s: cs(s).lstrip(WS),
    'trimr': lambda s: cs(s).rstrip(WS), 'trim-newline': lambda s: cs(s).rstrip('\r\n'),
    'blank?': lambda s: s is None or all(c in WS for c in cs(s)), 'capitalize': s_capitalize,
    'starts-with?': lambda s, p: cs(s).startswith(cs(p)), 'ends-with?': lambda s, p: cs(s).endswith(cs(p)),
    'includes?': lambda s, p: cs(p) in cs(s), 'index-of': s_index_of, 'last-index-of': s_last_index_of,
    'split-lines': lambda s: Vec(jsplit(cs(s), re.compile(r'\n|\r\n'))), 'reverse': lambda s: cs(s)[::-1],
    'escape': lambda s, m: ''.join(tostr(get(m, char(c), char(c))) for c in cs(s)),
}


def set_union(*ss):
    if not ss:
        return PSet()
    if len(ss) == 1:
        return ss[0]
    if len(ss) == 2:
        a, b = ss
        if count(a) < count(b):
            return f_reduce(conj1, b, a)
        return f_reduce(conj1, a, b)
    # bubble-max-key count: the first of the largest comes first
    big = max(ss, key=count)
    others = [s for s in ss if s is not big]
    for s in others:
        big = f_into(big, s)
    return big


def sdisj(a, x):
    if not isinstance(a, PSet):
        raise JEx('java.lang.ClassCastException', tyname(a) + ' cannot be cast to IPersistentSet')
    return disj(a, x)


def set_intersection(a, *more):
    for b in more:
        a = f_reduce(lambda r, x: r if contains(b, x) else sdisj(r, x), a, a)
    return a


def set_difference(a, *more):
    for b in more:
        a = f_reduce(lambda r, x: sdisj(r, x) if contains(b, x) else r, a, a)
    return a


SETS = {
    'union': set_union, 'intersection': set_intersection, 'difference': set_difference,
    'subset?': lambda a, b: count(a) <= count(b) and all(contains(b, x) for x in seq_iter(a)),
    'superset?': lambda a, b: count(a) >= count(b) and all(contains(a, x) for x in seq_iter(b)),
    'select': lambda p, s: pset(x for x in seq_iter(s) if truthy(call(p, x))),
    'rename-keys': lambda m, km: pmap([(get(km, k, k), v) for k, v in m.d.values()]),
    'map-invert': lambda m: pmap([(v, k) for k, v in m.d.values()]),
}


# ---------------------------------------------------------------- clojure.math.combinatorics 0.1.1

def count_permutations(items):
    n = count(items)
    p = math.factorial(n)
    for c, (k, v) in frequencies(items).d.items():
        p //= math.factorial(v)
    return p


def nth_permutation(items, n):
    items = list(seq_iter(items))
    total = count_permutations(plist(items))
    if not n < total:
        raise JEx('java.lang.AssertionError', 'Assert failed: (< n (count-permutations items))')
    order, idx = [], []
    keys = {}
    for x in items:
        k = ck(x)
        if k not in keys:
            keys[k] = len(order)
            order.append(x)
        idx.append(keys[k])
    if items and all(is_num(x) for x in items) and all(a <= b for a, b in zip(items, items[1:])):
        pass
    freq = [idx.count(i) for i in range(len(order))]
    out = []
    left = len(items)
    while left:
        for i in range(len(order)):
            if freq[i] == 0:
                continue
            freq[i] -= 1
            size = math.factorial(left - 1)
            for v in freq:
                size //= math.factorial(v)
            if n < size:
                out.append(order[i])
                break
            n -= size
            freq[i] += 1
        left -= 1
    s = lazy(iter(out))
    return s


COMBO = {
    'count-permutations': count_permutations, 'nth-permutation': nth_permutation,
    'permutations': lambda c: lazy(nth_permutation(c, i) for i in range(count_permutations(c))),
    'cartesian-product': lambda *cs: lazy(plist(t) for t in itertools.product(*[seq_iter(c) for c in cs])),
    'combinations': lambda c, n: lazy(plist(t) for t in itertools.combinations(list(seq_iter(c)), n)),
    'subsets': lambda c: lazy(plist(t) for k in range(count(c) + 1) for t in itertools.combinations(
        list(seq_iter(c)), k)),
}


# ---------------------------------------------------------------- clojure.java.jdbc 0.4.2 over sqlite3

class Jdbc:
    """Connections by the file of the spec; a transaction has a connection of its own."""
    def __init__(self):
        self.open = {}
        self.log = None

    def connect(self, spec):
        if not isinstance(spec, PMap):
            raise Unsupported('jdbc spec %s' % pr(spec))
        name = get(spec, kw('subname'))
        if get(spec, kw('subprotocol')) != 'sqlite':
            raise Unsupported('jdbc subprotocol')
        con = sqlite3.connect(name, timeout=0, isolation_level=None, check_same_thread=False)
        con.execute('PRAGMA synchronous=OFF')
        return con

    def con(self, spec):
        c = get(spec, kw('connection'))
        if c is not None:
            return c
        name = get(spec, kw('subname'))
        if name not in self.open:
            self.open[name] = self.connect(spec)
        return self.open[name]

    def close(self):
        for c in self.open.values():
            c.close()
        self.open.clear()

    def run(self, spec, sql, params=()):
        params = [p.c if isinstance(p, Char) else p for p in params]
        for p in params:
            if not (p is None or isinstance(p, (str, int, float))):
                raise JEx('java.sql.SQLException', 'parameter %s' % pr(p))
        if self.log is not None:
            self.log.append((sql, tuple(params)))
        try:
            return self.con(spec).execute(sql, params)
        except sqlite3.Error as e:
            raise JEx('java.sql.SQLException', str(e))
        except (OverflowError, UnicodeError) as e:
            raise JEx('java.sql.SQLException', str(e))

    def transaction(self, spec, f, *opts):
        if get(spec, kw('connection')) is not None:
            return call(f, spec)
        con = self.connect(spec)
        try:
            con.execute('BEGIN')
            inner = spec.assoc(kw('connection'), con)
            try:
                r = call(f, inner)
            except BaseException:
                con.rollback()
                raise
            con.commit()
            return r
        except sqlite3.Error as e:
            raise JEx('java.sql.SQLException', str(e))
        finally:
            con.close()


def jdbc_ns(rt):
    db = rt.jdbc = Jdbc()

    def col(k):
        return f_name(k)

    def sql_params(x):
        if isinstance(x, str):
            return x, []
        items = list(seq_iter(x))
        return items[0], items[1:]

    def query(spec, sp, *opts):
        sql, params = sql_params(sp)
        o = hash_map(opts) if not (len(opts) == 1 and isinstance(opts[0], PMap)) else opts[0]
        row_fn = get(o, kw('row-fn'))
        rs_fn = get(o, kw('result-set-fn'))
        cur = db.run(spec, sql, params)
        names = [kw(d[0].lower()) for d in cur.description]
        rows = [pmap(zip(names, r)) for r in cur.fetchall()]
        s = lazy(call(row_fn, r) if row_fn is not None else r for r in rows)
        return call(rs_fn, s) if rs_fn is not None else doall(s)

    def execute(spec, sp, *opts):
        sql, params = sql_params(sp)
        return plist([max(0, db.run(spec, sql, params).rowcount)])

    def commands(spec, *cmds):
        cmds = [c for c in cmds if not isinstance(c, bool)]
        r = [max(0, db.run(spec, c).rowcount) for c in cmds]
        return plist(r)

    def update(spec, table, row, where, *opts):
        w, params = sql_params(where)
        cols = [(col(k), v) for k, v in row.d.values()]
        sql = 'UPDATE %s SET %s WHERE %s' % (f_name(table), ','.join(c + ' = ?' for c, _ in cols), w)
        return plist([db.run(spec, sql, [v for _, v in cols] + params).rowcount])

    def insert(spec, table, *rows):
        ids = []
        rows = [r for r in rows]
        if rows and not isinstance(rows[0], PMap):
            raise Unsupported('insert! of columns and values')
        for row in rows:
            if not isinstance(row, PMap):
                break
            cols = [(col(k), v) for k, v in row.d.values()]
            sql = 'INSERT INTO %s ( %s ) VALUES ( %s )' % (
                f_name(table), ', '.join(c for c, _ in cols), ', '.join('?' for _ in cols))
            cur = db.run(spec, sql, [v for _, v in cols])
            ids.append(pmap([(kw('last_insert_rowid()'), cur.lastrowid)]))
        return plist(ids)

    def delete(spec, table, where, *opts):
        w, params = sql_params(where)
        return plist([db.run(spec, 'DELETE FROM %s WHERE %s' % (f_name(table), w), params).rowcount])

    return {'query': query, 'execute!': execute, 'db-do-commands': commands, 'update!': update,
            'insert!': insert, 'delete!': delete, 'db-transaction*': db.transaction}


# ---------------------------------------------------------------- Java

def nfe(s):
    return JEx('java.lang.NumberFormatException', 'For input string: "%s"' % s)


def parse_int(bits):
    def f(s, radix=10):
        if is_num(s):
            return f_int(s) if bits == 32 else f_long(s)
        if not isinstance(s, str) or not re.match(r'^[-+]?[0-9]+$' if radix == 10 else r'^[-+]?\w+$', s):
            raise nfe(s)
        try:
            v = int(s, radix)
        except ValueError:
            raise nfe(s)
        if not -(1 << bits - 1) <= v < 1 << bits - 1:
            raise nfe(s)
        return v
    return f


def parse_double(s):
    if is_num(s):
        return float(s)
    if s is None:
        raise JEx('java.lang.NullPointerException')
    t = s.strip(JTRIM)
    if not re.match(r'^[-+]?(NaN|Infinity|((\d+\.?\d*|\.\d+)([eE][-+]?\d+)?)[fFdD]?)$', t):
        raise nfe(s)
    return float(t.rstrip('fFdD') if not t.endswith('Infinity') else t)


def to_base(n, b):
    if n == 0:
        return '0'
    digits, out, neg = '0123456789abcdefghijklmnopqrstuvwxyz', '', n < 0
    n = abs(n)
    while n:
        out = digits[n % b] + out
        n //= b
    return ('-' if neg else '') + out


class Rng:
    java_class = 'java.security.SecureRandom'

    def nextInt(self, n=None):
        return pyrandom.randrange(n) if n else pyrandom.randrange(1 << 32) - (1 << 31)


class BigInt(int):
    java_class = 'java.math.BigInteger'

    def toString(self, base=10):
        return to_base(int(self), base)


class SB:
    java_class = 'java.lang.StringBuilder'

    def __init__(self, s=''):
        self.s = s

    def append(self, x):
        self.s += tostr(x) if x is not None else 'null'
        return self

    def toString(self):
        return self.s

    def length(self):
        return len(self.s)

    java_str = toString


def jsub(s, a, b=None):
    b = len(s) if b is None else b
    if not 0 <= a <= b <= len(s):
        raise JEx('java.lang.StringIndexOutOfBoundsException', 'String index out of range')
    return s[a:b]


def jhash(s):
    h = 0
    for i in range(0, len(clj.utf16(s)), 2):
        h = (31 * h + int.from_bytes(clj.utf16(s)[i:i + 2], 'big')) & 0xffffffff
    return h - (1 << 32) if h >> 31 else h


def arg(x):
    return x.c if isinstance(x, Char) else chr(x) if is_int(x) else x


def char_at(s, i):
    if not 0 <= i < len(s):
        raise JEx('java.lang.StringIndexOutOfBoundsException', 'String index out of range: %d' % i)
    return char(s[i])


STR_METHODS = {
    'toLowerCase': lambda s: s.lower(), 'toUpperCase': lambda s: s.upper(),
    'startsWith': lambda s, p: s.startswith(cs(p)), 'endsWith': lambda s, p: s.endswith(cs(p)),
    'indexOf': lambda s, p, i=0: s.find(arg(p), i), 'lastIndexOf': lambda s, p: s.rfind(arg(p)),
    'substring': jsub, 'subSequence': jsub, 'contains': lambda s, p: cs(p) in s, 'length': lambda s: len(s),
    'trim': lambda s: s.strip(JTRIM), 'replace': lambda s, a, b: s.replace(arg(a), arg(b)),
    'replaceAll': lambda s, a, b: Regex(a).re.sub(jrepl(b), s),
    'replaceFirst': lambda s, a, b: Regex(a).re.sub(jrepl(b), s, count=1),
    'matches': lambda s, p: Regex(p).re.fullmatch(s) is not None, 'isEmpty': lambda s: s == '',
    'split': lambda s, p, n=0: list(jsplit(s, Regex(p).re, n)), 'charAt': char_at,
    'equals': lambda s, o: isinstance(o, str) and s == o, 'concat': lambda s, o: s + cs(o),
    'equalsIgnoreCase': lambda s, o: isinstance(o, str) and s.lower() == o.lower(),
    'toString': lambda s: s, 'hashCode': jhash, 'compareTo': compare, 'intern': lambda s: s,
    'getBytes': lambda s, *a: s.encode('utf-8'), 'codePointAt': lambda s, i: ord(char_at(s, i).c),
}
NUM_METHODS = {
    'toString': lambda n, *a: n.toString(*a) if isinstance(n, BigInt) else tostr(n), 'intValue': f_int,
    'longValue': f_long, 'doubleValue': float, 'equals': eq, 'hashCode': hash,
}
OBJ_METHODS = {'toString': tostr, 'equals': eq, 'hashCode': lambda x: hash(ck(x)), 'getClass': type_of}
EX_METHODS = {'getMessage': lambda e: e.msg, 'toString': str, 'printStackTrace': lambda e: None,
              'getCause': lambda e: e.cause, 'getLocalizedMessage': lambda e: e.msg}
COLL_METHODS = {'size': count, 'isEmpty': empty_p, 'contains': lambda c, x: any(
    eq(x, y) for y in seq_iter(c)), 'indexOf': lambda c, x: next(
        (i for i, y in enumerate(seq_iter(c)) if eq(x, y)), -1), 'get': lambda c, k, *d: get(c, k, *d),
    'containsKey': contains, 'count': count, 'nth': nth}


def math1(f):
    return lambda *a: f(*[float(x) for x in a])


def jround(x):
    return math.floor(x + 0.5)


STATIC = {
    ('Integer', 'parseInt'): parse_int(32), ('Integer', 'valueOf'): parse_int(32),
    ('Long', 'parseLong'): parse_int(64), ('Long', 'valueOf'): parse_int(64),
    ('Double', 'parseDouble'): parse_double, ('Double', 'valueOf'): parse_double,
    ('Float', 'parseFloat'): parse_double,
    ('Long', 'toHexString'): lambda n: '%x' % (n & ((1 << 64) - 1)),
    ('Integer', 'toHexString'): lambda n: '%x' % (n & ((1 << 32) - 1)),
    ('Long', 'toString'): lambda n, b=10: to_base(n, b), ('Integer', 'toString'): lambda n, b=10: to_base(n, b),
    ('Long', 'MAX_VALUE'): clj.MAXL, ('Long', 'MIN_VALUE'): clj.MINL,
    ('Integer', 'MAX_VALUE'): (1 << 31) - 1, ('Integer', 'MIN_VALUE'): -(1 << 31),
    ('Double', 'MAX_VALUE'): 1.7976931348623157e308, ('Math', 'PI'): math.pi,
    ('Math', 'abs'): lambda x: abs(num(x)), ('Math', 'sqrt'): lambda x: math.sqrt(x) if x >= 0 else math.nan,
    ('Math', 'pow'): math1(lambda a, b: a ** b), ('Math', 'log'): lambda x: math.log(x) if x > 0 else (
        -math.inf if x == 0 else math.nan),
    ('Math', 'exp'): math1(math.exp), ('Math', 'floor'): lambda x: float(math.floor(x)),
    ('Math', 'ceil'): lambda x: float(math.ceil(x)), ('Math', 'round'): jround, ('Math', 'max'): max,
    ('Math', 'min'): min, ('Math', 'random'): lambda: pyrandom.random(), ('Math', 'cos'): math1(math.cos),
    ('Math', 'sin'): math1(math.sin), ('Math', 'log10'): math1(math.log10),
    ('String', 'valueOf'): tostr, ('String', 'format'): lambda f, a: f_format(f, *a),
    ('Character', 'isDigit'): lambda c: c.c.isdigit(), ('Character', 'isLetter'): lambda c: c.c.isalpha(),
    ('Character', 'isUpperCase'): lambda c: c.c.isupper(), ('Character', 'isLowerCase'): lambda c: c.c.islower(),
    ('Character', 'isWhitespace'): lambda c: c.c in WS, ('Character', 'toUpperCase'): lambda c: char(
        c.c.upper()), ('Character', 'toLowerCase'): lambda c: char(c.c.lower()),
    ('Character', 'isLetterOrDigit'): lambda c: c.c.isalnum(),
    ('System', 'currentTimeMillis'): lambda: int(pytime.time() * 1000),
    ('System', 'nanoTime'): lambda: pytime.perf_counter_ns(), ('Thread', 'sleep'): lambda n: None,
    ('Boolean', 'parseBoolean'): lambda s: isinstance(s, str) and s.lower() == 'true',
}


def install(rt):
    rt.specials.update(SPECIALS)
    rt.macros.update(MACROS)
    install_core(rt)
    rt.hosts.update({
        'clojure.string': STRING, 'clojure.set': SETS, 'clojure.math.combinatorics': COMBO,
        'clojure.java.jdbc': jdbc_ns(rt), 'clojure.test': {}, 'clojure.walk': {},
        'clojure.pprint': {'pprint': lambda *a: None},
    })
    for name in ('clojure.string', 'clojure.set', 'clojure.java.jdbc', 'clojure.math.combinatorics',
                 'clojure.test'):
        rt.require(name)
    v = rt.ns('clojure.java.jdbc').vars['with-db-transaction'] = Var('clojure.java.jdbc',
                                                                    'with-db-transaction')
    v.macro, v.bound = True, True
    v.root = lambda *a: m_with_db_transaction(rt, *a)
    rt.static.update(STATIC)
    rt.ctors.update({
        'Integer': parse_int(32), 'Long': parse_int(64), 'Double': parse_double, 'Float': parse_double,
        'String': lambda x='': x if isinstance(x, str) else ''.join(tostr(c) for c in x),
        'SecureRandom': Rng, 'Random': lambda *a: Rng(),
        'BigInteger': lambda *a: BigInt(pyrandom.getrandbits(a[0])) if len(a) == 2 and not isinstance(
            a[0], str) else BigInt(a[0]),
        'StringBuilder': SB, 'Object': lambda: Record('java.lang.Object', {}),
    })
    rt.methods.update({str: STR_METHODS, (int, float): NUM_METHODS, JEx: EX_METHODS,
                       (Vec, Seq, PMap, PSet): dict(OBJ_METHODS, **COLL_METHODS),
                       (Char, Kw, Sym, bool): OBJ_METHODS})
