"""The Clojure hypergraph of the repository, run by the interpreter of lib/clj.py, with the interface
that lib/model.py drives."""
import os

import clj
import clj_selftest
from clj import Char, JEx, PMap, PSet, Runtime, Seq, Vec, kw, pr
from vf import REPO, Violation, expect

SRC = os.path.join(REPO, 'src', 'main', 'clojure')
MAIN = [None]


def runtime(*hosts):
    """One runtime for the process."""
    if MAIN[0] is None:
        MAIN[0] = Runtime([SRC])
        clj_selftest.run(MAIN[0])
    return MAIN[0]


def guarded(f):
    """What a value of the wrong type leads to is an exception of Java, not one of the harness."""
    def run(*args):
        try:
            return f(*args)
        except (TypeError, AttributeError, IndexError, KeyError, ValueError, NameError) as e:
            if isinstance(e, NameError):
                raise clj.Unsupported(repr(e)) from e
            raise JEx('java.lang.RuntimeException', repr(e)) from e
    return run


def fn(ns, name):
    return guarded(runtime().fn(ns, name))


def to_clj(x):
    if isinstance(x, (list, tuple)):
        return Vec([to_clj(e) for e in x])
    if isinstance(x, (set, frozenset)):
        return clj.pset([to_clj(e) for e in x])
    if isinstance(x, dict):
        return clj.pmap([(to_clj(k), to_clj(v)) for k, v in x.items()])
    return x


def from_clj(x):
    if isinstance(x, (Vec, Seq)):
        return tuple(from_clj(e) for e in x)
    if isinstance(x, PSet):
        return set(from_clj(e) for e in x)
    if isinstance(x, PMap):
        return {from_clj(k): from_clj(v) for k, v in x.d.values()}
    if isinstance(x, clj.Kw):
        return ':' + x.name
    return x


def edge_set(x, what):
    """A set of edges from a sequence or a set without repetitions."""
    if x is None:
        x = ()
    items = [from_clj(e) for e in x]
    for e in x:
        expect(isinstance(e, Vec), '%s: %s is not a vector', what, pr(e))
    s = set(items)
    expect(len(s) == len(items), '%s: repeated edges %r', what, items)
    return s


class Hg:
    """The interface of the Python hypergraph."""
    backend = None

    def __init__(self, path=None, hg=None, lists=False):
        self.path = path
        self.lists = lists
        self.hg = hg if hg is not None else fn('graphbrain.hg.sqlite', 'connection')(path)

    def op(self, name, *args):
        return fn('graphbrain.hg.ops', name)(self.hg, *args)

    def to(self, x):
        """Edges are vectors; a collection of them may be any sequence."""
        return to_clj(x)

    def add(self, edges, ts=None):
        if ts is None:
            self.op('add!', to_clj(edges))
        else:
            self.op('add!', to_clj(edges), kw('timestamp'), ts)

    def remove(self, edges):
        self.op('remove!', to_clj(edges))

    def remove_by_pattern(self, p):
        self.op('remove-by-pattern!', to_clj(p))

    def batch_exec(self, funs):
        self.op('batch-exec!', Vec([lambda h, f=f: f(Hg(self.path, h)) for f in funs]))

    def destroy(self):
        self.op('destroy!')

    def exists(self, e):
        r = self.op('exists?', to_clj(e))
        expect(r is True or r is False, 'exists? of %r is %s', e, pr(r))
        return r

    def pattern2edges(self, p):
        return edge_set(self.op('pattern->edges', to_clj(p)), 'pattern %r' % (p,))

    def star(self, x):
        return edge_set(self.op('star', to_clj(x)), 'star of %r' % (x,))

    def symbols_with_root(self, r):
        return from_clj(self.op('symbols-with-root', r))

    def degree(self, x):
        return self.op('degree', to_clj(x))

    def timestamp(self, x):
        return self.op('timestamp', to_clj(x))

    def f_all(self, f):
        def g(m):
            d = from_clj(m)
            return f({'vertex': d[':vertex'], 'degree': d[':degree']})
        return [from_clj(x) for x in self.op('f-all', g)]

    def add_belief(self, source, edges, ts=-1):
        f = fn('graphbrain.hg.beliefs', 'add!')
        if ts == -1:
            f(self.hg, source, to_clj(edges))
        else:
            f(self.hg, source, to_clj(edges), kw('timestamp'), ts)

    def remove_belief(self, source, edge):
        fn('graphbrain.hg.beliefs', 'remove!')(self.hg, source, to_clj(edge))

    def sources(self, edge):
        return from_clj(fn('graphbrain.hg.beliefs', 'sources')(self.hg, to_clj(edge)))


def close():
    """Closes the connections."""
    runtime().jdbc.close()
