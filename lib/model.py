"""Reference model of the hypergraph store, and a driver that applies the same
operation to the store and to the model."""
from vf import Violation, expect


def canon(x):
    """A value that two things share only if they are the same edge or atom."""
    if isinstance(x, (list, tuple)):
        return tuple(canon(e) for e in x)
    return '%s %r' % (type(x).__name__[0], x)


def text(x):
    """String representation of an edge, written independently of the code under test."""
    if isinstance(x, (list, tuple)):
        return '(%s)' % ' '.join(text(e) for e in x)
    return x if isinstance(x, str) else repr(x)


class Model:
    def __init__(self):
        self.edges = {}     # canon -> edge
        self.ts = {}        # canon of a vertex -> timestamp
        self.deg = {}       # canon of a vertex -> degree; vertices of degree 0 that are not edges linger
        self.vertex = {}    # canon -> vertex
        self.stale = set()  # canon of vertices that have not always been in use since they first appeared
        self.gone = set()   # canon of edges that were removed

    def copy(self):
        m = Model()
        m.edges, m.ts, m.deg, m.vertex = dict(self.edges), dict(self.ts), dict(self.deg), dict(self.vertex)
        m.stale, m.gone = set(self.stale), set(self.gone)
        return m

    def state(self):
        """What has to be equal for two stores to be the same."""
        used = [c for c in self.vertex if c in self.edges or self.deg.get(c, 0) > 0]
        return (sorted(map(repr, self.edges)),
                sorted((repr(c), self.deg.get(c, 0)) for c in used),
                sorted((repr(c), self.ts[c]) for c in used if c not in self.stale))

    def add(self, edge, ts=-1):
        edge = freeze(edge)
        c = canon(edge)
        if c in self.edges:
            return
        for e in edge:
            ce = canon(e)
            self.vertex.setdefault(ce, e)
            if self.deg.get(ce, 0) == 0 and ce not in self.edges:
                if ce in self.ts:
                    self.stale.add(ce)
                    self.gone.discard(ce)
                else:
                    self.ts[ce] = ts
            self.deg[ce] = self.deg.get(ce, 0) + 1
        self.vertex.setdefault(c, edge)
        self.deg.setdefault(c, 0)
        self.ts[c] = ts
        self.stale.discard(c)
        self.gone.discard(c)
        self.edges[c] = edge

    def remove(self, edge):
        edge = freeze(edge)
        c = canon(edge)
        if c not in self.edges:
            return
        del self.edges[c]
        for e in edge:
            self.deg[canon(e)] -= 1
        self.ts[c] = -1
        self.stale.discard(c)
        self.gone.add(c)

    def destroy(self):
        self.__init__()

    def apply(self, op):
        name = op[0]
        if name == 'add':
            self.add(op[1], op[2])
        elif name == 'remove':
            self.remove(op[1])
        elif name == 'addn':
            for e in op[1]:
                self.add(e, op[2])
        elif name == 'removen':
            for e in op[1]:
                self.remove(e)
        elif name == 'rmpat':
            for e in self.pattern(op[1]):
                self.remove(e)
        elif name == 'batch':
            for o in op[1]:
                self.apply(o)
        elif name == 'believe':
            for e in op[2]:
                self.add(e, op[3])
                self.add(('src/1', e, op[1]), op[3])
        elif name == 'doubt':
            self.remove(('src/1', op[2], op[1]))
            if not self.pattern(('src/1', op[2], None)):
                self.remove(op[2])
        elif name == 'flush':
            for e, ts in op[1]:
                self.add(e, op[2] if ts == -1 else ts)
        elif name == 'destroy':
            self.destroy()
        elif name in ('reopen', 'noop'):
            pass
        else:
            raise AssertionError(name)

    # queries
    def has(self, edge):
        return canon(edge) in self.edges

    def pattern(self, pattern):
        return [e for e in self.edges.values()
                if len(e) == len(pattern)
                and all(p is None or canon(p) == canon(x) for p, x in zip(pattern, e))]

    def star(self, center):
        c = canon(center)
        return [e for e in self.edges.values() if any(canon(x) == c for x in e)]

    def degree(self, vertex):
        return self.deg.get(canon(vertex), 0)

    def timestamp(self, vertex):
        """The timestamp, or None if it is not specified."""
        c = canon(vertex)
        if c in self.edges:
            return self.ts[c]
        if self.deg.get(c, 0) > 0:
            return None if c in self.stale else self.ts[c]
        if c in self.ts and c not in self.gone:
            return None     # an entity that is not used any more
        return -1

    def symbols_with_root(self, root):
        return set(x for e in self.edges.values() for x in e
                   if isinstance(x, str) and not is_url(x) and '/' in x and x.split('/')[0] == root)

    def recount(self):
        """Degrees counted again from the edges; a check of the model itself."""
        deg = {}
        for e in self.edges.values():
            for x in e:
                deg[canon(x)] = deg.get(canon(x), 0) + 1
        return deg


def is_url(x):
    return isinstance(x, str) and (x.startswith('http://') or x.startswith('https://'))


def freeze(edge):
    return tuple(freeze(e) if isinstance(e, (list, tuple)) else e for e in edge)


def is_collection(edge):
    return isinstance(edge[0], (list, tuple))


def apply_real(hg, op):
    """The same operation on a hypergraph."""
    name = op[0]
    if name == 'add':
        # an edge that starts with an edge can not be told apart from a collection of edges
        arg = [op[1]] if is_collection(op[1]) else op[1]
        hg.add(arg, op[2]) if op[2] != -1 else hg.add(arg)
    elif name == 'remove':
        hg.remove([op[1]] if is_collection(op[1]) else op[1])
    elif name == 'addn':
        hg.add(list(op[1]), op[2])
    elif name == 'removen':
        hg.remove(list(op[1]))
    elif name == 'rmpat':
        hg.remove_by_pattern(op[1])
    elif name == 'batch':
        hg.batch_exec([lambda h, o=o: apply_real(h, o) for o in op[1]])
    elif name == 'believe':
        plain = len(op[2]) == 1 and not is_collection(op[2][0])
        hg.add_belief(op[1], op[2][0] if plain else list(op[2]), op[3])
    elif name == 'doubt':
        hg.remove_belief(op[1], op[2])
    elif name == 'flush':
        from gb.hypergraph.batch_hypergraph import BatchHyperGraph
        bhg = BatchHyperGraph(hg, 10 ** 6)
        for e, ts in op[1]:
            bhg.add([e], ts)
        bhg.flush(op[2])
    elif name == 'destroy':
        hg.destroy()
    elif name == 'noop':
        pass
    else:
        raise AssertionError(name)


def same_edges(got, want, what):
    """got (a set of edges from the store) is exactly want; compares types too."""
    if not isinstance(got, (set, frozenset)):
        raise Violation('%s: got %r, expected a set' % (what, type(got)))
    for e in got:
        expect(isinstance(e, tuple), '%s: %r is not an edge', what, e)
    g = {canon(e): e for e in got}
    w = {canon(e): e for e in want}
    missing = [w[c] for c in w if c not in g]
    extra = [g[c] for c in g if c not in w]
    if missing or extra:
        raise Violation('%s: missing %r, unexpected %r' % (what, missing, extra))
    expect(len(got) == len(w), '%s: repeated edges %r', what, got)


def sqlite_hg(path=':memory:'):
    from gb.hypergraph.hypergraph import HyperGraph
    return HyperGraph({'backend': 'sqlite', 'db': path})


def close(hg):
    """Releases a hypergraph. There is no public operation for this; the connection is closed
    if it can be found, and left to the garbage collector otherwise."""
    conn = getattr(getattr(hg, 'backend', None), 'conn', None)
    if conn is not None:
        try:
            conn.close()
        except Exception:
            pass


def observe(hg, vertices, edges, patterns=()):
    """Everything that can be asked about the given vertices, in a comparable form."""
    out = {}
    for v in vertices:
        out['degree', canon(v)] = hg.degree(v)
        out['timestamp', canon(v)] = hg.timestamp(v)
        out['star', canon(v)] = frozenset(map(canon, hg.star(v)))
    for e in edges:
        out['exists', canon(e)] = hg.exists(e)
    for p in patterns:
        out['pattern', canon(p)] = frozenset(map(canon, hg.pattern2edges(p)))
    return out


def vertices_of(case):
    vs = {}
    for a in case['atoms']:
        vs[canon(a)] = a
    for e in case['edges']:
        vs[canon(e)] = e
        for x in e:
            vs[canon(x)] = x
    return list(vs.values())


def agree(hg, model, vertices, edges, patterns=(), what='', timestamps=True):
    """The store answers like the model."""
    for e in edges:
        expect(hg.exists(e) is model.has(e), '%sexists(%r) is %r', what, e, hg.exists(e))
    for v in vertices:
        same_edges(hg.star(v), model.star(v), '%sstar(%r)' % (what, v))
        d = hg.degree(v)
        expect(d == model.degree(v), '%sdegree(%r) is %r, expected %r', what, v, d, model.degree(v))
        ts, want = hg.timestamp(v), model.timestamp(v)
        if timestamps and want is not None:
            expect(ts == want, '%stimestamp(%r) is %r, expected %r', what, v, ts, want)
    for p in patterns:
        same_edges(hg.pattern2edges(p), model.pattern(p), '%spattern2edges(%r)' % (what, p))


def agree_bulk(hg, model, case, what=''):
    """The store answers like the model; for stores with many edges (gen.bulk)."""
    for n in (2, 3):
        same_edges(hg.pattern2edges((None,) * n), model.pattern((None,) * n), '%sedges' % what)
    for v in case['atoms'] + case['edges']:
        expect(hg.degree(v) == model.degree(v), '%sdegree(%r) is %r, expected %r', what, v, hg.degree(v), model.degree(v))
    for e in case['edges']:
        want = model.timestamp(e)
        expect(want is None or hg.timestamp(e) == want, '%stimestamp(%r) is %r, expected %r', what, e, hg.timestamp(e), want)


def all_edges(hg):
    """All the stored edges of arity 2 to 6."""
    out = set()
    for n in range(2, 7):
        out |= hg.pattern2edges((None,) * n)
    return out
