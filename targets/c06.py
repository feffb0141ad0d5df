"""C06: Headers is a case-insensitive ordered multimap.

`inductive`: for a headers object in an arbitrary state of any size, what each operation does
to the values of an arbitrary name.  `observers`: in an arbitrary state, the lookups agree.
`history`: sequences of operations from empty, with iteration and views (bounded length)."""
from pyvc.harness import *
from targets.kit import *

if SYMBOLIC:
    from pyvc import core, values as V
    from pyvc.core import Unsupported
    from pyvc.runtime import PvList, rt
    from pyvc.values import *

    class Run:
        """One or more values of a name."""

        _pv_run = True

        def __init__(self):
            t = core.ex().fresh("run", V.I)
            V.fact(t >= 1)
            self.size = SymInt(t)


def arbitrary(h):
    """A headers object in an arbitrary state: any names, any numbers of values.

    The state is that of the fields _store (name -> first value) and _extra (name -> further
    values, of names in _store), which every constructor and operation maintains
    (`inductive` checks that each operation does)."""
    from connectrpc.request import Headers

    H = h.new(Headers)
    if set(vars(H)) != {"_store", "_extra"}:
        raise Unsupported("Headers has another representation")
    H._store = store = lazy_dict("store", lambda k: h.str("first"))
    initial = store._lazy
    if h.choice("extra", ["none", "some"]) == "some":
        def more(k):
            r = PvList([Run()])
            rt.register(r)
            return r
        H._extra = lazy_dict("extra", more, lambda k: initial(k)[0])
    return H


def values(h, H, name):
    return list(h.call(H.getall, name))


def well_formed(h, H, name):
    """The invariant on an arbitrary name."""
    s, x = H._store, H._extra
    k = h.call(name.lower)
    if x is None or not x._lookup(k)[0]:
        return True
    return s._lookup(k)[0] and len(x._lookup(k)[1]) > 0


OPS = ["set", "add", "del", "pop", "pop_default", "setdefault", "update", "update_pairs", "clear"]


@target("C06", "inductive", split={"op": len(OPS)})
def inductive(h):
    op = h.choice("op", OPS)
    H = arbitrary(h)
    p, q = h.variants("probe", 2)
    k, k2 = h.variants("key", 2)
    same = h.test(h.eq(h.call(p.lower), h.call(k.lower)))
    before = values(h, H, p)
    had = h.test(h.call(H.__contains__, k))
    kvals = values(h, H, k)
    size = h.len(H)
    v = h.str("value")
    exc = None
    if op == "set":
        h.call(H.__setitem__, k, v)
        want = [v]
    elif op == "add":
        h.call(H.add, k, v)
        want = kvals + [v]
    elif op == "del":
        r, exc = h.outcome(H.__delitem__, k)
        want = []
    elif op == "pop":
        r, exc = h.outcome(H.pop, k)
        want = []
        if had:
            h.check("C06.inductive: pop returns the first value", r == "ok" and h.test(h.eq(exc, kvals[0])))
            exc = None
    elif op == "pop_default":
        d = h.str("default")
        r = h.call(H.pop, k, d)
        want = []
        h.check("C06.inductive: pop returns the first value or the default", h.eq(r, kvals[0] if had else d))
    elif op == "setdefault":
        r = h.call(H.setdefault, k, v)
        want = kvals if had else [v]
        h.check("C06.inductive: setdefault returns the value", h.eq(r, kvals[0] if had else v))
    elif op == "update":
        h.call(H.update, h.dict([(k, v)]))
        want = [v]
    elif op == "update_pairs":
        h.call(H.update, h.list((k, v)))
        want = [v]
    else:
        h.call(H.clear)
        h.check("C06.inductive: nothing is left", h.and_(values(h, H, p) == [], h.eq(h.len(H), 0), h.not_(h.call(H.__contains__, q))))
        return
    if op in ("del", "pop"):
        h.check("C06.inductive: deleting a name that is absent is a KeyError", isinstance(exc, KeyError) if not had else exc is None)
    after = values(h, H, q)
    if same:
        h.check("C06.inductive: the values of the name", seq_eq(h, after, want))
        h.check("C06.inductive: under any letter case", seq_eq(h, values(h, H, k2), want))
    else:
        h.check("C06.inductive: other names keep their values", seq_eq(h, after, before))
    h.check("C06.inductive: length is the number of names", h.eq(h.len(H), size + (1 if want else 0) - (1 if had else 0)))
    h.aux("C06.inductive: the representation stays well formed", h.and_(well_formed(h, H, p), well_formed(h, H, k)))


def seq_eq(h, a, b):
    if len(a) != len(b):
        return False
    return h.and_(*[x is y or (False if getattr(x, "_pv_run", False) or getattr(y, "_pv_run", False) else h.eq(x, y)) for x, y in zip(a, b)])


@target("C06", "observers")
def observers(h):
    H = arbitrary(h)
    p, q = h.variants("probe", 2)
    vs = values(h, H, p)
    has = h.test(h.call(H.__contains__, q))
    h.check("C06.observers: a name is present iff it has values", has == (len(vs) > 0))
    r, x = h.outcome(H.__getitem__, q)
    h.check("C06.observers: lookup is the first value or a KeyError", h.eq(x, vs[0]) if has and r == "ok" else (not has and r == "exc" and isinstance(x, KeyError)))
    d = h.str("default")
    h.check("C06.observers: get is the first value or the default", h.eq(h.call(H.get, q, d), vs[0] if has else d))
    h.check("C06.observers: get without a default", h.eq(h.call(H.get, q), vs[0] if has else None))
    h.check("C06.observers: only text is a name", h.not_(h.call(H.__contains__, 3)))
    h.check("C06.observers: observing changes nothing", seq_eq(h, values(h, H, q), vs))
    vs2 = h.call(H.getall, q)
    if len(vs2):
        vs2.append("x")
        h.check("C06.observers: the list of values is the caller's", seq_eq(h, values(h, H, q), vs))


class Spec:
    """[(lower name, [values])]"""

    def __init__(self, h):
        self.h, self.l = h, []

    def at(self, k):
        for e in self.l:
            if self.h.test(self.h.eq(e[0], k)):
                return e

    def add(self, k, v):
        e = self.at(k)
        if e is None:
            self.l.append((k, [v]))
        else:
            e[1].append(v)

    def set(self, k, v):
        e = self.at(k)
        if e is None:
            self.l.append((k, [v]))
        else:
            e[1][:] = [v]

    def delete(self, k):
        e = self.at(k)
        self.l = [x for x in self.l if x is not e]
        return e is not None


@target("C06", "history", replay=True, split={"start": 3, "first": 3}, bounded="from empty, a mapping of one or two pairs of which names may coincide, then up to 3 operations", unroll=40)
def history(h):
    from connectrpc.request import Headers

    spec = Spec(h)
    start = h.choice("start", ["empty", "pairs", "mapping"])
    n = 0
    names = []

    def name():
        # the name is in two letter cases
        x, y = h.variants(f"name{len(names)}", 2)
        names.append((x, y))
        return x, y, h.call(x.lower)

    if start == "empty":
        H = h.new(Headers)
    elif start == "pairs":
        ps = []
        for i in range(2):
            x, y, lo = name()
            v = h.str("initial")
            ps.append((x, v))
            spec.add(lo, v)
        H = h.new(Headers, h.list(*ps))
    else:
        x, y, lo = name()
        v = h.str("initial")
        spec.add(lo, v)
        H = h.new(Headers, h.dict([(x, v)]))
    for i in range(3 if start == "empty" else 2):
        op = h.choice("op" if i else "first", ["add", "set", "del"])
        x, y, lo = name()
        v = h.str("value")
        if op == "add":
            h.call(H.add, x, v)
            spec.add(lo, v)
        elif op == "set":
            h.call(H.__setitem__, x, v)
            spec.set(lo, v)
        else:
            r, e = h.outcome(H.__delitem__, x)
            h.check("C06.history: deleting is an error iff the name is absent", (r == "ok") == spec.delete(lo))
    flat = [(k, v) for k, vs in spec.l for v in vs]

    def pairs(it):
        return [tuple(x) for x in it]

    def same(a, b):
        return len(a) == len(b) and h.and_(*[h.and_(h.eq(x[0], y[0]), h.eq(x[1], y[1])) for x, y in zip(a, b)])
    alls = h.call(H.allitems)
    h.check("C06.history: all items, in order", same(pairs(alls), flat))
    h.check("C06.history: the number of items", h.eq(h.len(alls), len(flat)))
    for kv in flat:
        h.check("C06.history: an item is in the view", h.test(h.call(alls.__contains__, kv)))
    h.check("C06.history: items", same(pairs(h.call(H.items)), [(k, vs[0]) for k, vs in spec.l]))
    h.check("C06.history: iteration", h.eq(list(H), [k for k, vs in spec.l]))
    h.check("C06.history: keys", h.eq(list(h.call(H.keys)), [k for k, vs in spec.l]))
    h.check("C06.history: values", h.eq(list(h.call(H.values)), [vs[0] for k, vs in spec.l]))
    h.check("C06.history: length", h.eq(h.len(H), len(spec.l)))
    for k, vs in spec.l:
        h.check("C06.history: values of a name", h.eq(list(h.call(H.getall, k)), vs))
    for x, y in names:
        h.check("C06.history: membership in any letter case", h.test(h.call(H.__contains__, y)) == (spec.at(h.call(x.lower)) is not None))
