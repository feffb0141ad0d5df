"""C06: Headers against an independent model."""
from oracle.core import case
from oracle.kit import *

NAMES6 = ["a", "A", "b", "B", "x-Y", "X-y", "content-type", "Content-Type", "", "é", "É", "a ", "K", "k"]
VALS = ["", "1", "2", "1", "v,w", "é", " s ", "\n"]


def agree(o, h, model, log):
    d = dict(ops=log[-12:], h=list(h.allitems()), model=model)
    names = list(model)
    ok = (len(h) == len(model) and list(h) == names and list(h.keys()) == names
          and list(h.items()) == [(n, v[0]) for n, v in model.items()]
          and list(h.values()) == [v[0] for v in model.values()]
          and list(h.allitems()) == [(n, x) for n, v in model.items() for x in v]
          and len(h.allitems()) == sum(len(v) for v in model.values())
          and bool(h) == bool(model))
    o.check("views agree with the model", ok, **d)
    for n in NAMES6:
        w = model.get(n.lower())
        o.check("lookups agree with the model", (n in h) == (w is not None) and h.get(n) == (w[0] if w else None)
                and list(h.getall(n)) == (w or []) and h.get(n, "dflt") == (w[0] if w else "dflt"), name=n, **d)
        if w is None:
            try:
                h[n]
                o.check("a missing name is a KeyError", False, name=n, **d)
            except KeyError:
                pass
        else:
            o.check("a lookup gives the first value", h[n] == w[0], name=n, **d)
            for x in w:
                o.check("the all-items view contains each value", (n.lower(), x) in h.allitems(), name=n, value=x, **d)
        o.check("the all-items view contains nothing else", (n.lower(), "zz") not in h.allitems(), **d)
    for x in (5, None, b"a", ("a",)):
        o.check("only text is a name", x not in h, x=x, **d)


@case("C06", bound="random sequences of 1-25 operations over 14 names and 8 values, compared after every operation")
def sequences(o):
    for i in o.times(220):
        r = o.rnd
        start = [(r.choice(NAMES6), r.choice(VALS)) for _ in range(r.choice([0, 0, 1, 3, 6]))]
        kind = r.choice(["pairs", "tuple", "mapping", "none"])
        model = {}
        if kind == "mapping":
            start = list({k.lower(): (k, v) for k, v in start}.values())
            h = Headers(dict(start))
        elif kind == "none":
            start, h = [], Headers()
        else:
            h = Headers(start if kind == "pairs" else tuple(start))
        for k, v in start:
            model.setdefault(k.lower(), []).append(v)
        log = [(kind, start)]
        agree(o, h, model, log)
        for _ in range(r.randrange(1, 26)):
            op = r.choice(["set", "set", "add", "add", "add", "del", "pop", "clear" if r.random() < .15 else "add", "setdefault", "update", "popitem"])
            k, v = r.choice(NAMES6), r.choice(VALS)
            l = k.lower()
            log.append((op, k, v))
            exp = got = None
            if op == "set":
                h[k] = v
                model[l] = [v]
            elif op == "add":
                h.add(k, v)
                model.setdefault(l, []).append(v)
            elif op == "del":
                try:
                    del h[k]
                    got = True
                except KeyError:
                    got = False
                exp = l in model
                model.pop(l, None)
            elif op == "pop":
                got = h.pop(k, None)
                exp = (model.pop(l, [None]))[0]
            elif op == "clear":
                h.clear()
                model.clear()
            elif op == "setdefault":
                got = h.setdefault(k, v)
                exp = model.setdefault(l, [v])[0]
            elif op == "update":
                h.update({k: v})
                model[l] = [v]
            elif op == "popitem":
                if model:
                    got = h.popitem()
                    n = next(iter(model)) if got[0] == next(iter(model)) else got[0]
                    exp = (n, model.pop(n, [None])[0])
            o.check("the operation's result agrees", got == exp, op=op, got=got, exp=exp, log=log[-8:])
            agree(o, h, model, log)


@case("C06", bound="exhaustive: all sequences of up to 4 operations over 2 names, 2 values and both letter cases")
def small(o):
    import itertools
    ops = [(op, k, v) for op in ("set", "add", "del") for k in ("a", "A", "b") for v in (("1", "2") if op != "del" else ("",))] + [("clear", "", "")]
    n = 3 if o.tier == "quick" else 4
    for seq in itertools.product(ops, repeat=n):
        h, m = Headers(), {}
        for op, k, v in seq:
            l = k.lower()
            if op == "set":
                h[k] = v
                m[l] = [v]
            elif op == "add":
                h.add(k, v)
                m.setdefault(l, []).append(v)
            elif op == "clear":
                h.clear()
                m.clear()
            else:
                try:
                    del h[k]
                except KeyError:
                    o.check("deleting a present name works", l not in m, seq=seq)
                m.pop(l, None)
        o.check("the state agrees", list(h.allitems()) == [(k, x) for k, v in m.items() for x in v] and list(h.getall("A")) == m.get("a", [])
                and len(h) == len(m) and ("B" in h) == ("b" in m) and len(h.allitems()) == sum(map(len, m.values())), seq=seq, h=list(h.allitems()))


@case("C06", bound="200 random independent pairs of objects")
def independent(o):
    for i in o.times(200):
        r = o.rnd
        items = [(r.choice(NAMES6), r.choice(VALS)) for _ in range(4)]
        src = list(items)
        h = Headers(items)
        c = Headers(tuple(h.allitems()))
        before = list(c.allitems())
        h.add("a", "z")
        h["b"] = "q"
        v = list(h.getall("a"))
        got = h.getall("a")
        if isinstance(got, list):
            got.append("evil")
        o.check("a copy is independent", list(c.allitems()) == before and items == src and list(h.getall("a")) == v, items=items)
