import asyncio
import inspect
import random

CASES = {}


class Stop(Exception):
    pass


def case(prop, bound=""):
    def deco(fn):
        CASES.setdefault(prop, {})[fn.__name__] = fn
        fn.bound = bound
        return fn

    return deco


class O:
    def __init__(self, prop, name, tier, seed):
        self.prop, self.name, self.tier, self.seed = prop, name, tier, seed
        self.rnd = random.Random(f"{prop}.{name}.{seed}")
        self.failures, self.samples, self.n, self.seen = [], [], 0, set()
        self.bound = ""

    def times(self, quick, thorough=None):
        thorough = thorough or quick * 6
        return range(min(quick * 4, thorough) if self.tier == "quick" else thorough * 2)

    def check(self, name, cond, /, **detail):
        self.n += 1
        if self.n <= 5000:
            self.seen.add(hash((name, repr(sorted((k, repr(v)) for k, v in detail.items())))))
        if len(self.samples) < 1 and detail:
            self.samples.append({"contract": name, **{k: repr(v)[:200] for k, v in detail.items()}})
        if not cond:
            self.failures.append(dict(case=self.name, name=f"{self.prop}.{self.name}: {name}",
                                      detail={k: repr(v)[:600] for k, v in detail.items()}))
            if len(self.failures) >= 3:
                raise Stop
        return cond

    def eq(self, name, got, want, /, **detail):
        return self.check(name, got == want, **{**detail, "got": got, "want": want})


def run_case(fn, o):
    o.bound = fn.bound or (fn.__doc__ or "").strip()
    r = fn(o)
    if inspect.iscoroutine(r):
        asyncio.run(r)
