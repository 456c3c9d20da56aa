"""Exhaustive enumeration of expression trees by number of operators."""
from functools import lru_cache
from cmodel import *

E, V, P = ("E",), ("V",), ("P",)  # holes


class Alphabet:
    def __init__(self, bins, uns, assigns, incdec=("++", "--"), ptr=True, cond=True, logic=True,
                 calls=("f",), comma=False, casts=(), pincdec=("++", "--"), paren_lv=True, pcmps=("==", "<"), calls2=()):
        self.calls2 = calls2
        self.bins, self.uns, self.assigns, self.incdec = bins, uns, assigns, incdec
        self.ptr, self.cond, self.logic, self.calls, self.comma, self.casts = ptr, cond, logic, calls, comma, casts
        self.pincdec = pincdec
        self.paren_lv = paren_lv
        self.pcmps = pcmps
        self._m = {}

    def gen(self, sort, k):
        key = (sort, k)
        if key not in self._m:
            self._m[key] = list(getattr(self, "g" + sort)(k))
        return self._m[key]

    def pairs(self, s1, s2, k):
        for i in range(k + 1):
            for a in self.gen(s1, i):
                for b in self.gen(s2, k - i):
                    yield a, b

    def triples(self, s1, s2, s3, k):
        for i in range(k + 1):
            for j in range(k - i + 1):
                for a in self.gen(s1, i):
                    for b in self.gen(s2, j):
                        for c in self.gen(s3, k - i - j):
                            yield a, b, c

    def gE(self, k):
        if k == 0:
            yield E
            return
        k -= 1
        for op in self.uns:
            for a in self.gen("E", k):
                yield ("un", op, a)
        for t in self.casts:
            for a in self.gen("E", k):
                yield ("cast", t, a)
        for fn in self.calls:
            for a in self.gen("E", k):
                yield ("call", fn, a)
        for fn in self.calls2:
            for a, b in self.pairs("E", "E", k):
                yield ("call", fn, a, b)
        for op in self.incdec:
            for v in self.gen("V", k):
                yield ("pre", op, v)
                yield ("post", op, v)
        for op in self.bins:
            for a, b in self.pairs("E", "E", k):
                yield ("bin", op, a, b)
        if self.logic:
            for a, b in self.pairs("E", "E", k):
                yield ("and", a, b)
                yield ("or", a, b)
        if self.comma:
            for a, b in self.pairs("E", "E", k):
                yield ("comma", a, b)
        for op in self.assigns:
            for v, b in self.pairs("V", "E", k):
                yield ("asg", op, v, b)
        if self.cond:
            for a, b, c in self.triples("E", "E", "E", k):
                yield ("cond", a, b, c)
        if self.ptr:
            # memory lvalues used as rvalues
            for v in self.gM(k + 1):
                yield v
            for a, b in self.pairs("P", "P", k):
                yield ("pdiff", a, b)
                for op in self.pcmps:
                    yield ("pcmp", op, a, b)

    def gM(self, k):
        """memory lvalues with exactly k operators"""
        k -= 1
        for p, e in self.pairs("P", "E", k):
            yield ("idx", p, e)
        for p in self.gen("P", k):
            yield ("deref", p)

    def gV(self, k):
        if k == 0:
            yield V
            return
        if self.ptr:
            yield from self.gM(k)
            if self.paren_lv:
                for v in self.gM(k):
                    yield ("paren", v)

    def gP(self, k):
        if k == 0:
            yield P
            return
        k -= 1
        for op in self.pincdec:
            yield from ((("ppre", op, ("pvar", "q")), ("ppost", op, ("pvar", "q"))) if k == 0 else ())
        for p, e in self.pairs("P", "E", k):
            yield ("padd", p, e)
            yield ("psub", p, e)
        for e, p in self.pairs("E", "P", k):
            yield ("addp", e, p)
        for e in self.gen("E", k):
            yield ("pasg", "+=", ("pvar", "q"), e)
            yield ("pasg", "-=", ("pvar", "q"), e)
        for p in self.gen("P", k):
            yield ("pasg", "=", ("pvar", "q"), p)
        for v in (self.gM(k) if k > 0 else ()):
            yield ("addr", v)
        if self.cond:
            for a, b, c in self.triples("E", "P", "P", k):
                yield ("pcond", a, b, c)


def fill(n, es, vs, ps):
    """Replace holes left to right, cycling through the leaf lists."""
    ctr = [0, 0, 0]

    def go(m):
        k = m[0]
        if k == "E":
            ctr[0] += 1
            return es[(ctr[0] - 1) % len(es)]
        if k == "V":
            ctr[1] += 1
            return vs[(ctr[1] - 1) % len(vs)]
        if k == "P":
            ctr[2] += 1
            return ps[(ctr[2] - 1) % len(ps)]
        ks = kids(m)
        if not ks:
            return m
        m = list(m)
        for i in ks:
            m[i] = go(m[i])
        return tuple(m)
    return go(n)


def fill_all(n, es, vs, ps):
    """Every assignment of leaves to the holes of n."""
    holes = []

    def walk(m):
        if m[0] in ("E", "V", "P"):
            holes.append(m[0])
        else:
            for i in kids(m):
                walk(m[i])
    walk(n)
    import itertools
    opts = [{"E": es, "V": vs, "P": ps}[h] for h in holes]
    for combo in itertools.product(*opts):
        it = iter(combo)

        def go(m):
            if m[0] in ("E", "V", "P"):
                return next(it)
            ks = kids(m)
            if not ks:
                return m
            m = list(m)
            for i in ks:
                m[i] = go(m[i])
            return tuple(m)
        yield go(n)
