"""Two-function programs over colliding variable names, and their interpreter.

Variables a, b, g are globals; each function may declare a and b (and c) as
parameters or locals, in which case the declaration hides the global.
"""
import itertools


class UB(Exception):
    pass


class Ret(Exception):
    pass


# expressions: ('v', name) ('k', n) ('+', e, e) ('-', e, e) ('call', fn, args) ('ix', e)  (ar[e])
# statements: ('=', name, e) ('ix=', e, e) ('x', call) ('guard', [stmts]) ('ret', e) ('ret0',)
# function: (name, params, locals, stmts)

def etext(e):
    k = e[0]
    if k == "v":
        return e[1]
    if k == "k":
        return str(e[1])
    if k == "ix":
        return "ar[%s]" % etext(e[1])
    if k == "call":
        return "%s(%s)" % (e[1], ", ".join(etext(a) for a in e[2]))
    r = etext(e[2])
    if k == "*":
        return "%s * %s" % (etext(e[1]), r)
    if e[2][0] in "+-":
        r = "(" + r + ")"
    return "%s %s %s" % (etext(e[1]), k, r)


def stext(s):
    k = s[0]
    if k == "=":
        return "%s = %s;" % (s[1], etext(s[2]))
    if k == "ix=":
        return "ar[%s] = %s;" % (etext(s[1]), etext(s[2]))
    if k == "x":
        return etext(s[1]) + ";"
    if k == "guard":
        return "if (g > 0) { g = g - 1; %s }" % " ".join(stext(x) for x in s[1])
    if k == "ret":
        return "return %s;" % etext(s[1])
    return "return;"


def ftext(f, sfx):
    name, ps, ls, body = f
    void = not any(returns(s) for s in body)
    t = "%s %s(%s) { " % ("void" if void else "int", name, ", ".join("int " + p for p in ps))
    t += "".join("int %s; " % l for l in ls)
    t += " ".join(stext(s) for s in body) + " }"
    return t.replace("f0(", "f0_%s(" % sfx).replace("f1(", "f1_%s(" % sfx)


def returns(s):
    return s[0] == "ret" or s[0] == "guard" and any(returns(x) for x in s[1])


class Interp:
    def __init__(self, fns, rev, fuel):
        self.fns, self.rev = fns, rev
        self.glob = {"a": 3, "b": 5, "g": fuel}
        self.ar = [11, 12, 13, 14]
        self.steps = 0
        self.depth = 0

    def ev2(self, x, y, fr):
        if self.rev:
            r = self.ev(y, fr)
            l = self.ev(x, fr)
        else:
            l = self.ev(x, fr)
            r = self.ev(y, fr)
        return l, r

    def ev(self, e, fr):
        self.steps += 1
        if self.steps > 4000:
            raise UB("steps")
        k = e[0]
        if k == "v":
            v = fr[e[1]] if e[1] in fr else self.glob.get(e[1])
            if v is None:
                raise UB("uninit")
            return v
        if k == "k":
            return e[1]
        if k == "ix":
            i = self.ev(e[1], fr)
            if not 0 <= i < 4:
                raise UB("oob")
            return self.ar[i]
        if k == "call":
            args = [None] * len(e[2])
            order = list(range(len(e[2])))
            for i in (reversed(order) if self.rev else order):
                args[i] = self.ev(e[2][i], fr)
            return self.call(e[1], args)
        l, r = self.ev2(e[1], e[2], fr)
        v = l + r if k == "+" else l * r if k == "*" else l - r
        if abs(v) > 10 ** 8:
            raise UB("range")
        return v

    def set(self, name, v, fr):
        if name in fr:
            fr[name] = v
        elif name in self.glob:
            self.glob[name] = v
        else:
            raise UB("undeclared")

    def call(self, fn, args):
        name, ps, ls, body = self.fns[fn]
        if len(ps) != len(args):
            raise UB("arity")
        fr = dict(zip(ps, args))
        fr.update((l, None) for l in ls)
        self.depth += 1
        if self.depth > 12:
            raise UB("depth")
        try:
            self.run(body, fr)
            r = None
        except Ret as x:
            r = x.args[0]
        self.depth -= 1
        return r

    def run(self, body, fr):
        for s in body:
            k = s[0]
            if k == "=":
                v = self.ev(s[2], fr)
                if v is None:
                    raise UB("void")
                self.set(s[1], v, fr)
            elif k == "ix=":
                i, v = self.ev2(s[1], s[2], fr)
                if not 0 <= i < 4 or v is None:
                    raise UB("oob")
                self.ar[i] = v
            elif k == "x":
                self.ev(s[1], fr)
            elif k == "guard":
                if self.glob["g"] > 0:
                    self.glob["g"] -= 1
                    self.run(s[1], fr)
            elif k == "ret":
                v = self.ev(s[1], fr)
                if v is None:
                    raise UB("void")
                raise Ret(v)
            else:
                raise Ret(None)


def run(fns, args, fuel):
    """Final state, or UB; the result must not depend on evaluation order."""
    out = []
    for rev in (False, True):
        m = Interp(fns, rev, fuel)
        try:
            r = m.call("f0", list(args))
        except TypeError:
            raise UB("void value")
        out.append((r, m.glob["a"], m.glob["b"], m.glob["g"], tuple(m.ar)))
    if out[0] != out[1]:
        raise UB("order")
    return out[0], m.steps


V = lambda n: ("v", n)
K = lambda n: ("k", n)


def leaf_library():
    """f1: every parameter list x local list x body form (pruned by well-formedness)."""
    out = []
    for ps in ((), ("a",), ("b",), ("a", "b"), ("b", "a"), ("c",), ("c", "a")):
        for ls in ((), ("a",), ("b",), ("c",), ("a", "b")):
            if set(ps) & set(ls):
                continue
            names = ["a", "b"] + (["c"] if "c" in ps + ls else [])
            bodies = []
            for n in names:
                bodies.append([("ret", ("+", V(n), K(1)))])                     # not mutated
                bodies.append([("=", n, ("+", V(n), K(7))), ("ret", V(n))])     # mutated
                bodies.append([("=", n, K(9))])                                  # void
                for m in names:
                    if m != n:
                        bodies.append([("=", n, ("+", V(m), K(2))), ("ret", ("-", V(n), V(m)))])
                        bodies.append([("guard", [("=", n, V(m)), ("ret", V(n))]), ("ret", V(m))])
            for b in bodies:
                out.append(("f1", ps, ls, b))
    return out


def args_for(ps, choice):
    """Argument lists of the right arity, from a small set of expressions."""
    return itertools.product(choice, repeat=len(ps))


def callers(leaf, deep):
    """f0: parameter and local lists x one or two statements with calls of f1 or of
    itself x return."""
    lp = leaf[1]
    void = not any(returns(s) for s in leaf[3])
    for ps, ls in ((("a",), ("b",)), (("b",), ("a",)), (("a", "b"), ()), (("a",), ("b", "c")), (("b", "a"), ("c",)), (("c",), ())):
        names = ["a", "b"] + (["c"] if "c" in ps + ls else [])
        base = [("=", l, K(2)) for l in ls[:1]]
        argc = [V(names[0]), V(names[1]), ("+", V(names[0]), K(1))][: 3 if deep else 2]
        calls = [("call", "f1", a) for a in args_for(lp, argc)]
        if void:
            for c in calls:
                yield ("f0", ps, ls, base + [("x", c), ("ret", ("+", V(names[0]), V(names[1])))])
            continue
        dests = names + ["ix"]
        for c in calls:
            for d in dests:
                def put(e):
                    return ("ix=", V(names[0]), e) if d == "ix" else ("=", d, e)
                forms = [c, ("+", c, V(names[1])), ("-", V(names[0]), c), ("+", c, c)]
                if len(lp) == 1:
                    forms.append(("call", "f1", (c,)))
                    forms.append(("call", "f1", (("+", c, V(names[0])),)))
                if len(lp) == 2:
                    forms.append(("call", "f1", (c, V(names[0]))))
                    forms.append(("call", "f1", (V(names[1]), c)))
                    forms.append(("call", "f1", (c, c)))
                for e in forms:
                    yield ("f0", ps, ls, base + [put(e), ("ret", ("+", V(names[0]), V(names[1])))])
                    if d == names[0]:
                        yield ("f0", ps, ls, base + [("ret", e)])
                        yield ("f0", ps, ls, base + [put(e), put(e), ("ret", V(names[1]))])
            # recursion: f0 calls itself under the fuel guard
            me = ("call", "f0", tuple(("+", c, K(0)) if i == 0 else V(names[1]) for i in range(len(ps))))
            me2 = ("call", "f0", tuple(V(n) for n in names[:len(ps)]))
            for d in names:
                for r in (me, me2, ("+", me2, V(d)), ("-", V(d), me)):
                    yield ("f0", ps, ls, base + [("guard", [("=", d, r)]), ("ret", ("+", c, V(d)) if deep else V(d))])
                    yield ("f0", ps, ls, base + [("guard", [("ret", r)]), ("ret", V(d))])


PRELUDE = """
int a; int b; int g; int ar[4];
void rs(int fuel) { a = 3; b = 5; g = fuel; ar[0] = 11; ar[1] = 12; ar[2] = 13; ar[3] = 14; }
void put(int id, int r) { printf("%d %d %d %d %d %d %d %d %d\\n", id, r, a, b, g, ar[0], ar[1], ar[2], ar[3]); }
"""


def wsum(names, k0=0):
    e = None
    for i, n in enumerate(names):
        t = ("*", V(n), K(2 * (i + k0) + 1))
        e = t if e is None else ("+", e, t)
    return e or K(7)


def wide():
    """(leaf, caller, args): functions with up to 12 parameters, 12 locals and 12
    call results alive at once, returning early or at the end, recursively."""
    for np in range(0, 13):
        for nl in (0, 1, 2, 8, 9, 10, 12):
            for k in (1, 2, 3, 8, 9, 10, 11):
                if nl > 2 and k > 2 and (np + nl + k) % 3:
                    continue
                ps = tuple("p%d" % i for i in range(1, np + 1))
                ls = tuple("v%d" % i for i in range(1, nl + 1))
                rp = tuple(reversed(ps))
                leaf = ("f1", rp, ls, [("=", l, K(50 + i)) for i, l in enumerate(ls)] + [("ret", ("+", wsum(rp), wsum(ls, np)))])
                init = [("=", l, K(20 + 3 * i)) for i, l in enumerate(ls)]
                args = lambda j: tuple(("+", V(p), K(i * j)) for i, p in enumerate(ps))
                e = ("call", "f1", args(k))
                for j in range(k - 1, 0, -1):
                    e = ("-", ("call", "f1", args(j)), e)
                me = ("call", "f0", tuple(("+", V(p), K(1)) for p in ps))
                fin = ("ret", ("+", ("+", V("a"), wsum(ps)), wsum(ls, np)))
                vals = tuple(range(2, 2 + np))
                for body in ([("=", "a", e), fin],
                             [("=", "a", e), ("guard", [("=", "b", me), ("=", "a", ("+", V("a"), V("b")))]), fin],
                             [("guard", [("=", "b", ("+", e, me)), ("ret", ("-", ("+", V("b"), wsum(ps)), wsum(ls, np)))]), ("=", "a", e), fin],
                             [("guard", [("=", "b", ("+", me, e)), ("ret", ("-", ("+", V("b"), wsum(ps)), wsum(ls, np)))]), ("=", "a", e), fin]):
                    yield leaf, ("f0", ps, ls, init + body), vals
