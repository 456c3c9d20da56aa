"""Native pointers: every small expression over pointers into one array, for every kind of element."""
import itertools, re
from core import *
from batch import *
from a14 import prelude

N = 8
# element kinds: (declaration of array x with n elements, pointer y, lvalue of an element expression, value range, word sizes, declarations)
EL = {
    "char": ("char %s[%d]", "char *%s", "%s", 1, ""),
    "uchar": ("unsigned char %s[%d]", "unsigned char *%s", "%s", 1, ""),
    "short": ("short %s[%d]", "short *%s", "%s", 2, ""),
    "ushort": ("unsigned short %s[%d]", "unsigned short *%s", "%s", 2, ""),
    "int": ("int %s[%d]", "int *%s", "%s", 4, ""),
    "uint": ("unsigned int %s[%d]", "unsigned int *%s", "%s", 4, ""),
    "llong": ("long long %s[%d]", "long long *%s", "%s", 8, ""),
    "ptr": ("int *%s[%d]", "int **%s", "%s", 0, ""),
    "s3": ("struct S3 %s[%d]", "struct S3 *%s", "%s.c[1]", 3, "struct S3 { char c[3]; };"),
    "s12": ("struct S12 %s[%d]", "struct S12 *%s", "%s.y", 12, "struct S12 { int x; short y; char z; int w; };"),
    "u5": ("union U5 %s[%d]", "union U5 *%s", "%s.k", 8, "union U5 { char c[5]; short k; int j; };"),
    "row": ("int %s[%d][3]", "int (*%s)[3]", "%s[1]", 12, ""),
    "typedef": ("tt %s[%d]", "tp %s", "%s", 2, "typedef short tt; typedef tt *tp;"),
}
ITYPES = {"int": 1, "char": 1, "short": 1, "unsigned char": 0, "unsigned short": 0, "unsigned int": 0, "long long": 1, "unsigned long long": 0}
# where the array and the pointers live: (declarations at file level, parameters/locals, array, p, q)
PLACES = {
    "global": ("{A:g}; {P:gp}; {P:gq};", "", "g", "gp", "gq"),
    "local": ("", "{A:l}; {P:lp}; {P:lq};", "l", "lp", "lq"),
    "member": ("struct M@ {{ char t; {A:a}; {P:p}; {P:q}; }}; struct M@ m@;", "", "m@.a", "m@.p", "m@.q"),
    "arrow": ("struct M@ {{ char t; {A:a}; {P:p}; {P:q}; }}; struct M@ mm@[2];", "struct M@ *o; o = mm@ + 1;", "o->a", "o->p", "o->q"),
    "static": ("", "static {A:s}; static {P:sp}; static {P:sq};", "s", "sp", "sq"),
    "block": ("", "char pad[3]; {A:l}; {{ int n; {P:n1}; {P:n2};", "l", "n1", "n2"),
}


class UB(Exception):
    pass


# trees. pointers: ('a') ('p') ('q') ('+',P,I) ('r+',I,P) ('-',P,I) ('&[',P,I) ('&r[',I,P) ('&*',P) ('++x','p') ('x++','p') ... ('+=','p',I) ('-=','p',I) ('=','p',P)
#        ('?',I,P,P) (',',I,P) ('f',P) ('cast',P)
# integers: ('i') ('k',n) ('d',P,P) ('c',op,P,P) ('!',P) ('*',P) ('[',P,I) ('r[',I,P) ('st',P,n) ('pp',P) ('m',P) ('null',P)

def ev(e, s):
    k = e[0]
    if k in "pq" and len(k) == 1:
        return s[k]
    if k == "a":
        return 0
    if k == "i":
        return s["i"]
    if k == "k":
        return e[1]
    if k in ("+", "&["):
        return ptr(ev(e[1], s) + ev(e[2], s))
    if k in ("r+", "&r["):
        return ptr(ev(e[1], s) + ev(e[2], s))
    if k == "-":
        return ptr(ev(e[1], s) - ev(e[2], s))
    if k in ("f", "cast"):
        return ev(e[1], s)
    if k == "&*":
        return ev(e[1], s)
    if k in ("++x", "--x", "x++", "x--"):
        old = s[e[1]]
        s[e[1]] = ptr(old + (1 if "+" in k else -1))
        return old if k[0] == "x" else s[e[1]]
    if k in ("+=", "-="):
        v = ev(e[2], s)
        s[e[1]] = ptr(s[e[1]] + (v if k == "+=" else -v))
        return s[e[1]]
    if k == "=":
        s[e[1]] = ev(e[2], s)
        return s[e[1]]
    if k == "?":
        return ev(e[2] if ev(e[1], s) else e[3], s)
    if k == ",":
        ev(e[1], s)
        return ev(e[2], s)
    if k == "d":
        return ev(e[1], s) - ev(e[2], s)
    if k == "c":
        a, b = ev(e[2], s), ev(e[3], s)
        return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[e[1]])
    if k == "!":
        ev(e[1], s)
        return 0
    if k == "null":
        ev(e[1], s)
        return 1
    if k == "*":
        return cell(s, ev(e[1], s))
    if k in ("[", "r["):
        return cell(s, ev(e[1], s) + ev(e[2], s))
    if k == "st":
        x = ev(e[1], s)
        cell(s, x)
        s["m"][x] = e[2]
        return e[2]
    if k == "inc":
        x = ev(e[1], s)
        s["m"][x] = cell(s, x) + 3
        return s["m"][x]
    raise AssertionError(e)


def ptr(v):
    if not 0 <= v <= N:
        raise UB
    return v


def cell(s, v):
    if not 0 <= v < N:
        raise UB
    return s["m"][v]


def text(e, el, nm):
    t = lambda x: text(x, el, nm)
    p = lambda x: t(x) if len(x) == 1 or x[0] == "k" else "(" + t(x) + ")"
    k = e[0]
    elem = lambda x: el[2] % x
    if k in nm:
        return nm[k]
    if k == "k":
        return "%d" % e[1] if e[1] >= 0 else "(%d)" % e[1]
    if k in "+-" or k == "r+":
        return p(e[1]) + " " + k[-1] + " " + p(e[2])
    if k in ("&[", "&r["):
        return "&%s[%s]" % (p(e[1]), t(e[2]))
    if k == "f":
        return "id(%s)" % p(e[1])
    if k == "cast":
        return "(%s)(char *)%s" % (el[1].replace(" %s", "").replace("%s", ""), p(e[1]))
    if k == "&*":
        return "&*" + p(e[1])
    if k in ("++x", "--x"):
        return k[:2] + nm[e[1]]
    if k in ("x++", "x--"):
        return nm[e[1]] + k[1:]
    if k in ("+=", "-=", "="):
        return "%s %s %s" % (nm[e[1]], k, p(e[2]))
    if k == "?":
        return "%s ? %s : %s" % (p(e[1]), p(e[2]), p(e[3]))
    if k == ",":
        return "%s, %s" % (p(e[1]), p(e[2]))
    if k == "d":
        return p(e[1]) + " - " + p(e[2])
    if k == "c":
        return p(e[2]) + " " + e[1] + " " + p(e[3])
    if k == "!":
        return "!" + p(e[1])
    if k == "null":
        return p(e[1]) + " != 0"
    if k == "*":
        return elem("(*%s)" % p(e[1]))
    if k in ("[", "r["):
        return elem("%s[%s]" % (p(e[1]), t(e[2])) if k == "[" or el[2] == "%s" else "(%s[%s])" % (p(e[1]), t(e[2])))
    if k == "st":
        return "%s = %d" % (elem("(*%s)" % p(e[1])), e[2])
    if k == "inc":
        return "%s += 3" % elem("(*%s)" % p(e[1]))
    raise AssertionError(e)


def names(e, out, mod):
    if e[0] in ("p", "q") and len(e) == 1:
        out.append(e[0])
    if e[0] in ("++x", "--x", "x++", "x--", "+=", "-=", "="):
        mod.append(e[1])
        out.append(e[1])
    for x in e[1:]:
        if isinstance(x, tuple):
            names(x, out, mod)
    return out, mod


def sequenced(e):
    """No object is changed and used in the same expression (except on both sides of a sequence point, which is left out too)."""
    used, mod = names(e, [], [])
    return all(used.count(x) == 1 for x in mod)


A, P, Q, I = ("a",), ("p",), ("q",), ("i",)
LEAVES = (A, P, Q)
INTS = (I, ("k", 2), ("k", -1))
CMP = ("<", ">", "<=", ">=", "==", "!=")


def step(ps, ints=INTS, others=LEAVES):
    """Pointer expressions with one more operator."""
    for x in ps:
        for i in ints:
            yield ("+", x, i)
            yield ("r+", i, x)
            yield ("-", x, i)
            yield ("&[", x, i)
            if i != ("k", -1):
                yield ("&r[", i, x)
        yield ("&*", x)
        yield ("f", x)
        yield ("cast", x)
        for v in "pq":
            if x != (v,):
                yield ("=", v, x)
        for y in others:
            yield ("?", I, x, y)
            if x != y:
                yield ("?", I, y, x)
        yield (",", I, x)


ASSIGN = [(o, v) for o in ("++x", "--x", "x++", "x--") for v in "pq"] + [(o, v, i) for o in ("+=", "-=") for v in "pq" for i in INTS]


def final(x, ints=INTS, others=LEAVES):
    """Integer expressions on a pointer expression."""
    yield ("*", x)
    yield ("st", x, 99)
    yield ("inc", x)
    yield ("!", x)
    yield ("null", x)
    for i in ints:
        yield ("[", x, i)
        if i != ("k", -1):
            yield ("r[", i, x)
    for y in others:
        yield ("d", x, y)
        yield ("d", y, x)
        for o in CMP:
            yield ("c", o, x, y)
            yield ("c", o, y, x)


def exprs(depth, thin=1):
    p0 = list(LEAVES)
    p1 = list(step(p0)) + ASSIGN
    for x in p0 + p1:
        yield x
        yield from final(x)
    if depth > 1:
        p2 = step(p1, INTS, (P,) if depth < 3 else LEAVES)
        n = 0
        for x in p2:
            yield x
            for f in final(x, INTS[:2] if depth < 3 else INTS, (P, A) if depth < 3 else LEAVES):
                n += 1
                if n % thin == 0:
                    yield f
        for x, y in itertools.product(p1, p1):
            n += 1
            if n % thin == 0:
                yield ("d", x, y)
                yield ("c", CMP[n % 6], x, y)


STARTS = [(2, 5, 1), (5, 2, 2), (3, 3, 0), (1, 7, 3), (6, 4, -1), (4, 8, -2), (0, 1, 2)]


def ispointer(e):
    return e[0] in ("a", "p", "q", "+", "r+", "-", "&[", "&r[", "&*", "f", "cast", "++x", "--x", "x++", "x--", "+=", "-=", "=", "?", ",")


def case(st, id, pl, word):
    e, kind, itype, place = pl
    el = EL[kind]
    size = el[3] or word
    if kind == "llong" and word == 4 or "long long" in itype and word == 4:
        return None
    if not sequenced(e):
        return None
    top, loc, a, p, q = PLACES[place]
    fmt = lambda s: s.replace("{{", "\x01").replace("}}", "\x02").replace("@", str(id)).replace("{A:g}", el[0] % ("g%d" % id, N)).replace("{P:gp}", el[1] % ("gp%d" % id)).replace("{P:gq}", el[1] % ("gq%d" % id))
    def sub(s):
        s = fmt(s)
        s = re.sub(r"\{A:(\w+)\}", lambda m: el[0] % (m.group(1), N), s)
        s = re.sub(r"\{P:(\w+)\}", lambda m: el[1] % m.group(1), s)
        return s.replace("\x01", "{").replace("\x02", "}")
    if place == "global":
        a, p, q = "g%d" % id, "gp%d" % id, "gq%d" % id
    a, p, q = (x.replace("@", str(id)) for x in (a, p, q))
    nm = {"a": a, "p": p, "q": q, "i": "i"}
    calls, exp = [], []
    for pi, qi, i in STARTS:
        if i < 0 and not ITYPES[itype]:
            continue
        s = {"p": pi, "q": qi, "i": i, "m": [10 + 3 * x for x in range(N)]}
        try:
            v = ev(e, s)
        except UB:
            continue
        calls.append("k%d(%d, %d, %d);" % (id, pi, qi, i))
        out = [v * size, size] if ispointer(e) else [v]
        out += [s["p"] * size, s["q"] * size] + s["m"]
        exp += out
        st.nstates += 1
        st.transitions += 1
        st.outcomes.add((kind, v))
    if not calls:
        return None
    tx = text(e, el, nm)
    if kind == "ptr":
        rd = lambda x: "(int)(%s - cells)" % x
        tx2 = tx
    else:
        rd = lambda x: x
    # printing
    byte = lambda x: "(int)((char *)(%s) - (char *)(%s))" % (x, a)
    if ispointer(e):
        show = "ps(%s); ps(%s);" % (byte(tx), "sizeof(*(%s))" % tx)
    elif kind == "ptr" and e[0] in ("*", "[", "r[", "st", "inc"):
        show = "ps((int)((%s) - cells));" % (tx.replace("= 99", "= cells + 99") if e[0] == "st" else tx)
    else:
        show = "ps(%s);" % tx
    lv = el[2] % (a + "[n]")
    init = "%s = %s10 + 3 * n;" % (lv, "cells + " if kind == "ptr" else "")
    dump = "ps(%s);" % (("(int)(%s - cells)" % lv) if kind == "ptr" else lv)
    close = "}" if place == "block" else ""
    n = "" if place == "block" else "int n; "
    decls = []
    if el[4]:
        decls.append("")
    idt = ""
    body = sub(loc)
    # declarations come first
    fun = "void k%d(int pi, int qi, %s i) { %s%s for (n = 0; n < %d; n++) { %s } %s = %s + pi; %s = %s + qi; %s ps(%s); ps(%s); for (n = 0; n < %d; n++) { %s } %s}" % (
        id, itype, n, body, N, init, p, a, q, a, show, byte(p), byte(q), N, dump, close)
    fun = fun.replace("id(", "id_%s(" % kind)
    decl = (sub(top) + "\n" if top else "") + fun
    return Case(id, decl, ["ps(%d);" % id] + calls + ["nl();"], [" ".join(map(str, [id] + exp)).encode()], "%s, elements %s, index %s, %s" % (text(e, ("", "", "%s", 0, ""), {"a": "a", "p": "p", "q": "q", "i": "i"}), kind, itype, place))


def pre(variant):
    w = 8 if variant.startswith("x86_64") else 4
    out = [prelude(variant), "int cells[200];"]
    for k, el in EL.items():
        if k == "llong" and w == 4:
            continue
        out.append(el[4])
        if k == "row":
            out.append("typedef int (*rowp)[3];\nrowp id_row(rowp x) { return x; }")
        else:
            out.append("%s(%s) { return x; }" % ((el[1] % ("id_" + k)), el[1] % "x"))
    return "\n".join(x for x in out if x) + "\n"


def main(chk):
    q = chk.quick
    chk.assumptions = ["pointers stay within one array (or one past its end) and are dereferenced only inside it",
                       "expressions that change and use a pointer without a sequence point are not part of the space"]
    kinds, its, places = list(EL), list(ITYPES), list(PLACES)
    plan = []
    d1 = list(dict.fromkeys(exprs(1)))
    n = 0
    for e in d1:
        for j, k in enumerate(kinds):
            for pl in places[n % 6:n % 6 + 1] if q else places:
                n += 1
                plan.append((e, k, its[n // 3 % 8], pl))
        for j, pl in enumerate(places):
            plan.append((e, kinds[(n + j) % len(kinds)], "int", pl))
        for it in its:
            n += 1
            for k in (kinds[n % len(kinds)],) if q else kinds:
                plan.append((e, k, it, "global"))
    d2 = [e for e in dict.fromkeys(exprs(2 if q else 3, 3 if q else 1))]
    for e in d2:
        n += 1
        plan.append((e, kinds[n % len(kinds)], its[n // 2 % 8], places[n // 5 % len(places)]))
    plan = list(dict.fromkeys(plan))
    chk.extra["expressions"] = len(d1) + len(d2)
    for variant, w in (("i386", 4), ("x86_64", 8)):
        make = lambda st, id, p: case(st, id, p, w)
        vs = [variant] if q else [variant, variant + "-release"]
        sweep(chk, plan, make, [(Runner(v, None, pre(v), batch=200, timeout=40), None) for v in vs])
    for p in plan[:: max(1, len(plan) // 4)][:4]:
        chk.sample(text(p[0], ("", "", "%s", 0, ""), {"a": "a", "p": "p", "q": "q", "i": "i"}) + " " + repr(p[1:4]))
