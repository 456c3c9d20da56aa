"""Declarations: every small declarator over every spelling of the base types, in every place."""
import itertools
from core import *
from batch import *

# spellings of the base types: (text, size, signed)
BASES = [(s, n, g) for n, g, l in (
    (1, 1, ["char", "signed char"]), (1, 0, ["unsigned char"]),
    (2, 1, ["short", "short int", "signed short", "signed short int"]), (2, 0, ["unsigned short", "unsigned short int"]),
    (4, 1, ["int", "signed", "signed int", "long", "long int", "signed long", "signed long int"]), (4, 0, ["unsigned", "unsigned int", "unsigned long", "unsigned long int"]),
    (8, 1, ["long long", "long long int", "signed long long", "signed long long int"]), (8, 0, ["unsigned long long", "unsigned long long int"])) for s in l]
TAGGED = [("struct SA", 8, "s"), ("struct SB", 3, "s"), ("union UA", 4, "s"), ("tchar", 1, 1), ("tushort", 2, 0), ("tint", 4, 1), ("tst", 8, "s"), ("enum EA", 4, 1), ("tuint", 4, 0)]
QUALS = ["%s", "const %s", "%s const", "volatile %s", "%s volatile", "const volatile %s"]
PRE = NATIVE_IO + """
struct SA { int a; char b; }; struct SB { char c[3]; }; union UA { char c; int i; };
typedef char tchar; typedef unsigned short tushort; typedef int tint; typedef struct SA tst; enum EA { EA0, EA1 = 7 }; typedef unsigned int tuint;
int buf[6][64];
void fill() { int i; int j; for (i = 0; i < 6; i++) for (j = 0; j < 64; j++) buf[i][j] = -1; }
"""
# declarators: ("n",) ("*", q, D) ("[", n, D) ("f", D); the type reads from the name outwards


def declarators(depth):
    """Lists of derivations from the name outwards: '*', ('[', n), 'f'; a function returns no array
    or function, an array has no functions."""
    out = [()]
    last = [()]
    for _ in range(depth):
        nxt = []
        for d in last:
            for x in ("*", 2, 3, "f"):
                if d and d[-1] == "f" and x != "*":
                    continue
                if d and isinstance(d[-1], int) and x == "f":
                    continue
                nxt.append(d + (x,))
        out += nxt
        last = nxt
    return out


def declare(base, ds, name, qual=""):
    """C text of a declaration."""
    t, prev = name, None
    for x in ds:
        if x == "*":
            t = "*" + qual + t
            prev = "*"
        else:
            if prev == "*":
                t = "(" + t + ")"
            t += "[%d]" % x if isinstance(x, int) else "(int a, char *b)"
            prev = x
    return (base + " " + t).rstrip()


def size(ds, n, w):
    if not ds:
        return n
    if ds[0] == "*":
        return w
    if ds[0] == "f":
        return None
    return ds[0] * size(ds[1:], n, w)


def walk(x, ds, n, signed, w, lv, obs, exp, k=0):
    """Observations on an expression x of type ds: sizes all the way, and at the end the sign."""
    s = size(ds, n, w)
    if s is not None:
        obs.append("ps(sizeof(%s));" % x)
        exp.append(s)
    if not ds:
        if lv and signed != "s":
            obs.append("ps(%s < 0); ps(%s == -1);" % (x, x))
            exp.append(int(signed))
            exp.append(1 if signed or n >= 4 else 0)
        return
    if ds[0] == "*":
        t = size(ds[1:], n, w)
        if t is not None:
            if lv:
                obs.append("%s = (void *) buf[%d];" % (x, k))
                obs.append("ps((char *) (%s + 1) - (char *) %s);" % (x, x))
                exp.append(t)
            walk("(*%s)" % x, ds[1:], n, signed, w, lv, obs, exp, k + 1)
        else:
            walk("(*%s)(1, 0)" % x, ds[2:], n, signed, w, False, obs, exp, k + 1)
    elif ds[0] == "f":
        walk("%s(1, 0)" % x, ds[1:], n, signed, w, False, obs, exp, k)
    else:
        walk("%s[%d]" % (x, ds[0] - 1), ds[1:], n, signed, w, lv, obs, exp, k)


PLACES = ("global", "local", "static", "param", "member", "typedef", "typename", "several", "register", "inner", "pointer member", "result")


def case(st, id, pl):
    (base, n, signed), ds, place, w = pl
    if "enum" in base:  # as wide as a word: C leaves that to the implementation
        n = w
    if n == 8 and w == 4 and signed != "s":
        return None
    x = "x%d" % id
    obs, exp, top, head = [], [], "", ""
    params = call = ""
    d = lambda name, b=base: declare(b, ds, name)
    isfun = bool(ds) and ds[0] == "f"
    if isfun and place not in ("global", "typedef", "local", "several"):
        return None
    if place == "global":
        top = d(x) + ";"
    elif place == "local":
        x = "l"
        if isfun:
            return None
        head = d("l") + ";"
    elif place == "register":
        x, head = "l", "register " + d("l") + ";"
    elif place == "static":
        x, head = "l", "static " + d("l") + ";"
    elif place == "inner":
        x, head = "l", "char l[7]; { int k; " + d("l") + ";"
    elif place == "param":
        x, params, call = "l", d("l"), "0"
        if not ds and signed == "s":
            return None
        ds = ("*",) + ds[1:] if ds and isinstance(ds[0], int) else ds
    elif place == "member":
        top, x = "struct M%d { char z; %s; char y; } m%d;" % (id, d("l"), id), "m%d.l" % id
    elif place == "pointer member":
        top, head, x = "struct M%d { char z; %s; char y; } m%d;" % (id, d("l"), id), "struct M%d *o = &m%d;" % (id, id), "o->l"
    elif place == "typedef":
        top = "typedef %s; T%d %s;" % (d("T%d" % id), id, x)
        if isfun:
            return None
    elif place == "typename":
        if size(ds, n, w) is None:
            return None
        obs.append("ps(sizeof(%s));" % declare(base, ds, "").rstrip())
        exp.append(size(ds, n, w))
        if ds and ds[0] == "*" and size(ds[1:], n, w) is not None:
            obs.append("ps((char *) ((%s) buf[0] + 1) - (char *) buf[0]);" % declare(base, ds, ""))
            exp.append(size(ds[1:], n, w))
        elif not ds and signed != "s":
            obs.append("ps(((%s) buf[0][0]) < 0);" % base)
            exp.append(int(signed))
        obs.insert(0, "fill();")
    elif place == "several":
        b2 = declare(base, ds, x)
        top = "%s *a%d, %s, b%d[2];" % (base, id, b2[len(base) + 1:], id)
        obs.append("ps(sizeof(a%d)); ps(sizeof(*a%d)); ps(sizeof(b%d));" % (id, id, id))
        exp += [w, n, 2 * n]
    elif place == "result":
        if not ds or ds[0] != "*":
            return None
        # a function that returns the type: declared through the type's outermost pointer
        top = "%s;" % declare(base, ("f",) + ds, "f%d" % id)
        walk("f%d(1, 0)" % id, ds, n, signed, w, False, obs, exp)
    if place not in ("typename", "result"):
        lv = not isfun
        if lv:
            obs.append("fill();")
            if not any(z == "*" for z in ds) and signed != "s":
                z = x + "".join("[%d]" % (y - 1) for y in ds)
                obs.append("%s = -1;" % z)
        walk(x, ds, n, signed, w, lv, obs, exp)
    st.nstates += len(exp)
    st.transitions += len(ds) + 1
    st.outcomes.add((place, tuple(exp)))
    fun = "void c%d(%s) { %s %s %s}" % (id, params, head, "\n".join(obs), "}" if place == "inner" else "")
    return Case(id, top + "\n" + fun, ["ps(%d); c%d(%s); nl();" % (id, id, call)], [" ".join(map(str, [id] + exp)).encode()], "%s as %s" % (declare(base, ds, "x"), place))


def plan(w, q):
    out = []
    allb = BASES + TAGGED
    d2, d3 = declarators(2), declarators(3)[len(declarators(2)):]
    j = 0
    for d in d2:
        for b in allb:
            for k, p in enumerate(PLACES):
                out.append((b, d, p, w))
    for d in d3 if q else declarators(4)[len(d2):]:
        for p in PLACES:
            for b in allb if not q else (allb[j % len(allb)], allb[(j + 11) % len(allb)], allb[(j + 23) % len(allb)]):
                out.append((b, d, p, w))
                j += 1
    for b in allb:
        for f in QUALS[1:]:
            for d in declarators(1):
                j += 1
                for p in (PLACES[j % len(PLACES)],) if q else PLACES:
                    out.append(((f % b[0], b[1], b[2]), d, p, w))
    return out


def main(chk):
    q = chk.quick
    chk.assumptions = ["long has the size of int, as pnut's source documents", "long long only on x86-64"]
    for v, w in (("x86_64", 8), ("i386", 4)):
        p = plan(w, q)
        chk.extra["declarations " + v] = len(p)
        r = Runner(v, None, PRE, batch=150, timeout=60)
        r.gcc = False
        sweep(chk, p, case, [(r, None)])
        for x in p[:: max(1, len(p) // 3)][:3]:
            chk.sample("%s: %s as %s" % (v, declare(x[0][0], x[1], "x"), x[2]))
