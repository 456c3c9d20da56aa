"""Native objects: sizes, members, elements, initializers, copies of every small type."""
import itertools
from core import *
from batch import *

NATIO = NATIVE_IO.replace("void pd(int v)", "void pd0(int v)").replace("void ps(int v) { pd(v); oc(' '); }", "void pd(int v) { pd0(v); oc(' '); }").replace("on_ = on_ - 1; oc(10)", "oc(10)").replace("on_", "on").replace("ob_", "ob")
PRE = NATIO + """
int ga[200];
int dirty(int n) { int a[60]; int i; for (i = 0; i < 60; i++) a[i] = -1 - n; return a[n]; }
"""
GPRE = PRE

BASES = {"char": (1, True), "short": (2, True), "int": (4, True), "unsigned char": (1, False), "unsigned short": (2, False),
         "unsigned int": (4, False), "long long": (8, True), "unsigned long long": (8, False)}
B = lambda n: ("b", n)
P = ("p",)
A = lambda t, n: ("a", t, n)
S = lambda *m: ("s", m)
U = lambda *m: ("u", m)
N = lambda *m: ("n", m)  # anonymous struct member
M = lambda *m: ("m", m)  # anonymous union member


class Ty:
    """Sizes with natural alignment, word size w."""

    def __init__(self, w):
        self.w = w

    def size(self, t):
        return self.sa(t)[0]

    def sa(self, t):
        k = t[0]
        if k == "b":
            return BASES[t[1]][0], BASES[t[1]][0]
        if k == "p":
            return self.w, self.w
        if k == "a":
            s, a = self.sa(t[1])
            return s * t[2], a
        off, al = 0, 1
        for m in t[1]:
            s, a = self.sa(m)
            al = max(al, a)
            if k in "um":
                off = max(off, s)
            else:
                off = -(-off // a) * a + s
        return -(-off // al) * al, al

    def offsets(self, t):
        off, out = 0, []
        for m in t[1]:
            s, a = self.sa(m)
            if t[0] in "um":
                out.append(0)
            else:
                off = -(-off // a) * a
                out.append(off)
                off += s
        return out


class Text:
    """Declares the struct types a type needs; names are unique to the case."""

    def __init__(self, id, inline):
        self.id, self.n, self.defs, self.inline, self.names = id, 0, [], inline, {}

    def members(self, t):
        out = []
        for i, m in enumerate(t[1]):
            out.append(self.decl(m, self.mname(t, i), inner=True) + ";")
        return " ".join(out)

    def mname(self, t, i):
        if t[1][i][0] in "nm":
            return ""
        # members of anonymous structs must not collide with their parents'
        return "%s%d" % ("f" if t[0] in "su" else "h" if t[0] == "n" else "k", i)

    def decl(self, t, name, inner=False):
        suffix = ""
        while t[0] == "a":
            suffix += "[%d]" % t[2]
            t = t[1]
        if t[0] == "b":
            return "%s %s%s" % (t[1], name, suffix)
        if t[0] == "p":
            return "int *%s%s" % (name, suffix)
        kw = "union" if t[0] in "um" else "struct"
        if t[0] in "nm":
            return "%s { %s }" % (kw, self.members(t))
        if inner and self.inline:
            return "%s { %s } %s%s" % (kw, self.members(t), name, suffix)
        if t not in self.names:
            self.n += 1
            tag = "T%d_%d" % (self.id, self.n)
            m = self.members(t)
            self.names[t] = "%s %s" % (kw, tag)
            self.defs.append("%s %s { %s };" % (kw, tag, m))
        return "%s %s%s" % (self.names[t], name, suffix)

    def leaves(self, t, path, pick):
        """Scalars that do not overlap: in unions, the member with index pick."""
        k = t[0]
        if k in "bp":
            return [(path, t)]
        if k == "a":
            return [x for i in range(t[2]) for x in self.leaves(t[1], "%s[%d]" % (path, i), pick)]
        out = []
        for i, m in enumerate(t[1]):
            if k in "um" and i != pick % len(t[1]):
                continue
            n = self.mname(t, i)
            out += self.leaves(m, path + "." + n if n else path, pick)
        return out


def val(t, i):
    """(C text, printed value) of the i-th distinct value of a scalar type."""
    if t[0] == "p":
        return "ga + %d" % (i % 190 + 1), i % 190 + 1
    n = t[1]
    v = 3 * i + 5
    if n == "char":
        v = v % 250 - 125 or 1
    elif n == "unsigned char":
        v = (v + 120) % 255 + 1
    elif n == "short":
        v = v * 301 % 65000 - 32000
    elif n == "unsigned short":
        v = (v * 301 + 30000) % 65000
    elif n in ("long long", "int"):
        v = v * 30011 - 2000000
    else:
        v = v * 30011 % 2000000000
    return str(v), v


def pr(path, t):
    return "pd(%s - ga);" % path if t[0] == "p" else "pd(%s);" % path


def prz(path, t):
    """prints a scalar that may be a null pointer"""
    return "pd(%s ? %s - ga : 0);" % (path, path) if t[0] == "p" else "pd(%s);" % path


def init_list(t, it, tx, cut, form=(), srcs=None):
    """(text, values of the leaves in order, zero where not given).  cut: path of
    the braces (tuple of indices) -> number of elements kept there."""
    def zero(t):
        if t[0] in "bp":
            return [0]
        if t[0] == "a":
            return zero(t[1]) * t[2]
        return [z for m in (t[1][:1] if t[0] in "um" else t[1]) for z in zero(m)]

    def go(t, path):
        if t[0] in "bp":
            x, v = val(t, next(it))
            return "{%s}" % x if ("brace", path) in form else x, [v]
        if ("string", path) in form:
            n = max(0, t[2] - form[1])
            cs = [97 + (next(it) % 26) for _ in range(n)]
            return '"%s"' % "".join(map(chr, cs)), cs + [0] * (t[2] - n)
        if ("copy", path) in form:
            mine = "src%d" % len(srcs)
            srcs.append("")
            x, v = go(t, path + ("src",))
            srcs[-1] = "%s = %s;" % (tx.decl(t, mine), x)
            return mine, v
        subs = [t[1]] * t[2] if t[0] == "a" else list(t[1][:1]) if t[0] in "um" else list(t[1])
        keep = cut.get(path, len(subs))
        xs, vs = [], []
        for i, m in enumerate(subs):
            if i < keep:
                x, v = go(m, path + (i,))
                xs.append(x)
                vs += v
            else:
                vs += zero(m)
        return "{" + ", ".join(xs) + ("," if ("comma", path) in form else "") + "}", vs
    return go(t, ())


def forms(t):
    """Other ways to write the initializer of a type: braces around scalars, strings for arrays of
    characters, objects in place of lists, commas at the end, arrays without size."""
    out = []

    def go(t, path):
        if t[0] in "bp":
            if path:
                out.append(("brace", path))
            return
        out.append(("comma", path))
        if t[0] == "a" and t[1] == ("b", "char"):
            out.extend([("string", path), k] for k in range(t[2] + 1))
        if t[0] in "su":
            out.append(("copy", path))
        subs = [t[1]] * t[2] if t[0] == "a" else list(t[1][:1]) if t[0] in "um" else list(t[1])
        for i, m in enumerate(subs):
            go(m, path + (i,))
    go(t, ())
    out = [f if isinstance(f, list) else [f] for f in out]
    if t[0] == "a":
        out.append([("unsized", ())])
    return [tuple(f) for f in out]


def braces(t, path=()):
    """All brace positions with their number of elements."""
    if t[0] in "bp":
        return []
    subs = [t[1]] * t[2] if t[0] == "a" else list(t[1][:1]) if t[0] in "um" else list(t[1])
    out = [(path, len(subs))]
    for i, m in enumerate(subs):
        out += braces(m, path + (i,))
    return out


STOR = ("global", "local", "static", "heap", "param")


def case_store(st, id, t, ty, kind, inline, pick):
    tx = Text(id, inline)
    d = tx.decl(t, "x%d" % id)
    x = "x%d" % id
    name = d[:d.index(x)].strip()
    pre, head, top = "", "", ""
    agg = t[0] in "su"
    if kind == "global":
        top = d + "; int after%d;" % id
        head = "after%d = 77;" % id
    elif kind == "local":
        head = "int before; %s; int after; before = 76; after = 77;" % d
    elif kind == "static":
        head = "static %s; static int after; after = 77;" % d
    elif kind == "heap":
        if t[0] == "a":
            return None
        head = "%s; %s; int after; %s = malloc(sizeof(%s) * 2); after = 77;" % (tx.decl(t, "v"), tx.decl(t, "*" + x), x, name)
        x = "(*%s)" % x
    leaves = tx.leaves(t, x, pick)
    body, exp = [], []
    if kind == "param":
        if not agg:
            return None
        body = ["%s; f%d(4, %s, 5, %s);" % (d, id, x, x)]
        head = ""
        fill = []
    st.nstates += len(leaves)
    order = list(range(len(leaves)))
    for i in reversed(order):
        c, v = val(leaves[i][1], i)
        body.append("%s = %s;" % (leaves[i][0], c))
    vals = [val(l[1], i)[1] for i, l in enumerate(leaves)]
    if kind == "param":
        body = ["%s; dirty(%d);" % (d, id % 40)] + body[1:] + ["f%d(4, %s, 5, %s);" % (id, x, x)]
        inner = [l[0].replace(x, "s", 1) for l in leaves]
        inner2 = [l[0].replace(x, "r", 1) for l in leaves]
        fb = ["pd(n); pd(k);"] + [pr(i, l[1]) for i, l in zip(inner, leaves)]
        fb += ["%s = %s;" % (i, val(l[1], 50 + j)[0]) for j, (i, l) in enumerate(zip(inner, leaves))]
        fb += [pr(i, l[1]) for i, l in zip(inner2, leaves)] + [pr(i, l[1]) for i, l in zip(inner, leaves)]
        vals2 = [val(l[1], 50 + j)[1] for j, l in enumerate(leaves)]
        exp = [4, 5] + vals + vals + vals2
        top = "void f%d(int n, %s, int k, %s) { %s }" % (id, tx.decl(t, "s"), tx.decl(t, "r"), " ".join(fb))
        body += [pr(*l) for l in leaves]
        exp += vals
    else:
        body += [pr(*l) for l in leaves]
        exp += vals
        root = "&" + x if kind != "heap" else "&" + x
        if agg:
            # through a pointer, and after a copy
            body.append("{ %s; %s; p = &%s; y = %s;" % (tx.decl(t, "*p"), tx.decl(t, "y"), x, x))
            pl = [l[0].replace(x + ".", "p->", 1) for l in leaves]
            body += [pr(a, l[1]) for a, l in zip(pl, leaves)]
            exp += vals
            body += ["%s = %s;" % (a, val(l[1], 60 + j)[0]) for j, (a, l) in enumerate(zip(pl, leaves))]
            yl = [l[0].replace(x, "y", 1) for l in leaves]
            body += [pr(a, l[1]) for a, l in zip(yl, leaves)]
            exp += vals
            body += [pr(*l) for l in leaves]
            v2 = [val(l[1], 60 + j)[1] for j, l in enumerate(leaves)]
            exp += v2
            body.append("*p = y; p = &y;")
            body += [pr(*l) for l in leaves] + [pr(a, l[1]) for a, l in zip(pl, leaves)] + ["}"]
            exp += vals + vals
        after = "after%d" % id if kind == "global" else "after"
        body.append("pd(%s);" % after)
        exp.append(77)
        if kind == "local":
            body.append("pd(before);")
            exp.append(76)
    decl = "%s\n%s\nvoid k%d() { %s\n%s\nnl(); }" % (" ".join(tx.defs), top, id, head, "\n".join(body))
    return Case(id, decl, ["dirty(%d); k%d();" % (id % 50, id)], ["".join("%d " % v for v in exp).encode()], "%s %s" % (kind, d))


def case_init(st, id, t, ty, kind, inline, cut):
    tx = Text(id, inline)
    x = "x%d" % id
    d = tx.decl(t, x)
    form, srcs = (), []
    if isinstance(cut, tuple):
        form, cut = cut, {}
        if form[0][0] == "unsized":
            d = d.replace("[%d]" % t[2], "[]", 1)
    text, vals = init_list(t, iter(range(1000)), tx, cut, form, srcs)
    st.nstates += len(vals)
    leaves = tx.leaves(t, x, 0)
    pl = [prz(*l) for l in leaves]
    top, head = "", ""
    if kind == "global":
        top = "%s = %s; int after%d = 77;" % (d, text, id)
        af = "after%d" % id
        pre = ""
    elif kind == "static":
        head, af = "static %s = %s; static int after = 77;" % (d, text), "after"
    else:
        head, af = "%s int before = 76; %s = %s; int after = 77;" % (" ".join(srcs), d, text), "after"
    body = pl + ["pd(%s);" % af]
    exp = vals + [77]
    calls = "k%d();" % id
    if kind == "local":
        body.append("pd(before);")
        exp.append(76)
    if kind in ("static", "global"):
        # keeps what the first call stored
        l, lt = leaves[-1]
        body += ["%s = %s;" % (l, val(lt, 70)[0]), prz(l, lt)]
        exp.append(val(lt, 70)[1])
    else:
        calls += " k%d();" % id
    exp = "".join("%d " % v for v in exp).encode()
    exps = [exp]
    if kind == "local":
        exps = [exp, exp]
    decl = "%s\n%s\nvoid k%d() { %s\n%s\nnl(); }" % (" ".join(tx.defs), top, id, head, "\n".join(body))
    return Case(id, decl, ["dirty(%d); %s" % (id % 50, calls)], exps, "%s %s = %s" % (kind, d, text))


def case_size(st, id, t, ty, kind, inline, _):
    tx = Text(id, inline)
    x = "x%d" % id
    d = tx.decl(t, x)
    body, exp = [], []

    def walk(t, path, off, depth):
        body.append("pd(sizeof(%s)); pd((char*)&%s - (char*)&%s);" % (path, path, x))
        exp.extend([ty.size(t), off])
        if t[0] == "a":
            for i in {0, t[2] - 1}:
                walk(t[1], "%s[%d]" % (path, i), off + i * ty.size(t[1]), depth + 1)
        elif t[0] in "sunm":
            for i, (m, o) in enumerate(zip(t[1], ty.offsets(t))):
                n = tx.mname(t, i)
                if n:
                    walk(m, path + "." + n, off + o, depth + 1)
                else:
                    for j, (mm, oo) in enumerate(zip(m[1], ty.offsets(m))):
                        if tx.mname(m, j):
                            walk(mm, path + "." + tx.mname(m, j), off + o + oo, depth + 2)
    walk(t, x, 0, 0)
    if t[0] != "a":
        nm = d[:d.index(x)].strip()
        body.append("{ %s; %s; p = a; p++; pd(p - a); pd((char*)p - (char*)a); pd((char*)(a + 2) - (char*)a); pd((char*)&a[1] - (char*)a); p += 1; pd(&a[2] == p); p--; --p; pd(p == a); pd(sizeof(%s)); pd(sizeof a); pd(sizeof *p); }"
                    % (tx.decl(A(t, 3), "a"), tx.decl(t, "*p"), nm))
        z = ty.size(t)
        exp += [1, z, 2 * z, z, 1, 1, z, 3 * z, z]
    st.nstates += len(body)
    decl = "%s\n%s;\nvoid k%d() {\n%s\nnl(); }" % (" ".join(tx.defs), d, id, "\n".join(body))
    return Case(id, decl, ["k%d();" % id], ["".join("%d " % v for v in exp).encode()], "sizes of %s" % d)


def types(w, quick):
    base = ["char", "short", "int", "unsigned char", "unsigned short", "unsigned int"] + (["long long", "unsigned long long"] if w == 8 else [])
    sc = [B(n) for n in base] + [P]
    few = [B("char"), B("short"), B("int"), P] + ([B("long long")] if w == 8 else [])
    out = list(sc)
    out += [A(t, n) for t in sc for n in (1, 2, 3, 5)]
    out += [S(a) for a in sc]
    d1 = [S(*m) for k in (2, 3) for m in itertools.product(few, repeat=k)] + [S(a, b) for a in sc for b in sc]
    d1 += [U(*m) for m in itertools.product(few, repeat=2)]
    out += d1
    reps = [A(B("char"), 3), A(B("int"), 2), A(B("short"), 1), S(B("char"), B("int")), S(B("int"), B("char")), S(B("short"), B("char")), S(P, B("char")), S(B("char")),
            U(B("int"), B("char")), U(B("char"), B("short")), N(B("char"), B("int")), M(B("char"), B("int")), N(B("short"))]
    small = [B("char"), B("int")] + ([] if quick else [B("short"), P])
    for r in reps:
        if r[0] not in "nm":
            out += [A(r, 2), A(r, 3)]
        for a in small:
            out += [S(a, r), S(r, a), U(a, r) if r[0] not in "nm" else S(a, r, a)]
            for b in small:
                out += [S(a, r, b)]
    for r, q in itertools.product(reps, reps):
        if r[0] in "nm" and q[0] in "nm":
            continue
        out.append(S(r, q))
        if r[0] not in "nm" and q[0] not in "nm":
            out += [A(S(B("char"), r), 2)] + ([U(r, q)] if not quick else [])
        if not quick:
            for a in small:
                out += [S(a, r, q), S(r, a, q)]
    for r in (A(A(B("char"), 2), 3), A(A(B("int"), 3), 2), A(A(A(B("short"), 2), 2), 2), A(A(S(B("char"), B("short")), 2), 2), A(S(B("char"), A(A(B("int"), 2), 2), B("char")), 2),
              S(A(A(B("char"), 3), 2), B("int")), S(S(S(B("char"), B("int")), B("char")), B("short")), A(U(B("char"), S(B("short"), B("int"))), 2), S(B("char"), U(A(B("int"), 2), B("char")), A(P, 2)),
              A(A(P, 2), 2), A(A(U(B("short"), B("char")), 2), 2)):
        out.append(r)
    return [t for t in dict.fromkeys(out)]


def make(w):
    ty = Ty(w)

    def mk(st, id, p):
        what, t, kind, inline, arg = p
        return {"store": case_store, "init": case_init, "size": case_size}[what](st, id, t, ty, kind, inline, arg)
    return mk


def plan(w, quick):
    out = []
    for t in types(w, quick):
        nested = any(m[0] in "su" for m in t[1]) if t[0] in "su" else t[0] == "a" and t[1][0] in "su"
        for inline in ((0, 1) if nested and t[0] != "a" else (0,)):
            for kind in STOR:
                picks = (0, 1) if "'u'" in repr(t) or "'m'" in repr(t) else (0,)
                for pick in picks:
                    out.append(("store", t, kind, inline, pick))
            out.append(("size", t, "", inline, None))
        if t[0] in "bp" or "'n'" in repr(t) or "'m'" in repr(t):
            # braces around members of anonymous structs are a matter of taste
            continue
        br = braces(t)
        cuts = [{}]
        for p, n in br:
            cuts += [{p: k} for k in range(1, n)]
        for a, b in itertools.combinations(br, 2):
            if a[1] > 1 and b[1] > 1 and len(a[0]) != len(b[0]):
                cuts.append({a[0]: a[1] - 1, b[0]: b[1] - 1})
        for kind in ("global", "local", "static"):
            for c in cuts[: 12 if quick else 60]:
                out.append(("init", t, kind, 0, c))
            for f in forms(t):
                if f[0][0] != "copy" or kind == "local":
                    out.append(("init", t, kind, 0, f))
    return out


def main(chk):
    chk.assumptions = ["sizes and offsets follow natural alignment, as in the i386 and x86-64 ABIs for these types (4 byte aligned pointers on i386)",
                       "initializers with all inner braces"]
    for v, w in (("i386", 4), ("x86_64", 8)):
        p = plan(w, chk.quick)
        chk.extra["cases " + v] = len(p)
        r = Runner(v, None, PRE, batch=100, timeout=60)
        r.gcc = w == 8
        sweep(chk, p, make(w), [(r, None)])
        chk.transitions += len(p)
        for q in p[:: max(1, len(p) // 3)][:3]:
            chk.sample("%s: %r" % (v, q))
    if not chk.quick:
        for v, w in (("i386-safe", 4), ("x86_64-safe", 8)):
            r = Runner(v, None, PRE, batch=100, timeout=60)
            r.gcc = False
            sweep(chk, plan(w, True), make(w), [(r, None)])
