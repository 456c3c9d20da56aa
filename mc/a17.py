"""Native functions: parameters, results, recursion, function pointers, scopes, static locals."""
import itertools, re
from core import *
from batch import *
from callgen import *
import callgen
import a03

NATIO = NATIVE_IO.replace("void pd(int v)", "void pd0(int v)").replace("void ps(int v) { pd(v); oc(' '); }", "void pd(int v) { pd0(v); oc(' '); }").replace("on_ = on_ - 1; oc(10)", "oc(10)").replace("on_", "on").replace("ob_", "ob")
CALLS = NATIO + """
int a; int b; int g; int ar[4];
void rs(int fuel) { a = 3; b = 5; g = fuel; ar[0] = 11; ar[1] = 12; ar[2] = 13; ar[3] = 14; }
void put(int id, int r) { pd(id); pd(r); pd(a); pd(b); pd(g); pd(ar[0]); pd(ar[1]); pd(ar[2]); pd(ar[3]); nl(); }
"""
TYPES = {"char": (1, 1), "unsigned char": (1, 0), "short": (2, 1), "unsigned short": (2, 0), "int": (4, 1), "unsigned int": (4, 0), "long long": (8, 1), "unsigned long long": (8, 0)}


def conv(v, t):
    n, s = TYPES[t]
    v &= (1 << 8 * n) - 1
    return v - (1 << 8 * n) if s and v >> (8 * n - 1) else v


VALUES = [0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, 65535, 65536, -32769, 2147483647, -2147483647, 0x12345678]


def case_typed(st, id, p):
    """Conversion of arguments and results: p = (parameter types, result type, argument types, static, call form)."""
    ps, rt, ats, form = p
    names = ["p%d" % i for i in range(len(ps))]
    # every parameter is printed in pieces that show its type: itself, and shifted when wide
    shows = []
    for n, t in zip(names, ps):
        shows.append("pd(%s < 0); pd((int)%s); pd((int)(%s / 65536)); pd((int)sizeof(%s));" % (n, n, n, n))
    k = id % len(names)
    decl = ["%s f%d(%s) { %s return %s; }" % (rt, id, ", ".join("%s %s" % x for x in zip(ps, names)), " ".join(shows), names[k])]
    body, exp = [], []
    lines = []
    cast = "%s (*fp)(%s); fp = f%d;" % (rt, ", ".join(ps), id)
    for vi, v in enumerate(VALUES):
        args, vals = [], []
        for i, (at, pt) in enumerate(zip(ats, ps)):
            x = conv(VALUES[(vi + 5 * i) % len(VALUES)], at)
            body.append("a%d = %d;" % (i, VALUES[(vi + 5 * i) % len(VALUES)]))
            args.append("a%d" % i)
            vals.append(conv(x, pt))
        st.nstates += 1
        out = []
        for x, t in zip(vals, ps):
            q = abs(x) // 65536 * (1 if x >= 0 else -1)
            out += [int(x < 0), conv(x, "int"), conv(q, "int"), TYPES[t][0]]
        r = conv(vals[k], rt)
        out += [int(r < 0), conv(r, "int"), conv(abs(r) // 65536 * (1 if r >= 0 else -1), "int")]
        call = ("f%d(%s)" if form == "direct" else "fp(%s)" if form == "pointer" else "(*fp)(%s)").replace("%d", str(id)) % ", ".join(args)
        body.append("r = %s; pd(r < 0); pd((int)r); pd((int)(r / 65536)); nl();" % call)
        lines.append("".join("%d " % o for o in out).encode())
    decl.append("void k%d() { %s %s r; %s\n%s }" % (id, " ".join("%s a%d;" % (t, i) for i, t in enumerate(ats)), rt, cast, "\n".join(body)))
    return Case(id, "\n".join(decl), ["k%d();" % id], lines, "%s f(%s) called with (%s), %s" % (rt, ", ".join(ps), ", ".join(ats), form))


# ------------------------------------------------------------ function pointers

FPRE = """
typedef int (*F)(int);
int cnt;
int f0(int x) { cnt = cnt + 1; return x + 1; }
int f1(int x) { cnt = cnt + 10; return x * 2; }
int f2(int x) { cnt = cnt + 100; return 7 - x; }
struct S { char c; F f; int (*g)(int); F t[2]; };
struct S s; struct S *p; struct S sa[2];
F tab[3]; F gf; F ini[3] = {f2, f0, f1}; int (*raw)(int); int (*rawtab[2])(int);
F pick(int n) { return n == 0 ? f0 : n == 1 ? f1 : f2; }
int (*pickr(int n))(int) { if (n == 0) return f0; if (n == 1) return f1; return f2; }
int call(F f, int x) { return f(x); }
int callr(int (*f)(int), int x) { return (*f)(x); }
int callh(int f(int), int x) { return f(x); }
int twice(F f, F g, int x) { return f(g(x)); }
F ident(F f) { return f; }
"""
# places that hold a function: (assignment, expression)
PLACES = [("gf = %s;", "gf"), ("raw = %s;", "raw"), ("l = %s;", "l"), ("lr = %s;", "lr"), ("s.f = %s;", "s.f"), ("s.g = %s;", "s.g"), ("p = &s; p->f = %s;", "p->f"), ("p = &s; (*p).g = %s;", "p->g"),
          ("tab[1] = %s;", "tab[1]"), ("rawtab[1] = %s;", "rawtab[1]"), ("lt[n] = %s;", "lt[n]"), ("s.t[1] = %s;", "s.t[1]"), ("sa[1].g = %s;", "sa[1].g"), ("p = sa; p++; p->t[0] = %s;", "sa[1].t[0]"),
          ("pf = &tab[2]; *pf = %s;", "*pf"), ("pf = lt; pf[1] = %s;", "pf[1]"), ("st = %s;", "st"), ("gf = %s; pf = &gf;", "*pf")]
SOURCES = ["f%d", "&f%d", "*f%d", "**f%d", "(f%d)", "(F)f%d", "pick(%d)", "pickr(%d)", "ident(f%d)", "ident(pick(%d))", "n ? f%d : f0", "n ? pick(%d) : gf", "ini[%d == 0 ? 1 : %d == 1 ? 2 : 0]", "(cnt, f%d)"]
FORMS = ["%s(%d)", "(*%s)(%d)", "(**%s)(%d)", "call(%s, %d)", "callr(%s, %d)", "callh(%s, %d)", "twice(%s, f1, %d)", "twice(f2, %s, %d)", "ident(%s)(%d)", "%s(f0(%d))", "f1(%s(%d))", "call(n ? %s : f0, %d)"]
FN = [(lambda x: x + 1, 1), (lambda x: x * 2, 10), (lambda x: 7 - x, 100)]


def case_fp(st, id, q):
    pl, src, forms = q
    body, out, cnt = [], [], 0
    for k in range(3):
        asg, ex = PLACES[pl]
        sx = SOURCES[src]
        sx = sx % ((k,) * sx.count("%d"))
        body.append(asg % sx)
        e = "(%s)" % ex if ex.startswith("*") else ex
        for j in forms:
            x = 3 + j
            f, c = FN[k]
            form = FORMS[j]
            if j == 6:
                r, dc = f(FN[1][0](x)), c + 10
            elif j == 7:
                r, dc = FN[2][0](f(x)), c + 100
            elif j == 9:
                r, dc = f(x + 1), c + 1
            elif j == 10:
                r, dc = f(x) * 2, c + 10
            else:
                r, dc = f(x), c
            body.append("pd(%s); pd(cnt); cnt = 0;" % (form % (e, x)))
            out += [r, dc]
            st.nstates += 1
        body.append("pd(%s == f%d); pd(%s == f%d); pd(%s != 0);" % (e, k, e, (k + 1) % 3, e))
        out += [1, 0, 1]
    decl = "void k%d() { F l; int (*lr)(int); F lt[2]; F *pf; static F st; int n; n = 1; cnt = 0;\n%s\nnl(); }" % (id, "\n".join(body))
    return Case(id, decl, ["k%d();" % id], ["".join("%d " % o for o in out).encode()], "%s with %s, called %s" % (PLACES[pl][0], SOURCES[src], [FORMS[j] for j in forms]))


# ------------------------------------------------------------ scopes

KINDS = ["", "int x = %d;", "static int x = %d;", "char x = %d;", "int x[2] = {%d, 2};", "int x; x = %d;", "int y; int x = %d; int z = 3;"]


def case_scope(st, id, q):
    """q: (parameter x?, kinds of 4 scopes, loop form)"""
    par, kinds, loop = q
    out = []
    statics = {}
    gx = [50]

    class Obj:
        def __init__(self, v, char=False):
            self.v, self.char = v, char

    def simulate():
        env = [gobj]

        def use(k):
            o = env[-1]
            o.v += k
            if o.char:
                o.v = conv(o.v, "char")
            out.append(o.v)

        def scope(i, inner):
            k = kinds[i]
            if k:
                v = 10 * i + 3
                if k == 2:
                    o = statics.setdefault(i, Obj(v))
                else:
                    o = Obj(v, k == 3)
                env.append(o)
            use(i + 1)
            for f in inner:
                f()
            use(i + 5)
            if k:
                env.pop()
        if par:
            env.append(Obj(100))
        use(20)
        for _ in range(2 if loop else 1):
            scope(0, [lambda: scope(1, [lambda: scope(2, [])]), lambda: scope(3, [])])
        use(30)
    gobj = Obj(50)
    u = lambda k, arr: ("x[0] += %d; pd(x[0]);" if arr else "x += %d; pd(x);") % k

    def text(i, inner, arr):
        k = kinds[i]
        a = k == 4 if k else arr
        d = KINDS[k] % (10 * i + 3) if k else ""
        return "{ %s %s %s %s }" % (d, u(i + 1, a), " ".join(text(j, inn, a) for j, inn in inner), u(i + 5, a))
    tree = text(0, [(1, [(2, [])]), (3, [])], False)
    if loop == 1:
        tree = "for (i = 0; i < 2; i++) " + tree
    elif loop == 2:
        tree = "i = 0; while (i < 2) { " + tree + " i++; }"
    elif loop == 3:
        tree = "i = 0; again: " + tree + " i++; if (i < 2) goto again;"
    elif loop == 4:
        tree = "i = 0; do switch (i) { default: " + tree + " i++; } while (i < 2);"
    decl = "void k%d(%s) { int i; %s %s %s }" % (id, "int x" if par else "", u(20, False), tree, u(30, False))
    for _ in range(2):
        simulate()
    st.nstates += len(out)
    st.outcomes.add(tuple(out))
    c = "k%d(%s);" % (id, "100" if par else "")
    return Case(id, decl, ["x = 50; %s %s pd(x); nl();" % (c, c)], ["".join("%d " % o for o in out + [gobj.v]).encode()], decl)


# ------------------------------------------------------------ one name for functions and objects

NPRE = """
int g0(int x) { return x * 10; }
int g1(int x) { return x * 10 + 1; }
int g2(int x) { return x * 10 + 2; }
int g3(int x) { return x * 10 + 3; }
int g4(int x) { return x * 10 + 4; }
int call(int (*f)(int), int x) { return f(x); }
"""
# what the name stands for at one level: (declaration, statements after it); # is the level
NAMED = {"none": ("", ""), "int": ("int N; ", "N = 100 + #;"), "ptr": ("int (*N)(int); ", "N = g#;"), "init": ("int (*N)(int) = g#; ", ""),
         "arr": ("int (*N[2])(int); ", "N[0] = g#; N[1] = g#;"), "static": ("static int (*N)(int); ", "N = g#;"), "sint": ("static int N = 100 + #; ", "N = 100 + #;"), "char": ("char N; ", "N = 100 + #;")}
GLOBALS = {"fun": "int N(int x) { return x * 10 + 5; }\n", "proto": "int N(int);\n", "int": "int N = 100;\n", "ptr": "int (*N)(int) = g0;\n", "none": ""}
PARAMS = {"none": ("int q", "7"), "int": ("int N", "101"), "ptr": ("int (*N)(int)", "g1"), "fun": ("int N(int x)", "g1"), "second": ("int q, int (*N)(int)", "7, g1")}


def case_named(st, id, q):
    g, par, loc, inner, order = q
    out, bound = [], []

    def use():
        """Statements that use the name as what it stands for here."""
        kind, lev = bound[-1]
        if kind == "none":
            return ""
        st.nstates += 1
        if kind in ("int", "sint", "char"):
            v = 100 + lev[0]
            lev[0] += 1
            out.append(v)
            out.append(v + 1)
            return "pd(N); N += 1; pd(N);"
        f = 5 if lev == "f" else lev[0]
        r = [30 + f, 40 + f, 50 + f, 310 + 10 * f + f]
        out.extend(r)
        n = "N" if kind != "arr" else "N[1]"
        return "pd({0}(3)); pd((*{0})(4)); pd(call({0}, 5)); pd({0}(31 + {0}(0)));".replace("{0}", n)

    bound.append(("ptr" if g == "ptr" else "int" if g == "int" else "fun" if g in ("fun", "proto") else "none", "f" if g in ("fun", "proto") else [0]))
    body = []

    def level(kind, k):
        d, a = NAMED[kind]
        if kind != "none":
            bound.append((kind, [k]))
        return (d + a).replace("#", str(k))

    if par != "none":
        bound.append(("int" if par == "int" else "ptr", [1]))
    b0 = use() if loc == "none" or order else ""  # before the local declaration, in its own block
    text = "{ %s }" % b0
    if order:
        text += "{ "
    d = level(loc, 2)
    text = d + use() if not order and loc != "none" else text + d + use()
    if inner != "none":
        keep = len(bound)
        text += " { " + use() + " " + "{ " + level(inner, 3)
        text += use() + " } "
        del bound[keep:]
        text += use() + " } "
    text += use()
    if order:
        if loc != "none":
            bound.pop()
        text += " } " + use()
    params, args = PARAMS[par]
    fun = "void k(%s) { %s nl(); }" % (params, text)
    # the function is called through its own name: N is renamed apart per program
    decls = GLOBALS[g] + fun + ("\nint N(int x) { return x * 10 + 5; }" if g == "proto" else "")
    decls = re.sub(r"\bN\b", "n%d" % id, decls)
    decls = re.sub(r"\bk\(", "k%d(" % id, decls)
    return Case(id, decls, ["k%d(%s);" % (id, args)], ["".join("%d " % o for o in out).encode()], "global %s, parameter %s, local %s, block %s" % q[:4])


def plan_named():
    for g in GLOBALS:
        for par in PARAMS:
            for loc in NAMED:
                for inner in NAMED:
                    for order in (0, 1):
                        if par not in ("none", "second") and order == 0 and loc != "none":
                            continue  # parameters and outermost locals share their scope
                        if par == "second" and order == 0 and loc != "none":
                            continue
                        if (g, par, loc, inner) != ("none",) * 4:
                            yield g, par, loc, inner, order


def plan_typed(w, quick):
    ts = [t for t in TYPES if w == 8 or TYPES[t][0] < 8]
    out = []
    for pt in ts:
        for rt in ts:
            for at in ts:
                out.append(((pt,), rt, (at,), ("direct", "pointer", "star")[len(out) % 3]))
    for ps in itertools.product(ts, repeat=2):
        out.append((ps, ps[0], ps[::-1], ("direct", "pointer", "star")[len(out) % 3]))
        out.append((ps, ps[1], ("int", "int"), ("direct", "pointer", "star")[len(out) % 3]))
    for k in range(3, 8):
        for s in range(len(ts) * (1 if quick else 4)):
            ps = tuple(ts[(s + i * (1 + s // len(ts))) % len(ts)] for i in range(k))
            for form in ("direct", "pointer"):
                out.append((ps, ps[-1], ps, form))
                out.append((ps, "int", ("int",) * k, form))
    return out


def main(chk):
    chk.assumptions = ["programs whose result depends on C's unspecified evaluation order or on uninitialised locals are outside the alphabet"]
    build_all(["i386", "x86_64"])
    # calls, recursion, name collisions: the programs of A03, state printed with a space at the end
    calls = a03.plan(not chk.quick)
    chk.extra["call programs"] = len(calls)
    mk = lambda st, id, p: a03.make(st, id, p, b" ")
    if not sweep(chk, calls, mk, [(Runner(v, None, CALLS, batch=300, timeout=40), None) for v in ("i386", "x86_64")]):
        return
    fp = [(pl, src, tuple(range(len(FORMS)))) for pl in range(len(PLACES)) for src in range(len(SOURCES))]
    chk.extra["function pointer programs"] = len(fp)
    V = [("i386", 4), ("x86_64", 8)]
    sweep(chk, fp, case_fp, [(Runner(v, None, NATIO + FPRE, batch=60), None) for v, _ in V])
    kinds = range(len(KINDS)) if not chk.quick else (0, 1, 2, 3, 4)
    sc = [(par, k, loop) for par in (0, 1) for loop in range(5) for k in itertools.product(kinds, repeat=4) if not chk.quick or loop == 0 or (sum(k) + loop + par) % 3 == 0]
    chk.extra["scope programs"] = len(sc)
    sweep(chk, sc, case_scope, [(Runner(v, None, NATIO + "int x;\n", batch=200), None) for v, _ in V])
    nm = list(plan_named())
    chk.extra["name programs"] = len(nm)
    sweep(chk, nm, case_named, [(Runner(v, None, NATIO + NPRE, batch=100), None) for v, _ in V])
    chk.transitions += len(nm)
    for v, w in V:
        tp = plan_typed(w, chk.quick)
        chk.extra["typed programs " + v] = len(tp)
        sweep(chk, tp, case_typed, [(Runner(v, None, NATIO, batch=40), None)])
    chk.transitions += len(fp) + len(sc)
    for q in sc[:: len(sc) // 2]:
        chk.sample(repr(q))
