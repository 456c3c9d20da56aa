"""Macro expansion: the token sequence every use of macros produces."""
import hashlib, itertools, re
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
from core import *
from batch import *
import core, cpp
import a13


def lines_text(lines):
    out = []
    for l in lines:
        if l[0] == "def":
            out.append("#define %s%s %s" % (l[1], "" if l[2] is None else "(%s)" % ", ".join(l[2]), l[3]))
        elif l[0] == "undef":
            out.append("#undef " + l[1])
        else:
            out.append(l[1])
    return "\n".join(out)


D = lambda n, body: ("def", n, None, body)
F = lambda n, p, body: ("def", n, tuple(p), body)
T = lambda s: ("text", s)


def case(lines):
    """(text, canonical text after the macros are gone)"""
    try:
        want = cpp.run(lines)
    except cpp.Err:
        return None
    names = list(dict.fromkeys(l[1] for l in lines if l[0] == "def"))
    return lines_text(lines), "\n".join("#undef " + n for n in names), " ".join(want)


class Mtok(a13.Tok):
    def text(self, cases):
        return "".join("\nZm%d\n%s\n%s\nZn%d %s\n" % (i, a, u, i, b) for i, (a, u, b) in enumerate(cases)) + "\nZm%d\n" % len(cases)

    def gcc(self, cases):
        """Cross check of the model: gcc's preprocessor must agree with it."""
        p = subprocess.run(["gcc", "-E", "-P", "-w", "-xc", "-"], input=self.text(cases).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        parts = re.split(r"\b(Z[mn]\d+)\b", p.stdout.decode())
        seg = [cpp.toks(x) for x in parts[2::2]]
        for i in range(len(cases)):
            if seg[2 * i] != seg[2 * i + 1]:
                raise SystemExit("internal: macro model disagrees with gcc: %r: %r" % (cases[i], seg[2 * i]))

    def single(self, c):
        """None when c expands as it should, else what was observed"""
        rc, o = self.run([c])
        p = re.split(rb"(?:(?<= )|^)(Z[mn]\d+) ", o)
        if rc != 0 or len(p) < 5:
            return b"ERR"
        return None if p[2] == p[4] and len(p) == 7 else b"".join(p[2:3] + p[5:])


def families(quick):
    # object-like macros, with every pattern of mutual reference
    B = ["", "1", "A", "B", "C", "A B", "2 C", "x", "B ( 3 )", "C , 4"]
    for a, b, c in itertools.product(B, B, B):
        yield [D("A", a), D("B", b), D("C", c), T("A ; B ; C ; A B C x")]
    # one parameter
    B1 = ["", "x", "1 x", "x x", "G(x)", "F(x)", "G", "x(2)", "(x)", "A x", "G(x) x", "G(F(x))", "y", "x y", "A"]
    B2 = ["x", "", "x 5", "F(x)", "F", "A", "x(x)", "G(x)", "(x", "F(A)"]
    BA = ["", "7", "F", "G(8)", "F(9)", "A", "G", "( 6 )", ")"]
    U = ["F(1)", "F(F(1))", "F(G(2))", "F(A)", "G(F)(3)", "F", "F (4)", "F  (  5 )", "F((1, 2))", "F()", "G(A)", "G(G(1)) F", "A(3)", "A", "F(G)(4)", "F(A 1)", "F(F)(1)", "(F)(1)", "F(1)(2)", "G(1", "A 1)", "F(+) F(;)", "F(\"a,b)\")"]
    for f, g, a in itertools.product(B1, B2, BA):
        yield [F("F", "x", f), F("G", "x", g), D("A", a)] + [T(u + " ;") for u in U]
    # two parameters, commas and empty arguments
    B2P = ["x y", "y x", "x", "y", "x , y", "( x , y )", "x + y * x", "F1(x) y", "F(y , x)", "F1(x y)", "x(y)", ""]
    B1P = ["z", "z z", "F(z, 1)", "F(z)", "( z )", "F z"]
    BA = ["1 , 2", "1", "", "( 1 , 2 )", "F1"]
    U2 = ["F(1, 2)", "F(,)", "F(1,)", "F(,2)", "F((1,2),(3))", "F(F(1,2),F(3,4))", "F1(F(1,2))", "F(A, 3)", "F((A), 3)", "F1(A)", "F(F1(1), F1(2))", "F1(F1(A))", "F(x, y)", "F(y, x)", "F(F, F1)", "F(F1, (3))", "F1((F)(1, 2))", "F(((,)), (()))"]
    for f, g, a in itertools.product(B2P, B1P, BA):
        yield [F("F", "xy", f), F("F1", "z", g), D("A", a)] + [T(u + " ;") for u in U2]
    # three function-like macros
    B3 = ["x", "H(x)", "G(x) x", "x(x)", "F(G(x))", "H", "x H(x)", "G", "F(H(x))", "x(1)", "F(x)", "H(G)", "x y"]
    U3 = ["F(1)", "F(G(H(1)))", "H(G(F(1)))", "F(H)", "G(H)(2)", "F(G(H))", "F(1) G(2) H(3)", "G(F(G(1)))", "F(1)(2)"]
    n3 = 8 if quick else len(B3)
    for f, g, h in itertools.product(B3[:n3], repeat=3):
        yield [F("F", "x", f), F("G", "x", g), F("H", "x", h)] + [T(u + " ;") for u in (U3[:7] if quick else U3)]
    # no parameters
    for f, a in itertools.product(["", "1", "Z()", "A", "Z", "( )"], ["", "Z", "Z()", "2", "( )"]):
        yield [F("Z", "", f), D("A", a)] + [T(u + " ;") for u in ("Z()", "Z ( )", "Z", "A", "A()", "Z()()", "(Z)()")]
    # pasting
    PB = ["x ## y", "x ## 1", "a ## y", "x ## y ## b", "x ## y x", "y x ## y", "( x ## y )", "x ## y ( 1 )", "A x ## y", "x y ## 2 x", "G(x ## y)", "a ## b x", "x ## x y ## y"]
    PU = ["F(a, b)", "F(a, 1)", "F(a, 12)", "F(a, A)", "F(A, a)", "F(A, b)", "F(a b, c d)", "F(a, )", "F(, b)", "F(,)", "F(1, 2)", "F(12, 34)", "F(1, 0)", "F(20, 10)", "F(a, 10)", "F(a, 0)", "F(F, 1)", "F(G(1), b)", "F(a, G(1))", "F(i, nt)", "F(i, f)", "F(a (1), b)"]
    for f, a, g in itertools.product(PB, ["b", "q r", "", "ab"], ["x", "A x"]):
        yield [F("F", "xy", f), D("A", a), D("ab", "AB"), F("G", "x", g), F("aG", "x", "x x"), D("F1", "55")] + [T(u + " ;") for u in PU]
    # strings
    for f in ("#x", "# x y", "x #x", "(#x)", "G(#x)", "#x #y", "x ## y #x"):
        for a in ("b", "1"):
            yield [F("F", "xy", f), D("A", a), F("G", "x", "x x")] + [T(u + " ;") for u in ("F(a, b)", "F(A, b)", "F(while, b)", "F(F, a)", "F(a, (1))")]
    # redefinition and removal
    for b in itertools.product(["1", "A", "B", "F(2)", ""], repeat=3):
        yield [D("A", b[0]), T("A B ;"), D("B", b[1]), T("A B F(3) ;"), ("undef", "A"), T("A B ;"), F("F", "x", "x A"), T("A B F(B) ;"), D("A", b[2]), T("A B F(A) ;"), ("undef", "F"), T("A B F(1) ;"), ("undef", "B"), ("undef", "NEVER"), T("A B")]
    # names that mean something else
    for n, b in itertools.product(["int", "while", "if", "define", "include", "ifdef", "else", "main", "printf", "sizeof"], ["3", "x", "int", "while ( 1 )"]):
        yield [D(n, b), T(n + " ; x " + n + " = " + n + " ;"), ("undef", n), T(n + " ;"), F(n, "a", b + " a"), T(n + " ; " + n + "(4) " + n + "(" + n + ") ;")]
    # deep nesting
    for k in range(1, 50):
        yield [D("A0", "1")] + [D("A%d" % i, "A%d +" % (i - 1)) for i in range(1, k)] + [T("A%d ;" % (k - 1))]
        yield [F("B0", "x", "x")] + [F("B%d" % i, "x", "B%d(x +)" % (i - 1)) for i in range(1, k)] + [T("B%d(1) ;" % (k - 1))] if k < 18 else [T("x")]
        yield [F("I", "x", "x 1")] + [T("I(" * k + "9" + ")" * k + " ;")] if k < 18 else [T("x")]


def split(lines):
    """One case per use, so that an invalid use only removes itself."""
    last = [i for i, l in enumerate(lines) if l[0] == "text"]
    n = 0
    defs = [l for l in lines if l[0] != "text"]
    if all(lines[i][0] == "text" for i in range(last[0], len(lines))) and len(last) > 1:
        for i in last:
            yield defs + [lines[i]]
    else:
        yield lines


KNOWN = os.path.join(VERIF, "known-macros.txt")


def load_known_cases():
    if not os.path.exists(KNOWN):
        return {}
    return dict(l.split()[:2] for l in open(KNOWN) if l.strip() and not l.startswith("#"))


def key(c):
    return hashlib.sha1(c[0].encode()).hexdigest()[:14]


def obs_key(o):
    return hashlib.sha1(o).hexdigest()[:8]


def part(a):
    quick, k, n = a
    t = Mtok((), False)
    known = load_known_cases()
    batch, total, done, steps = [], 0, 0, 0
    kinds, met = set(), 0
    for i, ls in enumerate(families(quick)):
        if i % n != k:
            continue
        for l in split(ls):
            total += 1
            c = case(l)
            if c is None:
                continue
            kinds.add(c[2])
            if key(c) in known:
                met += 1
                done += 1
                t.gcc([c])
                o = t.single(c)
                if o is not None and obs_key(o) != known[key(c)]:
                    t.fail.append((c, o))
                continue
            batch.append(c)
            if len(batch) == 500:
                t.gcc(batch)
                done += t.check(batch)
                batch = []
    if batch:
        t.gcc(batch)
    done += t.check(batch)
    return total, done, kinds, t.fail, met


# Whole programs: the same expander feeding the parser, with macro calls that
# extend over lines and comments.
PRE = """
#define K 3
#define ID(x) x
#define PAIR(a, b) (a * 10 + b)
#define TWICE(x) PAIR(x, x)
#define NEG(x) (-(x))
#define BOTH(f, x) f(x) + f(f(x))
#define SEL(c, a, b) ((c) ? (a) : (b))
#define CATV(n) v ## n
#define NOARG() (v1 + K)
#define EMPTY
#define SETV(n, e) CATV(n) = e;
#define LOOP(i, n) for (i = 0; i < (n); i = i + 1)
#define BEGIN {
#define END }
"""
ATOMS = ["1", "K", "v1", "CATV(2)", "NOARG()"]
WRAPS = ["ID(%s)", "TWICE(%s)", "NEG(%s)", "BOTH(ID, %s)", "BOTH(NEG, %s)", "BOTH(inc, %s)", "PAIR(%s, 4)", "PAIR(5, %s)", "SEL(%s > 2, %s, K)", "SEL(0, , %s)", "ID(inc)(%s)", "inc(%s)", "ID((%s))", "(TWICE)%s"]
WRAPS = [w for w in WRAPS if w not in ("SEL(0, , %s)", "(TWICE)%s")]
GAPS = ["", " ", "\n", "/* ( */", "// )\n"]


def gapped(e, g, where):
    """e with g after the where-th parenthesis or comma, or before it (negative)"""
    ps = [m.start() for m in re.finditer(r"[(),]", e)]
    if not ps:
        return None
    p = ps[where % len(ps)]
    return e[:p + (where >= 0)] + g + e[p + (where >= 0):]


def exprs(quick):
    one = [w % ((a,) * w.count("%s")) for w in WRAPS for a in ATOMS]
    two = [w % ((a,) * w.count("%s")) for w in WRAPS for a in one]
    for e in one + two:
        yield e
    if not quick:
        for w in WRAPS:
            for a in two:
                if len(a) < 60:
                    yield w % ((a,) * w.count("%s"))
    for e in one + (two[::3] if quick else two):
        for g in GAPS[1:]:
            for w in range(-6, 6):
                x = gapped(e, g, w)
                if x:
                    yield x


def cvalue(e):
    """value of e by the model: expand, then evaluate"""
    lines = []
    for l in PRE.strip().split("\n"):
        m = re.match(r"#define (\w+)(?:\(([^)]*)\))? ?(.*)", l)
        lines.append(("def", m[1], None if m[2] is None else tuple(x.strip() for x in m[2].split(",") if x.strip()), m[3]))
    text = re.sub(r"/\*.*?\*/|//[^\n]*\n", " ", e).replace("\n", " ")
    lines.append(("text", text))
    ts = list(cpp.run(lines))
    return pyeval(ts)


def pyeval(ts):
    pos = [0]
    env = {"v1": 7, "v2": 20}

    def peek():
        return ts[pos[0]] if pos[0] < len(ts) else None

    def take(x=None):
        t = peek()
        assert x is None or t == x, (ts, pos, x)
        pos[0] += 1
        return t

    def prim():
        t = take()
        if t == "(":
            v = cond()
            take(")")
        elif t == "-":
            return -prim()
        elif t == "inc":
            if peek() == "(":
                take("(")
                v = cond() + 1
                take(")")
            else:
                raise ValueError(t)
        else:
            v = int(t) if t.isdigit() else env[t]
        return v

    def mul():
        v = prim()
        while peek() == "*":
            take()
            v *= prim()
        return v

    def add():
        v = mul()
        while peek() in ("+", "-"):
            v = v + mul() if take() == "+" else v - mul()
        return v

    def rel():
        v = add()
        if peek() == ">":
            take()
            v = int(v > add())
        return v

    def cond():
        v = rel()
        if peek() == "?":
            take()
            a = cond()
            take(":")
            b = cond()
            v = a if v else b
        return v
    v = cond()
    assert pos[0] == len(ts), ts
    return v


def prog_make(st, id, e):
    v = cvalue(e)
    if abs(v) >= 1 << 31 or "SEL(" in e and "inc" in e:  # calls in branches of ?: are rejected
        return None
    decl = "void f%d() { int i; EMPTY SETV(1, 7) CATV(2) = 20; LOOP(i, 2) BEGIN s(%s); END nl(); }" % (id, e)
    return Case(id, decl, ["f%d();" % id], [b"%d %d " % (v, v)], e)


def main(chk):
    core.VARIANTS["tokenizer"] = ["-DDEBUG_CPP"]
    core.build("tokenizer", ())
    q = chk.quick
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, [(q, k, 4 * NCPU) for k in range(4 * NCPU)]))
    kinds = set()
    nf = 0
    for total, done, ks, fail, met in res:
        chk.traces += done
        chk.transitions += total
        kinds |= ks
        chk.extra["known failing cases met"] = chk.extra.get("known failing cases met", 0) + met
        for c, o in fail:
            if nf < 8:
                nf += 1
                chk.violation("macro expansion of %r is not %r" % (c[0], c[2]), "observed tokens: %s\ncompile p.c and q.c with pnut built with -DDEBUG_CPP; the outputs must show the same tokens" % (o[-300:] if isinstance(o, bytes) else o),
                              {"p.c": c[0] + "\n", "q.c": c[2] + "\n"})
    for k in kinds:
        chk.state(k)
    print("KNOWN-FINDING: property=A11 %d macro uses that are listed in known-macros.txt with their observed expansion" % chk.extra["known failing cases met"])
    chk.extra["distinct expansions"] = len(kinds)
    if chk.violations:
        return
    from a10 import SHP, NATP
    pre = PRE + "int v1; int v2;\nint inc(int x) { return x + 1; }\n"
    plan = list(dict.fromkeys(exprs(q)))
    chk.extra["macro programs"] = len(plan)
    for v, sh, p in (("x86_64", None, NATP), ("sh", "dash", SHP)) + ((("i386", None, NATP), ("sh-release", "ksh", SHP)) if not q else ()):
        r = Runner(v, sh, p + pre, batch=200)
        sweep(chk, plan, prog_make, [(r, None)])
    for c in list(families(q))[1000:1004]:
        chk.sample({"text": lines_text(c), "expansion": (case(c) or ("", "", "invalid"))[2]})
