"""Shell backend: expressions."""
import itertools
from core import *
from batch import *
from exprgen import *
import cmodel

NMEM = 12
PRELUDE = """
struct S { int a; int b; };
enum { EA = 5, EB = -4, EC };
int ga; int gb; int cnt; int tr; int ar[12]; int *q; struct S *s;
int f(int k) { cnt = cnt + 10 + k; return k + 1; }
int g(int k) { tr = tr * 3 + k + 50; tr = tr % 9973; return k % 3; }
int h(int k) { return ga + k; }
int m(int a, int b) { int c; c = a * 3; return c - b; }
void put(int id, int r, int x, int y) {
  printf("%d %d %d %d %d %d %d %d %d", id, r, x, y, ga, gb, cnt, tr, q - ar);
  printf(" %d %d %d %d %d %d", ar[0], ar[1], ar[2], ar[3], ar[4], ar[5]);
  printf(" %d %d %d %d %d %d\\n", ar[6], ar[7], ar[8], ar[9], ar[10], ar[11]);
}
"""
VALS = [dict(x=1, y=2, ga=3, gb=6, q=4, mem=[7, -3, 0, 2, 5, 1, 4, 3, 2, 6, -1, 9]),
        dict(x=0, y=5, ga=2, gb=-7, q=5, mem=[1, 0, 3, -2, 0, 2, 1, 6, 4, 0, 3, 2]),
        dict(x=-2, y=1, ga=0, gb=3, q=4, mem=[0, 5, 1, 1, -6, 0, 2, -1, 3, 2, 0, 1])]
for i, v in enumerate(VALS):
    PRELUDE += "void rs%d() { cnt = 0; tr = 0; ga = %d; gb = %d; q = ar + %d; s = (struct S *) (ar + 9);\n%s }\n" % (
        i, v["ga"], v["gb"], v["q"], " ".join("ar[%d] = %d;" % (j, m) for j, m in enumerate(v["mem"])))

cmodel.FUN_EFF.update(f=(frozenset(), frozenset(["cnt"])), g=(frozenset(["tr"]), frozenset(["tr"])),
                      h=(frozenset(["ga"]), frozenset()), m=(frozenset(), frozenset()))


def cm(x, m):
    return x - m * tdiv(x, m)


def f_f(env, k):
    env.v["cnt"][1] += 10 + k
    return "i", arith("i", k + 1)


def f_g(env, k):
    t = arith("i", arith("i", env.v["tr"][1] * 3 + k) + 50)
    env.v["tr"][1] = cm(t, 9973)
    return "i", cm(k, 3)


def f_h(env, k):
    return "i", arith("i", env.v["ga"][1] + k)


def f_m(env, a, b):
    return "i", arith("i", arith("i", a * 3) - b)


FUNS = {"f": f_f, "g": f_g, "h": f_h, "m": f_m}


def mkenv(v):
    return Env({"x": ["i", v["x"]], "y": ["i", v["y"]], "ga": ["i", v["ga"]], "gb": ["i", v["gb"]],
                "cnt": ["i", 0], "tr": ["i", 0], "r": ["i", 0]},
               {"q": v["q"], "s": 9}, list(v["mem"]), "i", 0, {"a": 0, "b": 1}, FUNS)


class FldEnv(Env):
    pass


def line(id, r, env):
    v = env.v
    return ("%d %d %d %d %d %d %d %d %d %s" % (id, r, v["x"][1], v["y"][1], v["ga"][1], v["gb"][1], v["cnt"][1],
                                              v["tr"][1], env.p["q"], " ".join(map(str, env.mem)))).encode()


def has_call(n):
    return any_node(n, lambda m: m[0] == "call")


def has_effect(n):
    return any_node(n, lambda m: m[0] in ("call", "asg", "pasg", "pre", "post", "ppre", "ppost"))


def has_lifted(n):
    return any_node(n, lambda m: m[0] == "call" or m[0] == "comma" and has_effect(m[1]))


def supported(n, test):
    """Expressions the shell backend documents as rejected: calls under ?: arms,
    and under && / || outside of tests; left operands of comma operators with
    side effects are lifted out like calls."""
    k = n[0]
    if k in ("cond", "pcond"):
        if has_lifted(n[2]) or has_lifted(n[3]):
            return False
    if k in ("and", "or"):
        if test:
            return supported(n[1], True) and supported(n[2], True)
        if has_lifted(n[1]) or has_lifted(n[2]):
            return False
        return supported(n[1], False) and supported(n[2], False)
    if k == "paren":
        return supported(n[1], test)
    return all(supported(n[i], False) for i in kids(n))


def strip(n):
    while n[0] == "paren" or (n[0] == "un" and n[1] == "+"):
        n = n[1] if n[0] == "paren" else n[2]
    return n


def bad_lvalue(n):
    """Known finding: an index of an lvalue (assigned, incremented or whose
    address is taken) with a binary & is added to the base without parentheses
    (examples/compiled pins that text)."""
    v = strip(n)
    return v[0] == "idx" and any(last_and(m) for m in v[1:])


def last_and(n):
    n = strip(n)
    return n[0] == "comma" and last_and(n[2]) or n[0] == "bin" and n[1] == "&"


def mem_addrs(n):
    """Address expressions of the memory accesses in n."""
    if n[0] == "idx":
        yield n[1]
        yield n[2]
    elif n[0] == "deref":
        yield n[1]
    elif n[0] == "fld":
        yield ("pvar", n[1])
    for i in kids(n):
        yield from mem_addrs(n[i])


def hazard(n, test):
    """Known finding: addresses are nested arithmetic expansions, which the
    shell evaluates before the expression: an address with side effects in a
    conditionally evaluated operand is evaluated unconditionally, and one that
    depends on an assignment sequenced before it sees the old value."""
    k = n[0]
    if k == "paren":
        return hazard(n[1], test)
    if k in ("and", "or") and test:
        return hazard(n[1], True) or hazard(n[2], True)
    if k in ("and", "or", "cond", "pcond"):
        w = eff(n[1])[1]
        for b in n[2:]:
            for a in mem_addrs(b):
                ra, wa = eff(a)
                if wa or ra & w:
                    return True
    return any(hazard(n[i], False) for i in kids(n))


def known_shape(n, test):
    return hazard(n, test) or any_node(n, lambda m: m[0] in ("asg", "pre", "post", "addr") and bad_lvalue(m[1] if m[0] == "addr" else m[2]))


def isptr(n):
    return n[0] in PTRK


def value(n, env):
    return evp(n, env) if isptr(n) else ev(n, env)[1]


CTX = {
    "V": "void k%(id)d(int x, int y) { int r; r = %(e)s; put(%(id)d, r, x, y); }",
    "N": "void k%(id)d(int x, int y) { int r = %(e)s; put(%(id)d, r, x, y); }",
    "T": "void k%(id)d(int x, int y) { int r; if (%(e)s) { r = 1; } else { r = 0; } put(%(id)d, r, x, y); }",
    "E": "void k%(id)d(int x, int y) { int r; if (ga == 99) { r = 7; } else if (%(e)s) { r = 1; } else { r = 0; } put(%(id)d, r, x, y); }",
    "W": "void k%(id)d(int x, int y) { int r; r = 0; while (%(e)s) { r = r + 1; if (r == 3) break; } put(%(id)d, r, x, y); }",
    "A": "void k%(id)d(int x, int y) { int r; r = f(%(e)s); put(%(id)d, r, x, y); }",
    "R": "int j%(id)d(int x, int y) { return %(e)s; } void k%(id)d(int x, int y) { int r; r = j%(id)d(x, y); put(%(id)d, r, x, y); }",
    "X": "void k%(id)d(int x, int y) { %(e)s; put(%(id)d, 0, x, y); }",
    "S": "void k%(id)d(int x, int y) { int r; switch (%(e)s) { case 0: r = 10; break; case 3: r = 11; break; case -4: r = 12; break; default: r = 13; break; } put(%(id)d, r, x, y); }",
    "F": "void k%(id)d(int x, int y) { int r; r = 0; for (; %(e)s; ) { r = r + 1; if (r == 2) break; } put(%(id)d, r, x, y); }",
    "M": "void k%(id)d(int x, int y) { ar[8] = %(e)s; put(%(id)d, 0, x, y); }",
    "O": "void k%(id)d(int x, int y) { int r; r = 5; r += %(e)s; put(%(id)d, r, x, y); }",
    "P": "void k%(id)d(int x, int y) { put(%(id)d, %(e)s, 0, 0); }",
}


def model(ctx, n, v):
    env = mkenv(v)
    x0, y0 = v["x"], v["y"]
    if ctx in ("V", "N"):
        r = value(n, env)
    elif ctx in ("T", "E"):
        r = int(value(n, env) != 0)
    elif ctx in ("W", "F"):
        lim = 3 if ctx == "W" else 2
        r = 0
        while value(n, env) != 0:
            r += 1
            if r == lim:
                break
    elif ctx == "A":
        a = value(n, env)
        _, r = f_f(env, a)
    elif ctx == "R":
        r = value(n, env)
        env.v["x"][1], env.v["y"][1] = x0, y0
    elif ctx == "X":
        value(n, env)
        r = 0
    elif ctx == "S":
        r = {0: 10, 3: 11, -4: 12}.get(value(n, env), 13)
    elif ctx == "M":
        a = value(n, env)
        env.mem[8] = a
        r = 0
    elif ctx == "O":
        r = arith("i", 5 + value(n, env))
    elif ctx == "P":
        r = value(n, env)
        env.v["x"][1] = env.v["y"][1] = 0
    return r, env


def make_case(chk, id, ctx, n, full):
    """Returns a Case, or None when the expression is outside the alphabet
    (undefined, unspecified, unsupported in this context)."""
    if isptr(n):
        if ctx != "X" :
            return None
    if not supported(n, ctx in ("T", "E", "W", "F")):
        return None
    try:
        rd, wr = eff(n)
        if known_shape(n, ctx in ("T", "E", "W", "F")):
            return None
        if ctx == "M" and ("MEM" in wr):
            return None
        if ctx == "P" and (wr & {"ga", "gb", "cnt", "tr", "q", "MEM"}):
            pass
    except UB:
        return None
    calls, expect = [], []
    for i, v in enumerate(VALS):
        try:
            r, env = model(ctx, n, v)
        except UB:
            continue
        chk.transitions += env.steps
        chk.state((ctx, emit(n), full, i))
        calls.append("rs%d(); k%d(%d, %d);" % (i, id, v["x"], v["y"]))
        ln = line(id, r, env)
        chk.outcomes.add(ln.split(b" ", 1)[1])
        expect.append(ln)
    if not calls:
        return None
    e = emit(n, full)
    return Case(id, CTX[ctx] % {"id": id, "e": e}, calls, expect, "context %s: %s" % (ctx, CTX[ctx] % {"id": id, "e": e}))


I = lambda t, v=None: ("int", t, "i", int(t, 0) if v is None else v)
x, y, ga, gb = (("var", n) for n in ("x", "y", "ga", "gb"))
QV, AV = ("pvar", "q"), ("arr", "ar")
LEAF_E = [x, y, ga, gb, I("0"), I("1"), I("3"), I("12"), I("123456789"), I("2147483647"), I("0x1F"), I("0XaB"), I("0x0"), I("017", 15),
          I("00", 0), I("'a'", 97), I("'0'", 48), I("'\\0'", 0), I("'\\n'", 10), I("'\\''", 39), I("'\\\\'", 92), I("' '", 32), I("'_'", 95),
          I("EA", 5), I("EB", -4), I("EC", -3), ("fld", "s", "a"), ("fld", "s", "b"),
          ("idx", QV, I("0")), ("deref", QV)]
LEAF_V = [x, y, ga, gb, ("fld", "s", "a"), ("fld", "s", "b"), ("idx", QV, I("1")), ("idx", AV, I("3")), ("deref", QV), ("paren", x),
          ("paren", ("deref", QV)), ("paren", ("fld", "s", "b")), ("paren", ("idx", QV, I("2")))]
LEAF_P = [QV, AV]
PAT = [([x, I("3"), y, I("2")], [ga, x], [QV, AV]),
       ([I("2"), ga, I("1"), x], [y, ("fld", "s", "a")], [QV, QV]),
       ([gb, x, ("fld", "s", "b"), I("0x4")], [x, gb], [AV, QV])]

BINS = "+ - * / % & | ^ << >> < > <= >= == !=".split()
ASG = "= += -= *= /= %= &= |= ^= <<= >>=".split()
FULL = Alphabet(BINS, ["-", "~", "!", "+"], ASG, calls=("f",))
MID = Alphabet("+ - * / % << >> < == & | ^".split(), ["-", "!", "~"], ["=", "+=", "-=", "<<="], incdec=("++",), pincdec=("++",),
               pcmps=("==",), calls=("f", "h"))
SMALL = Alphabet("+ - * << < == & |".split(), ["-", "!"], ["=", "-="], incdec=("++",), pincdec=("++",), pcmps=("==",),
                 calls=("h",))
CALLA = Alphabet(["+"], ["!"], [], calls=("g",), incdec=(), pincdec=(), pcmps=(), ptr=False)
CALLB = Alphabet(["-"], [], [], calls=("f",), calls2=("m",), incdec=(), pincdec=(), pcmps=(), ptr=False, logic=False, cond=False)
COMMA = Alphabet(["-"], ["!"], ["="], calls=("g",), incdec=("++",), pincdec=(), pcmps=(), comma=True)
TINY = Alphabet("- << == &".split(), ["!"], ["="], incdec=("++",), pincdec=(), pcmps=(), calls=("g",))


def gen(chk):
    seen = set()
    cases = []

    def add(ctx, n, full, level=2):
        key = (ctx, emit(n, full))
        if key in seen:
            return
        seen.add(key)
        c = make_case(chk, len(cases) + 1, ctx, n, full)
        if c:
            c.ctx, c.tree, c.level = ctx, n, level
            cases.append(c)
    allctx = "VNTEWARXSFMOP"
    # every leaf and operator in every context, with three leaf patterns
    for k in (0, 1):
        for sk in FULL.gen("E", k):
            for es, vs, ps in PAT:
                for ctx in allctx:
                    add(ctx, fill(sk, es, vs, ps), False, 0)
    for sk in FULL.gen("E", 2):
        add("V", fill(sk, *PAT[0]), False, 0)
        add("T", fill(sk, *PAT[0]), False, 1)
        add("A", fill(sk, *PAT[0]), False, 1)
    # every leaf in every context, every operator with every leaf
    for k in (0, 1):
        for sk in FULL.gen("E", k):
            for n in fill_all(sk, LEAF_E if k == 0 or len(list(kids(sk))) < 2 else LEAF_E[:8] + LEAF_E[10:14] + LEAF_E[23:], LEAF_V, LEAF_P):
                for ctx in (allctx if k == 0 else "VTW"):
                    add(ctx, n, False, 1)
                if k:
                    add("V", n, True)
    for sk in FULL.gen("P", 1):
        for n in fill_all(sk, LEAF_E[:6], LEAF_V[:3], LEAF_P):
            add("X", n, False)
    # two operators, full alphabet
    for sk in FULL.gen("E", 2):
        for i, (es, vs, ps) in enumerate(PAT):
            n = fill(sk, es, vs, ps)
            for ctx in (allctx if i == 0 or not chk.quick else "VTA"):
                add(ctx, n, False)
            add("V", n, True)
            if i == 0:
                add("T", n, True)
    # calls in every position: conditional, nested, as arguments
    for k in range(2, 5 if chk.quick else 6):
        for sk in CALLA.gen("E", k):
            if has_call(sk):
                for p in (PAT[0], PAT[2]) if k < 5 else (PAT[0],):
                    n = fill(sk, *p)
                    for ctx in ("TWVE" if k < 4 else "T"):
                        add(ctx, n, False)
    for k in range(2, 5 if chk.quick else 6):
        for sk in CALLB.gen("E", k):
            n = fill(sk, *PAT[0])
            for ctx in (allctx if k < 4 else "VPR"):
                add(ctx, n, False)
    # comma operators in every position
    for k in range(1, 4 if chk.quick else 5):
        for sk in COMMA.gen("E", k):
            if any_node(sk, lambda m: m[0] == "comma"):
                for p in (PAT[0], PAT[2]) if k < 4 else (PAT[0],):
                    n = fill(sk, *p)
                    for ctx in (allctx if k < 3 else "VTW" if k < 4 else "V"):
                        add(ctx, ("paren", n) if n[0] == "comma" and ctx in "VNAOMP" else n, False, 0 if k == 1 else 2)
    # three operators, reduced alphabet
    if chk.quick:
        for sk in SMALL.gen("E", 3):
            n = fill(sk, *PAT[0])
            add("V", n, False)
            add("T", n, False)
    else:
        for sk in MID.gen("E", 3):
            for i, p in enumerate(PAT[:2]):
                n = fill(sk, *p)
                add("V", n, False)
                add("T" if i == 0 else "W", n, False)
            add("V", fill(sk, *PAT[0]), True)
        for sk in TINY.gen("E", 4):
            n = fill(sk, *PAT[0])
            add("V", n, False)
            add("T", n, False)
    return cases


def has_text(n, pred):
    return any_node(n, lambda m: m[0] == "int" and pred(m[1]))


def shell_ok(shell, c):
    """Per-shell known findings: ksh distinguishes -0 from 0, zsh keeps the base
    of hexadecimal literals in variables."""
    n = c.tree
    if shell == "zsh":
        return not has_text(n, lambda t: t.lower().startswith("0x"))
    if shell == "ksh" and c.ctx in "TEWFS":
        return not any_node(n, lambda m: m[0] == "asg" and (
            m[1] in ("*=", "/=", "%=") or any_node(m[3], lambda o: o[0] == "bin" and o[1] in "*/%")))
    return True


def main(chk):
    chk.assumptions = ["values stay in 32-bit range; expressions with undefined or unspecified C behaviour are outside the alphabet",
                       "expressions pnut rejects by design (calls in ?: arms, calls under && || outside tests) are outside the alphabet",
                       "the shapes listed in known-findings.jsonl are outside the alphabet and replayed one by one"]
    cases = gen(chk)
    chk.extra["cases"] = len(cases)
    chk.extra["rule"] = ("all expression trees with <=1 operator over every leaf kind, 2 operators over the full operator "
                         "alphabet, 3 (4 in thorough) over reduced alphabets; each in several syntactic contexts, minimal and full parentheses, 3 initial states")
    small = [c for c in cases if c.level <= 1]
    core1 = [c for c in cases if c.level == 0]
    chk.extra["cases_small"] = len(small)
    if chk.quick:
        runs = [("sh", "dash", cases), ("sh-set", "dash", small)]
        runs += [("sh", s, core1) for s in ("ksh", "bash", "mksh", "yash", "zsh")]
    else:
        runs = [(v, "dash", cases) for v in ("sh", "sh-set", "sh-release", "sh-init", "sh-compact")]
        runs += [("sh", s, cases) for s in ("ksh", "bash", "yash")] + [("sh", s, small) for s in ("mksh", "zsh")]
    runs = [r for r in runs if r[1] in SHELLS]
    build_all(sorted(set(r[0] for r in runs)))
    for variant, shell, cs in runs:
        cs = [c for c in cs if shell_ok(shell, c)]
        r = Runner(variant, shell, PRELUDE, batch=300 if len(cs) > 20000 else max(40, len(cs) // 24))
        t = time.time()
        r.check_all(cs)
        chk.traces += r.lines
        chk.extra["%s/%s" % (variant, shell)] = "%d cases, %.0f s" % (len(cs), time.time() - t)
        report(chk, r)
        if chk.violations:
            break
    for c in cases[:: max(1, len(cases) // 5)][:5]:
        chk.sample({"case": c.decl, "expected": c.expect[0].decode()})
