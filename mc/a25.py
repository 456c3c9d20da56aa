"""Integer literals: every spelling of every value near a power of two, every short
spelling, every suffix, in every kind of place, translated by compilers that were
themselves built in different ways."""
import itertools, multiprocessing, re, struct
from concurrent.futures import ProcessPoolExecutor
import core, procs
from core import *
from a18 import c_built, pnut_built

I, U, LL, ULL = (32, 1), (32, 0), (64, 1), (64, 0)  # long is as wide as int
SUF = re.compile(r"(?:([uU])(ll|LL|l|L)?|(ll|LL|l|L)([uU])?)?$")


def parse(s):
    """(value, type) of a C integer literal, None if it is not one."""
    m = re.match(r"(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)(.*)$", s)
    if not m or not SUF.match(m.group(2)):
        return None
    d, suf = m.group(1), m.group(2).lower()
    base = 16 if d[:2] in ("0x", "0X") else 8 if d[0] == "0" else 10
    v = int(d[2:] if base == 16 else d, base)
    cands = [t for t in (I, U, LL, ULL)]
    if "ll" in suf:
        cands = [LL, ULL]
    if "u" in suf:
        cands = [t for t in cands if not t[1]]
    elif base == 10:
        cands = [t for t in cands if t[1]]
    for t in cands:
        if v < 1 << (t[0] - t[1]):
            return v, t
    return None


SUFFIXES = [a + b for a in ("u", "U") for b in ("", "l", "L", "ll", "LL")] + [b + a for b in ("l", "L", "ll", "LL") for a in ("", "u", "U")]


def spellings(v):
    h, H = "%x" % v, "%X" % v
    return list(dict.fromkeys(["%d" % v, "0%o" % v, "0x" + h, "0X" + H, "0x" + H, "0X" + h, "000%o" % v, "0x00" + h]))


def values(lim, delta):
    out = set()
    for k in range(65):
        for d in range(-delta, delta + 1):
            out.add((1 << k) + d)
    for k in range(1, 20):
        for d in range(-2, 3):
            out.add(10 ** k + d)
    for w in (0x12345678, 0xdeadbeef, 0x123456789abcdef, 0xfedcba9876543210, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 0xffff0000ffff, 0xffff0000ffff0000):
        out |= {w, w >> 16, w & 0xffffffff}
    return sorted(v for v in out if 0 <= v < lim)


def shorts(n, alpha):
    """Every literal of at most n characters over the alphabet."""
    for k in range(1, n + 1):
        for t in itertools.product(alpha, repeat=k):
            s = "".join(t)
            if s[0] in "0123456789" and parse(s):
                yield s


def conv(v, t):
    v &= (1 << t[0]) - 1
    return v - (1 << t[0]) if t[1] and v >> (t[0] - 1) else v


# name: (declaration at file level, statement, value, in which kinds of backend)
def arith(f):
    return lambda v, t: conv(f(v), t)


CTX = {
    "argument": ("", "o(@);", lambda v, t: v),
    "assignment": ("", "g = @; o(g);", lambda v, t: v),
    "global": ("T g#=@;", "o(g#);", lambda v, t: v),
    "element": ("T g#[3] = { 1, @, 2 };", "o(g#[1]); o(g#[2]);", lambda v, t: (v, 2)),
    "local": ("", "{ T x=@; o(x); }", lambda v, t: v),
    "return": ("T f#() { return @; }", "o(f#());", lambda v, t: v),
    "sum": ("", "g = 1; o(g+@-g);", lambda v, t: v),
    "equal": ("", "g = @; o(g==@);", lambda v, t: 1),
    "enumerator": ("enum { E# = @ };", "o(E#);", lambda v, t: v if v < 1 << 31 else None),
    "case": ("int f#(int x) { switch (x) { case @: return 5; default: return 6; } }", "o(f#(@)); o(f#(@-1));", lambda v, t: (5, 6) if v < 1 << 31 and t == I else None),
    "size": ("char g#[@];", "o(sizeof(g#));", lambda v, t: v if 0 < v <= 1000 else None),
    "if": ("#if @ == %d && @ > %e\n#define M# 3\n#else\n#define M# 4\n#endif", "o(M#);", lambda v, t: 3 if 0 < v < 1 << 31 else None),
    "macro": ("#define M# @\n", "o(M#);", lambda v, t: v),
    "index": ("char g#[1001];", "g#[@] = 7; o(g#[@]); o(&g#[@] - g#);", lambda v, t: (7, v) if v <= 1000 else None),
    # these tell the type
    "negated": ("", "o(-@);", arith(lambda v: -v)),
    "inverted": ("", "o(~@);", arith(lambda v: ~v)),
    "below": ("", "o(@ - @ - 1 < 0);", lambda v, t: t[1]),
    "width": ("", "o(sizeof(@));", lambda v, t: t[0] // 8),
}
SH_CTX = ("argument", "assignment", "global", "element", "local", "return", "sum", "equal", "enumerator", "case", "if", "macro", "index", "negated", "inverted")
SH_IO = r'''int putchar(int c);
void pd(int x) { if (x > 9) pd(x / 10); putchar('0' + x % 10); }
void o(int x) { if (x < 0) { putchar('-'); if (x < -2147483647) { pd(214748364); putchar('8'); putchar(10); return; } x = 0 - x; } pd(x); putchar(10); }
int g;
'''
NAT_IO = r'''typedef %s T;
T g;
char b_[%d]; int n_;
void o(T v) { int i; for (i = 0; i < %d; i++) { b_[n_] = (char) (v & 255); n_++; v >>= 8; } }
'''


def program(cases, kind):
    """Text and list of expected values; kind is sh, 32 or 64."""
    decls, stmts, exp = [], [], []
    for n, (s, c) in enumerate(cases):
        v, t = parse(s)
        d, st, f = CTX[c]
        r = f(v, t)
        for x in (r if isinstance(r, tuple) else (r,)):
            exp.append(x)
        if kind == "sh":
            d, st = d.replace("T ", "int "), st.replace("T ", "int ")
            if c == "index":
                d, st = d, st.replace(" o(&g#[@] - g#);", " o(&g#[@] == g# + @);")
                exp[-1] = 1
        sub = lambda x: x.replace("@", s).replace("#", str(n)).replace("%d", str(v)).replace("%e", str(v - 1))
        if d.startswith("#"):
            d = d.replace("M#", "M%d" % n).replace("@", s).replace("%d", str(v)).replace("%e", str(v - 1))
        decls.append(d if d.startswith("#") else sub(d))
        stmts.append(sub(st))
    body, fs = "", []
    for i in range(0, len(stmts), 60):
        fs.append("void h%d() { %s }\n" % (i, "\n".join(stmts[i:i + 60])))
    io = SH_IO if kind == "sh" else NAT_IO % (("unsigned long long" if kind == 64 else "unsigned int"), len(exp) * kind // 8, kind // 8)
    out = "" if kind == "sh" else " write(1, b_, n_);"
    text = io + "\n".join(x for x in decls if x) + "\n" + "".join(fs) + "int main() { %s%s return 0; }\n" % (" ".join("h%d();" % i for i in range(0, len(stmts), 60)), out)
    return text, exp


def expected(exp, kind):
    if kind == "sh":
        return b"".join(b"%d\n" % x for x in exp)
    m = (1 << kind) - 1
    return b"".join(struct.pack("<Q" if kind == 64 else "<I", x & m) for x in exp)


def part(job):
    name, cmd, runner, kind, cases, batch, timeout = job
    d = fresh_dir("lit")
    os.chmod(d, 0o777)
    bad, n = [], 0

    def go(cs):
        text, exp = program(cs, kind)
        with open(d + "/p.c", "w") as f:
            f.write(text)
        r = procs.run_fast(cmd + ["p.c"], b"", timeout, d)
        if r[0] != 0:
            return text, exp, "rejected with status %r: %r" % (r[0], r[1][-200:])
        with open(d + "/p.out", "wb") as f:
            f.write(r[1])
        os.chmod(d + "/p.out", 0o755)
        o = procs.run_fast(runner + [d + "/p.out"], b"", timeout, d)
        w = expected(exp, kind)
        if o[:2] == (0, w):
            return None
        return text, exp, "expected %r, observed %r %r" % (w[:200], o[0], o[1][:200])

    for i in range(0, len(cases), batch):
        cs = cases[i:i + batch]
        n += len(cs)
        if go(cs) is None:
            continue
        # the cases that fail alone
        while len(cs) > 1:
            for h in (cs[:len(cs) // 2], cs[len(cs) // 2:]):
                if go(h) is not None:
                    cs = h
                    break
            else:
                break
        r = go(cs)
        if r is not None:
            bad.append((cs, r))
        if len(bad) >= 4:
            break
    return n, bad


def main(chk):
    q = chk.quick
    chk.assumptions = ["spellings that are not integer literals of C (08, 1lul, 0x, values that fit in no type) have no value and are not part of the space",
                       "long is as wide as int; pnut-sh supports no suffixes and 32 bit values"]
    procs.build_runner()
    build_all(["sh", "x86_64", "i386"])
    d = fresh_dir("comps")
    os.chmod(d, 0o755)
    comps = []
    for gen, kind in (("x86_64", 64), ("i386", 32), ("sh", "sh")):
        runner = [SHELLS["dash"]] if kind == "sh" else []
        by_c = c_built(gen, "gcc", d)
        comps.append((gen, by_c, runner, kind, False))
        if gen == "i386":
            x = c_built("x86_64", "gcc", d)
            two, err = pnut_built(gen, x, "x86_64", "x86_64", d)
            comps.append((gen + " built by pnut for x86_64", two, runner, kind, False))
            continue
        two, err = pnut_built(gen, c_built("x86_64", "gcc", d), "x86_64", "x86_64", d)
        comps.append((gen + " built by pnut for x86_64", two, runner, kind, False))
        two, err = pnut_built(gen, c_built("i386", "gcc", d), "i386", "i386", d)
        comps.append((gen + " built by pnut for i386", two, runner, kind, False))
        for shell in ("dash",) if q else tuple(SHELLS):
            if shell in SHELLS:
                two, err = pnut_built(gen, c_built("sh", "gcc", d), "sh", "sh-" + shell, d, shell)
                comps.append((gen + " run by " + shell, two, runner, kind, True))
    delta = 3 if q else 10
    alpha = "01789afxXuUlL"
    length = 4 if q else 5
    jobs = []
    few = values(1 << 64, 1)
    for name, cmd, runner, kind, script in comps:
        lim = {64: 1 << 64, 32: 1 << 32, "sh": 1 << 31}[kind]
        plain = [s for v in values(lim, delta if not script else 1) for s in spellings(v)]
        ctxs = SH_CTX if kind == "sh" else CTX
        if script and q:
            plan = [(s, "argument") for s in plain] + [(s, c) for s in plain[::17] for c in ctxs]
        else:
            plan = [(s, c) for s in plain for c in ctxs]
        if kind != "sh":
            vs = values(lim, 1) if not script else [v for k in (0, 31, 32, 63, 64) for v in ((1 << k) - 1, 1 << k) if v < lim]
            plan += [(s + x, c) for v in vs for s in spellings(v)[:4] for x in SUFFIXES for c in (("argument",) if script else ("argument", "negated", "below", "width"))]
        if not script:
            plan += [(s, "argument") for s in shorts(length, alpha) if kind != "sh" or s[-1] not in "uUlL"]
        cases = []
        for s, c in dict.fromkeys(plan):
            p = parse(s)
            if p is None or p[0] >= lim or kind == 32 and p[1][0] > 32 or CTX[c][2](*p) is None or deviates(s, p[0], p[1], c, kind):
                continue
            cases.append((s, c))
            chk.state((kind, s, c))
        chk.extra[name] = len(cases)
        k = 100 if script else 400
        n = max(1, min(16, len(cases) // k))
        jobs += [(name, cmd, runner, kind, cases[i::n], k, 300 if script else 60) for i in range(n)]
    jobs.sort(key=lambda j: "run by" not in j[0])
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    shown = {}
    for j, (n, bad) in zip(jobs, res):
        chk.traces += n
        chk.transitions += n
        for cs, (text, exp, o) in bad:
            shown[j[0]] = shown.get(j[0], 0) + 1
            if shown[j[0]] <= 3:
                chk.violation("[%s] literal %s as %s" % (j[0], cs[0][0], cs[0][1]) + (" (and %d more)" % (len(cs) - 1) if len(cs) > 1 else ""),
                              "%s" % o, {"p.c": text})
    chk.sample("0xfedcba9876543210UlL as argument")


def deviates(s, v, t, c, kind):
    return False
