"""Sizes: programs that are the same but for one size, for every size around the powers of
two (and ten, and where shells and names change form); argc, argv and exit status of executables."""
import multiprocessing
from concurrent.futures import ProcessPoolExecutor
import procs
from core import *

NIO = """
int putchar(int c);
void pd(int v) { if (v < 0) { putchar('-'); if (v < -9) pd(0 - v / 10); v = 0 - v % 10; if (v < 0) v = 0 - v; } else if (v > 9) pd(v / 10); putchar('0' + v % 10); }
void pn(int v) { pd(v); putchar(10); }
"""
SIO = '#include <stdio.h>\nvoid pn(int v) { printf("%d\\n", v); }\n'


def sizes(full, top, q, step=2):
    """Every size to full, and around powers of two and ten to top."""
    out = set(range(0, full + 1))
    p = 1
    while p <= top:
        out |= {p + d for d in range(-step, step + 1)}
        p *= 2
    p = 1
    while p <= top:
        out |= {p + d for d in range(-step, step + 1)}
        p *= 10
    return sorted(x for x in out if 0 <= x <= top)


def nums(l):
    return "".join("%d\n" % x for x in l)


# Each dimension: n -> (declarations and main, expected output)
def globals_before(n):
    "a global array of n + 1 characters between other globals"
    return ("int a; char pad[%d]; int b; char c; int t[3];\nint main() { a = 5; b = 7; c = 'x'; t[0] = 1; t[1] = 0; t[2] = 3; pad[0] = 1; pad[%d] = 9; pn(a); pn(b); pn(c); pn(t[0] + t[1] + t[2]); pn(pad[%d]); pad[%d] = -1; pn(a); pn(b); return 0; }" % (n + 1, n, n, n),
            nums([5, 7, 120, 4, 9 if n else 9, 5, 7]))


def local_pad(n):
    "n + 1 characters among the locals"
    return ("int f(int x) { int a = x; char pad[%d]; int b = x + 1; char c = 3; pad[0] = 1; pad[%d] = 2; { int d = a + b + c; if (x > 0) { int e = f(x - 1); return e * 2 + d + pad[%d]; } return d + pad[%d]; } }\nint main() { pn(f(0)); pn(f(3)); return 0; }" % (n + 1, n, n, n),
            nums(_lp()))


def _lp():
    def f(x):
        d = x + x + 1 + 3
        return f(x - 1) * 2 + d + 2 if x > 0 else d + 2
    return [f(0), f(3)]


def member_pad(n):
    "a struct member behind n + 1 characters"
    return ("struct S { int a; char pad[%d]; int b; }; struct S g; struct S h[2];\nint main() { struct S l; struct S *p = h + 1; l.b = 4; l.a = 3; l.pad[%d] = 5; g = l; h[0] = g; p->a = 8; p->b = 9; p->pad[0] = 6; pn(g.a); pn(g.b); pn(g.pad[%d]); pn(h[0].b); pn(p->a); pn(h[1].b); pn(p->pad[0]); pn((int) sizeof(struct S)); return 0; }" % (n + 1, n, n),
            nums([3, 4, 5, 4, 8, 9, 6, 4 + (n + 4) // 4 * 4 + 4]))


def params(n):
    "n + 1 parameters"
    ps = ["p%d" % i for i in range(n + 1)]
    s = " + ".join("%s * %d" % (p, i + 1) for i, p in enumerate(ps))
    return ("int f(%s) { int l; l = %s; if (p0 > 90) return l; return l + f(%s); }\nint main() { pn(f(%s)); return 0; }" % (
        ", ".join("int " + p for p in ps), s, ", ".join(["p0 + 90"] + ps[1:][::-1]), ", ".join(str(i + 1) for i in range(n + 1))),
        nums([sum((i + 1) ** 2 for i in range(n + 1)) + sum((i + 1) * x for i, x in enumerate([91] + list(range(2, n + 2))[::-1]))]))


def locals_(n):
    "n + 1 locals"
    ls = ["l%d" % i for i in range(n + 1)]
    return ("int f(int x) { %s %s if (x > 0) l0 = l0 + f(x - 1); return %s; }\nint main() { pn(f(0)); pn(f(1)); return 0; }" % (
        " ".join("int %s;" % l for l in ls), " ".join("%s = x + %d;" % (l, i) for i, l in enumerate(ls)), " + ".join(ls)),
        nums([sum(range(n + 1)), sum(i + 1 for i in range(n + 1)) + sum(range(n + 1))]))


def jump(n):
    "jumps over n statements"
    b = "x = x + 1; " * n
    return ("int x; int main() { int i; for (i = 0; i < 3; i = i + 1) { if (i == 1) { %s } else { x = x + 2; } } pn(x); while (x > 0) { %s x = 0 - x; } pn(x); i = x < 0 && x != 5 ? 3 : 4; do { %s i = i - 1; if (i == 1) break; } while (i); pn(x); return 0; }" % (b, b, b),
            nums(_jump(n)))


def _jump(n):
    x = 4 + n
    o = [x]
    while x > 0:
        x = -(x + n)
    o.append(x)
    i = 3 if x < 0 else 4
    while True:
        x += n
        i -= 1
        if i == 1 or not i:
            break
    return o + [x]


def cases(n):
    "switches of n + 1 cases"
    return ("int f(int x) { switch (x) { %s default: return 77; } return 0; }\nint main() { int i; int s = 0; for (i = -2; i < %d; i = i + 1) { s = (s * 3 + f(i)) %% 9973; } pn(s); return 0; }" % (
        " ".join("case %d: return %d;" % (i, i * 7 % 50) for i in range(n + 1)), n + 3), nums([_cases(n)]))


def _cases(n):
    s = 0
    for i in range(-2, n + 3):
        s = (s * 3 + (i * 7 % 50 if 0 <= i <= n else 77)) % 9973
    return s


def functions(n):
    "n + 1 functions"
    return ("%s\nint main() { pn(f%d(1)); return 0; }" % ("\n".join(["int f0(int x) { return x + 1; }"] + ["int f%d(int x) { return f%d(x) + %d; }" % (i, i - 1, i % 3) for i in range(1, n + 1)]), n),
            nums([2 + sum(i % 3 for i in range(1, n + 1))]))


def calls(n):
    "an expression with n + 1 calls"
    return ("int g; int f(int x) { g = (g * 3 + x) % 9973; return x * 2; }\nint main() { int r; r = " + " + ".join("f(%d) * %d" % (i, i % 5) for i in range(n + 1)) + "; pn(r); return 0; }",
            nums([sum(i * 2 * (i % 5) for i in range(n + 1))]))


def strings(n):
    "n + 1 string literals"
    names = ["".join(chr(97 + (i // 26 ** k) % 26) for k in range(3)) for i in range(n + 1)]
    return ("int s; void f(char *p) { int i = 0; while (p[i] != 0) { s = (s * 7 + p[i]) % 9973; i = i + 1; } }\nint main() { " + " ".join('f("%s");' % x for x in names) + " pn(s); return 0; }", nums([_h("".join(names))]))


def _h(t):
    s = 0
    for c in t:
        s = (s * 7 + ord(c)) % 9973
    return s


def literal(n):
    "a string literal of n characters"
    t = "".join(chr(97 + i * 7 % 26) for i in range(n))
    return ('char *g = "%s"; int s; int f(char *p) { int i = 0; s = 0; while (p[i] != 0) { s = (s * 7 + p[i]) %% 9973; i = i + 1; } return i; }\nint main() { pn(f(g)); pn(s); pn(f("%sx")); pn(s); return 0; }' % (t, t),
            nums([n, _h(t), n + 1, _h(t + "x")]))


def chars(n):
    "n + 1 different character literals"
    ok = [c for c in range(32, 127) if chr(c) not in "'\\"] * 3
    return ("int main() { int s = 0; " + " ".join("s = (s * 7 + '%s') %% 9973;" % chr(ok[i]) for i in range(n + 1)) + " pn(s); return 0; }", nums([_h("".join(chr(ok[i]) for i in range(n + 1)))]))


def depth(n):
    "an expression of depth n"
    e, v = "x", 3
    for i in range(n):
        if i % 2:
            e, v = "(%d - %s)" % (i, e), i - v
        else:
            e, v = "(%s + %d)" % (e, i), v + i
    return "int main() { int x; int y; x = 3; y = %s; pn(y); return 0; }" % e, nums([v])


def blocks(n):
    "n nested blocks, each with a local"
    t = "s = s * 2 + x;"
    for i in range(n, 0, -1):
        t = "{ int v%d; v%d = x + %d; if (v%d > 0) { %s } s = s + v%d; }" % (i, i, i, i, t, i)
    s = 2
    for i in range(n, 0, -1):
        s += 2 + i
    return "int s; int main() { int x; x = 2; s = 0; %s pn(s); return 0; }" % t, nums([s])


def loops(n):
    "n nested loops"
    t = "s = s + 1;"
    for i in range(n, 0, -1):
        t = "for (i%d = 0; i%d < %d; i%d = i%d + 1) { %s }" % (i, i, 2 if i < 7 else 1, i, i, t)
    return "int s; int main() { %s s = 0; %s pn(s); return 0; }" % (" ".join("int i%d;" % i for i in range(1, n + 1)), t), nums([2 ** min(n, 6)])


def recursion(n):
    "recursion of depth n"
    return "int f(int n, int a) { int l; if (n == 0) return a; l = f(n - 1, a + n %% 3); return l + 1; }\nint main() { pn(f(%d, 2)); return 0; }" % n, nums([2 + sum(i % 3 for i in range(1, n + 1)) + n])


def elements(n):
    "an initializer of n + 1 elements"
    v = [(i * 37 + 11) % 1000 for i in range(n + 1)]
    return ("int b = 3; int t[%d] = { %s }; int a = 4;\nint main() { int i; int s = 0; for (i = 0; i < %d; i = i + 1) { s = (s * 7 + t[i]) %% 9973; } pn(s); pn(t[%d]); pn(a + b); return 0; }" % (
        n + 1, ", ".join(map(str, v)), n + 1, n), nums([_hn(v), v[n], 7]))


def _hn(v):
    s = 0
    for x in v:
        s = (s * 7 + x) % 9973
    return s


def enumerators(n):
    "n + 1 enumerators"
    return "enum { " + ", ".join("E%d" % i + (" = %d" % (i * 3) if i % 10 == 4 else "") for i in range(n + 1)) + " };\nint main() { pn(E%d); pn(E0); pn(E%d + 1); return 0; }" % (n, n // 2), nums([_en(n), 0, _en(n // 2) + 1])


def _en(n):
    v = -1
    for i in range(n + 1):
        v = i * 3 if i % 10 == 4 else v + 1
    return v


def members(n):
    "a struct of n + 1 members"
    return ("struct S { " + " ".join("int m%d;" % i for i in range(n + 1)) + " };\nint main() { struct S *p = malloc(sizeof(struct S)); int s = 0; " + " ".join("p->m%d = %d;" % (i, i * i % 97) for i in range(n + 1)) +
            " ".join("s = (s * 7 + p->m%d) %% 9973;" % i for i in range(n + 1)) + " pn(s); return 0; }", nums([_hn([i * i % 97 for i in range(n + 1)])]))


def objects(n):
    "n + 1 objects on the heap"
    return ("int **t; int main() { int i; int k; int s = 0; t = malloc(%d * sizeof(int *)); for (i = 0; i < %d; i = i + 1) { t[i] = malloc((i %% 5 + 1) * sizeof(int)); for (k = 0; k <= i %% 5; k = k + 1) { t[i][k] = i + k; } }"
            " for (i = 0; i < %d; i = i + 1) { for (k = 0; k <= i %% 5; k = k + 1) { s = (s * 7 + t[i][k]) %% 9973; } } pn(s); return 0; }" % (n + 1, n + 1, n + 1), nums([_hn([i + k for i in range(n + 1) for k in range(i % 5 + 1)])]))


def heap(n):
    "objects of n + 1 characters"
    return ("char *a; char *b; char *c; int main() { int i; a = malloc(%d); b = malloc(%d); c = malloc(1); for (i = 0; i <= %d; i = i + %d) { a[i] = 'a'; b[i] = 'b'; } c[0] = 'c'; a[%d] = 'x'; b[%d] = 'y'; pn(a[0]); pn(a[%d]); pn(b[0]); pn(b[%d]); pn(c[0]); return 0; }"
            % (n + 1, n + 1, n, max(1, n // 7), n, n, n, n), nums([97 if n else 120, 120, 98 if n else 121, 121, 99]))


def names(n):
    "names of n + 1 characters that differ at the end"
    p = "abcdefghijklmnopqrstuvwxyz0123456789_" * (n // 37 + 1)
    v = "v" + p[:n]
    return "int %sA; int %sB; int %sf(int %sp) { return %sp + 1; }\nint main() { int %sl = 4; %sA = 1; %sB = 2; pn(%sA); pn(%sB); pn(%sf(%sl)); return 0; }" % ((v,) * 12), nums([1, 2, 5])


def digits(n):
    "values of n bits"
    x = (1 << min(n, 31)) - 1
    return "int g = %d; int main() { int a; int b; a = %d; b = 0 - a; pn(g); pn(a); pn(b); pn(b + a); pn(a - 1); return 0; }" % (x, x), nums([x, x, -x, 0, x - 1])


def elseifs(n):
    "n + 1 else ifs"
    return "int f(int x) { %s else { return 5; } }\nint main() { int i; int s = 0; for (i = 0; i < %d; i = i + 1) { s = (s * 7 + f(i)) %% 9973; } pn(s); return 0; }" % (
        " else ".join("if (x == %d) { return %d; }" % (i, i + 3) for i in range(n + 1)), n + 3), nums([_hn([i + 3 for i in range(n + 1)] + [5, 5])])


def logical(n):
    "n + 1 operands of && and ||"
    return "int g; int f(int x) { g = g + 1; return x; }\nint main() { int x = 1; int r = 0; if (%s) { r = 1; } pn(r); pn(g); if (%s) { r = 2; } pn(r); pn(g); return 0; }" % (
        " && ".join("f(%d)" % (i + 1) for i in range(n + 1)), " || ".join("f(%d)" % (i == n) for i in range(n + 1))), nums([1, n + 1, 2, 2 * n + 2])


def comments(n):
    "n characters between tokens"
    return "int/*%s*/x;\nint main() {%sx = 3;%spn(x); //%s\n return 0; }" % ("c" * n, " " * n, "\n" * n, "d" * n), nums([3])


# dimension -> native: (every n to, top, top in thorough), shell: the same or None
D = {
    globals_before: ((300, 1 << 20, 1 << 23), (40, 600, 2000)), local_pad: ((300, 1 << 16, 1 << 18), None), member_pad: ((300, 1 << 16, 1 << 20), None),
    params: ((40, 260, 600), (24, 130, 260)), locals_: ((140, 520, 2050), (30, 130, 260)), jump: ((140, 2060, 2060), (30, 260, 520)), cases: ((140, 1030, 4100), (40, 260, 520)),
    functions: ((140, 1030, 2050), (60, 260, 520)), calls: ((70, 520, 1030), (40, 130, 130)), strings: ((100, 1030, 2050), (100, 1030, 2050)), literal: ((300, 10002, 1 << 16), (300, 2050, 10002)),
    chars: ((95, 260, 260), (95, 260, 260)), depth: ((130, 260, 1030), (70, 130, 260)), blocks: ((40, 130, 260), (30, 66, 130)), loops: ((16, 33, 66), (10, 16, 16)),
    recursion: ((100, 1 << 16, 1 << 17), (70, 130, 260)), elements: ((300, 4100, 10002), (120, 520, 2050)), enumerators: ((100, 2050, 4100), (60, 520, 1030)), members: ((130, 1030, 2050), (40, 260, 520)),
    objects: ((100, 10002, 1 << 16), (30, 260, 520)), heap: ((300, 1 << 20, 1 << 24), (40, 520, 2050)), names: ((300, 2050, 10002), (140, 1030, 2050)), digits: ((31, 31, 31), (31, 31, 31)),
    elseifs: ((70, 260, 520), (50, 130, 260)), logical: ((70, 260, 520), (40, 130, 260)), comments: ((300, 10002, 1 << 17), (300, 2050, 1 << 16)),
}
# the shells' own limits
CAP = {"yash": {recursion: 130}, "ksh": {recursion: 130, depth: 60}, "zsh": {recursion: 130}, "mksh": {}}


def part(job):
    fn, ns, exe, variant, shell = job
    d = fresh_dir("sz")
    os.chmod(d, 0o777)
    bad = []
    native = is_native(variant)
    for n in ns:
        text, want = fn(n)
        text = ("void *malloc(int n);\n" if "malloc" in text and native else "#include <stdlib.h>\n" if "malloc" in text else "") + (NIO if native else SIO) + text + "\n"
        with open(d + "/p.c", "w") as f:
            f.write(text)
        r = procs.run_fast([exe, "p.c"], b"", 60, d)
        if r[0] != 0:
            bad.append((n, text, want, "rejected: %r" % (r[1][-150:] + r[2][-150:],)))
            continue
        with open(d + "/p.out", "wb") as f:
            f.write(r[1])
        os.chmod(d + "/p.out", 0o755)
        cmd = ([] if native else [SHELLS[shell]]) + [d + "/p.out"]
        o = procs.run_fast(cmd, b"", 60, d)
        if o != (0, want.encode(), b""):
            o = procs.run_fast(cmd, b"", 300, d)
        if o != (0, want.encode(), b""):
            bad.append((n, text, want, "observed rc=%r %r %r" % (o[0], o[1][:300], o[2][-200:])))
    return len(ns), bad


ARGS = ["", "a", "a b", "-x", "\t\n", "x" * 300, "\xe9", "=", "%s", "*"]
AMAIN = ("int main(int argc, char **argv) { int i; int k; int a = 3; int s[4]; s[0] = argc; s[3] = 7; %s pn(argc); for (i = 1; i < argc; i = i + 1) { k = 0; while (argv[i][k] != 0) { pn(argv[i][k]); k = k + 1; } pn(0 - 1 - k); }"
         " if (argv[argc] == 0) pn(a); pn(s[0] + s[3]); return %d; }")


def apart(job):
    items, exe, variant = job
    d = fresh_dir("ar")
    os.chmod(d, 0o777)
    bad = []
    last = None
    for pad, st, form, args in items:
        if last != (pad, st, form):
            last = (pad, st, form)
            t = AMAIN % ("", st)
            if form == 1:
                t = t.replace("char **argv", "char *argv[]")
            if form == 2:
                t = "int use(int argc, char **argv)" + t[t.index(" {"):] + "\nint main(int argc, char **argv) { return use(argc, argv); }"
            if form == 3:
                t = t.replace("return %d; }" % st, "exit(%d); return 99; }" % st)
            text = "void exit(int n);\n" + NIO + "char pad_[%d]; int gz;\n" % (pad + 1) + t + "\n"
            with open(d + "/p.c", "w") as f:
                f.write(text)
            r = procs.run_fast([exe, "p.c"], b"", 20, d)
            if r[0] == 0:
                with open(d + "/p.out", "wb") as f:
                    f.write(r[1])
                os.chmod(d + "/p.out", 0o755)
        if r[0] != 0:
            bad.append(((pad, st, form, args), text, "", "rejected: %r" % (r[1][-150:],)))
            continue
        want = nums([len(args) + 1] + [x for a in args for x in [(b - 256 if b > 127 else b) for b in a.encode("latin1")] + [-1 - len(a)]] + [3, len(args) + 8])
        o = procs.run_fast([d + "/p.out"] + list(args), b"", 20, d)
        if o != (st & 255, want.encode(), b""):
            bad.append(((pad, st, form, args), text, want, "observed rc=%r %r %r" % (o[0], o[1][:300], o[2][-200:])))
    return len(items), bad


def main(chk):
    import itertools
    q = chk.quick
    chk.assumptions = ["sizes are below the limits of pnut's tables (MAX_CODE_SIZE and others) and of the shells (depth of recursion)"]
    procs.build_runner()
    vs = [("i386", None), ("x86_64", None), ("sh", "dash")] + [("sh", s) for s in ("bash", "ksh", "mksh", "yash", "zsh")]
    vs = [(v, s) for v, s in vs if not s or s in SHELLS]
    exes = {v: build(v) for v in {v for v, _ in vs}}
    jobs = []
    for fn, (nat, shl) in D.items():
        for v, s in vs:
            b = nat if is_native(v) else shl
            if not b:
                continue
            ns = sizes(b[0], b[1] if q else b[2], q, 2 if q else 4)
            if s and s != "dash":
                ns = [n for n in ns if n <= (min(700, CAP.get(s, {}).get(fn, 700)) if not q else min(70, CAP.get(s, {}).get(fn, 70)))]
                ns = ns[::3] if q else ns
            if q and is_native(v):
                ns = [n for n in ns if n <= 70 or n % 2 == 0 or n not in range(70, b[0] - 2)] if v == "x86_64" else ns[::2]
            for n in ns:
                chk.state((fn.__name__, n))
                chk.transitions += 1
            k = max(1, len(ns) // 40)
            jobs += [(fn, ns[i::k], exes[v], v, s) for i in range(k)]
    shown = {}
    argl = [tuple(a) for n in range(3) for a in itertools.product(ARGS, repeat=n)] + [("y",) * n for n in range(3, 40)] + [tuple("a" * k for k in range(n)) for n in range(3, 12)]
    items = [(p, 0, f, a) for p in (0, 3, 100) for f in range(4) for a in (argl if p == 0 else argl[:12])] + [(0, st, f, ()) for f in (0, 2, 3) for st in list(range(256)) + [256, 257, 511]]
    items += [(p, 0, 0, ("ab",)) for p in sizes(140, 1 << 20, q)]
    items.sort(key=lambda x: x[:3])
    for it in items:
        chk.state(it)
        chk.transitions += 1
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
        ajobs = [(items[i * len(items) // 16:(i + 1) * len(items) // 16], exes[v], v) for v in ("i386", "x86_64") for i in range(16)]
        ares = list(ex.map(apart, ajobs))
    for (fn, ns, exe, v, s), (n, bad) in zip(jobs, res):
        chk.traces += n
        for k, text, want, o in bad:
            shown[fn] = shown.get(fn, 0) + 1
            if shown[fn] <= 3:
                chk.violation("[%s%s] %s, n = %d" % (v, "/" + s if s else "", fn.__doc__, k), "expected %r\n%s" % (want[:300], o), {"p.c": text})
    for (its, exe, v), (n, bad) in zip(ajobs, ares):
        chk.traces += n
        for k, text, want, o in bad:
            shown["args"] = shown.get("args", 0) + 1
            if shown["args"] <= 3:
                chk.violation("[%s] arguments and status %r" % (v, k), "expected status %d, output %r\n%s" % (k[1] & 255, want[:300], o), {"p.c": text})
    chk.extra["dimensions"] = len(D)
    chk.extra["programs"] = sum(len(j[1]) for j in jobs)
    for fn in list(D)[::7]:
        chk.sample("%s: %s" % (fn.__doc__, fn(2)[0][:200]))
