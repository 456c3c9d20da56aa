"""The runtime library of the scripts: every sequence of features brings along exactly
what it needs; arguments and exit status."""
import itertools, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import core, procs
from core import *
from batch import *

IN = b"hello world\nsecond line\n"
# name: (globals, body of int f@(int k), result as a function of position and characters read, output)
F = {
    "chr": ("", "int c; c = 'a' + k; if (c == 'b') return 'z' - 'x'; return c - '`';", lambda i, r: 2 if i == 1 else i + 1, ""),
    "str": ("", "char *p; p = \"a~b@\"; return p[1] - p[0] + p[4];", lambda i, r: 126 - 97, ""),
    "esc": ("", "char *p; p = \"\\n\\t\\\\\\\"'$`\"; return p[0] * 2 + p[2] + p[5];", lambda i, r: 20 + 92 + 36, ""),
    "long": ("", "char *p; int n; n = 0; p = \"" + "0123456789" * 30 + "@\"; while (p[n]) n += 1; return n + p[299];", lambda i, r: 301 + 57, ""),
    "arr": ("int g@[3];", "g@[2] = k; g@[0] = 4; return g@[0] + g@[2];", lambda i, r: 4 + i, ""),
    "arr=": ("int g@[3] = { 5, 6, 7 };", "g@[1] += k; return g@[0] * g@[1];", lambda i, r: 5 * (6 + i), ""),
    "chars": ("char g@[] = \"x@z\";", "return g@[2] - g@[0] + g@[3];", lambda i, r: 2, ""),
    "glob": ("int g@ = 3; char *h@ = \"q\";", "g@ += k; return g@ + h@[0];", lambda i, r: 3 + i + 113, ""),
    "malloc": ("", "int *p; p = malloc(3 * sizeof(int)); p[0] = k; p[2] = 9; return p[0] + p[2];", lambda i, r: 9 + i, ""),
    "free": ("", "int *p; int *q; p = malloc(2); q = malloc(2); q[1] = 6; p[0] = 1; free(p); return q[1] + k;", lambda i, r: 6 + i, ""),
    "putchar": ("", "putchar('p'); putchar('\\n'); return 1;", lambda i, r: 1, "p\n"),
    "putvar": ("", "int c; c = 64 + k; putchar(c); return 2;", lambda i, r: 2, "{c}"),
    "getchar": ("", "int c; c = getchar(); c += getchar(); return c;", lambda i, r: r() + r(), ""),
    "getline": ("", "int n; n = 0; while (getchar() != '\\n') n += 1; return n;", "line", ""),
    "print": ("", "printf(\"text @ %%\\n\"); return 3;", lambda i, r: 3, "text @ %\n"),
    "printd": ("", "printf(\"%d-%x %c|\", k, 255, 'c'); return 4;", lambda i, r: 4, "@-ff c|"),
    "prints": ("", "char *p; p = \"in it\"; printf(\"<%s>\\n\", p); printf(\"%s\", \"lit\"); return 5;", lambda i, r: 5, "<in it>\nlit"),
    "printdyn": ("", "char *p; p = \"%d+%s.\"; printf(p, k, \"dy\"); return 6;", lambda i, r: 6, "@+dy."),
    "write": ("", "char *p; p = \"wr@\"; write(1, p, 3); return 7;", lambda i, r: 7, "wr@"),
    "fgetc": ("", "int *f; int c; f = fopen(\"in\", \"r\"); c = fgetc(f) * 2 + fgetc(f); return c;", lambda i, r: 104 * 2 + 101, ""),
    "fclose": ("", "int *f; int n; f = fopen(\"in\", \"r\"); n = 0; while (fgetc(f) != -1) n += 1; fclose(f); return n;", lambda i, r: 24, ""),
    "read": ("", "int d; int n; char *b; b = malloc(9); d = open(\"in\", 0); n = read(d, b, 8); close(d); return n * 10 + b[7];", lambda i, r: 80 + 111, ""),
    "creat": ("", "int d; d = open(\"out@\", 1); write(d, \"data@\\n\", 6); close(d); return 8;", lambda i, r: 8, ""),
    "local": ("int two@(int a, int b) { int c; c = a * b; { int d; d = c + 1; c = d; } return c; }", "int k2; k2 = two@(k, 3); return k2 + two@(k2, 2);", lambda i, r: (i * 3 + 1) + ((i * 3 + 1) * 2 + 1), ""),
    "rec": ("int down@(int a) { if (a == 0) return 0; return a + down@(a - 1); }", "return down@(k + 3);", lambda i, r: (i + 3) * (i + 4) // 2, ""),
    "struct": ("struct S@ { int a@; struct S@ *n@; };", "struct S@ *x; x = malloc(sizeof(struct S@)); x->n@ = x; x->n@->a@ = k; return x->a@;", lambda i, r: i, ""),
    "exit": ("", "if (k > 50) exit(9); return 11;", lambda i, r: 11, ""),
    "switch": ("", "int c; c = 'a' + k; switch (c) { case 'b': return 1; case 'c': case 'd': return 2; default: return 0; }", lambda i, r: 1 if i == 1 else 2, ""),
}
MAINS = ["int main()", "int main(int argc, char **argv)", "void main()"]
LAST = {"exit!": 1}


def expand(seq, main, args, order):
    """Program, stdout, status."""
    pos = [0]

    def rd():
        pos[0] += 1
        return IN[pos[0] - 1]
    glob, fns, calls, out, v = [], [], [], "", 0
    for i, n in enumerate(seq, 1):
        g, b, res, o = F[n]
        g, b = g.replace("@", str(i)), b.replace("@", str(i))
        if g:
            glob.append(g)
        fns.append("int f%d(int k) { %s }" % (i, b))
        calls.append("r = (r * 3 + f%d(%d)) & 127;" % (i, i))
        if res == "line":
            e = IN.index(b"\n", pos[0]) if b"\n" in IN[pos[0]:] else None
            x = e - pos[0]
            pos[0] = e + 1
        else:
            x = res(i, rd)
        v = (v * 3 + x) & 127
        out += o.replace("{c}", chr(64 + i)).replace("@", str(i))
    tail = "return r;"
    if main == 1:
        calls.append("r = (r + argc * 5) & 127;")
        v = (v + (len(args) + 1) * 5) & 127
        for k, a in enumerate(args, 1):
            calls.append("{ int n; n = 0; while (argv[%d][n]) { r = (r + argv[%d][n]) & 127; n += 1; } r += n & 7; }" % (k, k))
            v = ((v + sum(a.encode("latin1"))) & 127) + (len(a.encode("latin1")) & 7)
    if main == 2:
        tail = "exit(r);"
    m = "%s { int r; r = 0; %s %s }" % (MAINS[main], " ".join(calls), tail)
    protos = ["int f%d(int k);" % (i + 1) for i in range(len(seq))]
    parts = glob + fns + [m] if order == 0 else protos + [m] + glob + fns if order == 1 and not glob else [x for i, f in enumerate(fns) for x in (f,)] [::-1] and protos + glob + fns[::-1] + [m]
    return "#include <stdio.h>\n#include <stdlib.h>\n" + "\n".join(parts) + "\n", out.encode(), v


def part(job):
    plan, exe, variant, shell = job
    d = fresh_dir("rt")
    os.chmod(d, 0o777)
    with open(d + "/in", "wb") as f:
        f.write(IN)
    bad, n = [], 0
    for seq, main, args, order in plan:
        text, out, st = expand(seq, main, args, order)
        with open(d + "/p.c", "w") as f:
            f.write(text)
        r = procs.run_fast([exe, "p.c"], b"", 10, d)
        if r[0] != 0:
            bad.append((seq, main, args, text, out, st, "rejected: %r" % r[1][-150:]))
            continue
        with open(d + "/p.out", "wb") as f:
            f.write(r[1])
        o = procs.run_fast([SHELLS[shell], d + "/p.out", *args], IN, 20, d)
        n += 1
        files = {}
        for i, x in enumerate(seq, 1):
            if x == "creat":
                p = d + "/out%d" % i
                files[i] = open(p, "rb").read() if os.path.exists(p) else None
                if os.path.exists(p):
                    os.unlink(p)
        if o != (st, out, b"") or any(c != b"data%d\n" % i for i, c in files.items()):
            bad.append((seq, main, args, text, out, st, "observed %r %r" % (o, files)))
    return n, bad


ARGS = ["", "a", "a b", "*", "$x", "\\n", "'\"`", "-n", "x" * 300, "\t", "\u00e9", "-"]


def main(chk):
    q = chk.quick
    chk.assumptions = ["files named in and out* of a scratch directory; arguments of printable characters, tabs and Latin-1 text"]
    procs.build_runner()
    keys = list(F)
    ok = lambda s: s.count("getline") <= 2 and not ("getchar" in s and s.count("getline") > 1 and s.index("getchar") > 99)
    one = [(k,) for k in keys]
    two = [x for x in itertools.product(keys, repeat=2) if ok(x)]
    three = [x for x in (itertools.combinations(keys, 3) if q else itertools.product(keys, repeat=3)) if ok(x)]
    argl = [a for n in range(3) for a in itertools.product(ARGS, repeat=n)]
    base = [(s, 0, (), 0) for s in [()] + one + two + three] + [(s, m, (), o) for s in one + two for m, o in ((1, 0), (2, 1), (0, 2))]
    args = [(s, 1, a, 0) for a in argl for s in ((), ("str",))] + [((), 1, tuple("a%d" % k for k in range(n)), 0) for n in range(3, 15)]
    small = [(s, m, (), o) for s in one for m, o in ((0, 0), (1, 0), (2, 1), (0, 2))]
    pairs = [(s, 0, (), 0) for s in two]
    runs = [("sh", "dash", base + args)] + [("sh", s, small + args[: 60 if q else None]) for s in SHELLS if s != "dash"] + [("sh-release", "bash", small + pairs[::1 if not q else 3]), ("sh-compact", "dash", small + pairs), ("sh-set", "dash", small), ("sh-init", "ksh", small)]
    if not q:
        runs += [("sh", s, pairs) for s in SHELLS if s != "dash"] + [("sh-release", "dash", base), ("sh-init", "dash", base), ("sh-compact", "dash", base)]
    jobs = []
    build_all(sorted({v for v, *_ in runs}))
    for v, sh, p in runs:
        if sh not in SHELLS:
            continue
        if sh == "yash":
            p = [x for x in p if not any(ord(c) > 127 for a in x[2] for c in a)]
        chk.transitions += sum(len(x[0]) + len(x[2]) + 1 for x in p)
        for x in p:
            chk.state(x)
        jobs += [(p[i::24], build(v), v, sh) for i in range(24)]
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    shown = {}
    for j, (n, bad) in zip(jobs, res):
        chk.traces += n
        name = "%s/%s" % (j[2], j[3])
        chk.extra[name] = chk.extra.get(name, 0) + n
        for seq, m, a, text, out, st, o in bad:
            shown[name] = shown.get(name, 0) + 1
            if shown[name] <= 2:
                chk.violation("[%s] features %s, %s, arguments %r" % (name, ", ".join(seq), MAINS[m], a), "expected status %d, output %r\n%s" % (st, out, o), {"p.c": text})
    chk.sample(expand(("arr", "printd", "fgetc"), 1, ("a b",), 0)[0])
