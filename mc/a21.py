"""Initialization of objects in the scripts: every sequence of declarations of globals
(and locals) with every kind of initializer, in one program each."""
import itertools, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import core, procs
from core import *
from batch import *

IO = r'''int putchar(int c);
void pd(int x) { if (x > 9) pd(x / 10); putchar('0' + x % 10); }
void s(int x) { if (x < 0) { putchar('-'); x = 0 - x; } pd(x); putchar(' '); }
void ss(char *p) { while (*p) { putchar(*p); p = p + 1; } putchar(' '); }
'''

# name: (declaration of the i-th object, reads with initialized value, reads that rely on zero initialization)
F = {
    "int": ("int v@;", [], ["0:v@"]),
    "int=": ("int v@ = 7;", ["7:v@"], []),
    "int-": ("int v@ = -7 - @;", ["-7-@:v@"], []),
    "hex": ("int v@ = 0x7f;", ["127:v@"], []),
    "chr": ("char v@ = 'q';", ["113:v@"], []),
    "enum": ("enum { A@, B@ = 6 + @, C@ }; int v@ = C@;", ["7+@:v@"], []),
    "str": ("char *v@ = \"s@\";", ["s@:$v@", "115:v@[0]", "0:v@[2]"], []),
    "same": ("char *v@ = \"same\";", ["same:$v@"], []),
    "empty": ("char *v@ = \"\";", ["0:*v@"], []),
    "null": ("int *v@ = 0;", ["1:v@ == 0"], []),
    "ptr": ("int *v@;", [], ["1:v@ == 0"]),
    "arr": ("int v@[3];", [], ["0:v@[0]", "0:v@[2]"]),
    "arr=": ("int v@[3] = { 4, @, 6 };", ["4:v@[0]", "@:v@[1]", "6:v@[2]"], []),
    "arr1": ("int v@[4] = { 7 };", ["7:v@[0]"], ["0:v@[1]", "0:v@[3]"]),
    "one": ("int v@[1] = { @ };", ["@:v@[0]"], []),
    "one?": ("char *v@[] = { \"ab\" };", ["ab:$v@[0]"], []),
    "arr<": ("int v@[4] = { 4, 5 };", ["4:v@[0]", "5:v@[1]"], ["0:v@[2]", "0:v@[3]"]),
    "arr?": ("int v@[] = { 'x', 0x10, 010 };", ["120:v@[0]", "16:v@[1]", "8:v@[2]"], []),
    "arrs": ("char *v@[2] = { \"ab\", \"same\" };", ["ab:$v@[0]", "same:$v@[1]"], []),
    "chars": ("char v@[] = \"h@y\";", ["h@y:$v@", "0:v@[3]"], []),
    "chars<": ("char v@[6] = \"abc\";", ["abc:$v@", "0:v@[3]"], ["0:v@[4]", "0:v@[5]"]),
    "chars0": ("char v@[3];", [], ["0:v@[0]", "0:v@[2]"]),
    "two": ("int v@ = 1, w@, x@ = 3;", ["1:v@", "3:x@"], ["0:w@"]),
    "twoarr": ("int v@[2], w@ = 5, x@[2] = { 8, 9 };", ["5:w@", "9:x@[1]"], ["0:v@[1]"]),
    "struct": ("struct S@ { int a@; int b@; }; struct S@ *v@;", [], ["1:v@ == 0"]),
    "fun": ("int v@() { int l = 3; char *m = \"m@\"; ss(m); return l + @; }", ["m@ 3+@:v@()"], []),
    "fun2": ("int v@(int k) { int l = k, m = l + 1; { int n = m * 2; l = n; } return l; }", ["10:v@(4)"], []),
    "use": ("int v@; int g@() { v@ = 4; return v@ * 2; }", ["8:g@()"], []),
}


def expand(seq, zero, pos):
    """Program text and expected output."""
    decls, reads, exp = [], [], []
    for i, k in enumerate(seq, 1):
        d, a, z = F[k]
        decls.append(d.replace("@", str(i)))
        for r in a + (z if zero else []):
            e, _, x = r.replace("@", str(i)).partition(":")
            if x.startswith("$"):
                reads.append("ss(%s);" % x[1:])
                exp.append(e)
            else:
                reads.append("s(%s);" % x)
                w = e.split(" ")
                exp += w[:-1] + [str(eval(w[-1]))]
        # reading does not change anything, and writing changes only the object
        if k in ("int", "int=", "arr", "arr=", "chars0", "int-") and (zero or "=" in k or k == "int-"):
            t = "v%d" % i + ("[1]" if k[:3] in ("arr", "cha") else "")
            reads.append("%s = %s + 100; s(%s);" % (t, t, t))
            v = {"int": 0, "int=": 7, "int-": -7 - i, "arr": 0, "arr=": i, "chars0": 0}[k]
            exp.append(str(v + 100))
    main = "int main() { %s %s return 0; }" % (" ".join(reads), " ".join(reads[::-1][:0]))
    io = [IO + "\n".join(decls) + "\n" + main + "\n", IO.split("\n", 1)[0] + "\n" + "\n".join(decls) + "\n" + IO.split("\n", 1)[1] + main + "\n"][pos]
    if pos and any(k == "fun" for k in seq):
        io = "void ss(char *p);\n" + io
    return io, "".join(e + " " for e in exp).encode()


def part(job):
    plan, exe, variant, shell, zero = job
    d = fresh_dir("in")
    os.chmod(d, 0o777)
    bad, n = [], 0
    for seq, pos in plan:
        text, exp = expand(seq, zero, pos)
        with open(d + "/p.c", "w") as f:
            f.write(text)
        r = procs.run_fast([exe, "p.c"], b"", 10, d)
        if r[0] != 0:
            bad.append((seq, text, exp, "rejected: %r" % r[1][-150:]))
            continue
        with open(d + "/p.out", "wb") as f:
            f.write(r[1])
        os.chmod(d + "/p.out", 0o755)
        cmd = [d + "/p.out"] if is_native(variant) else [SHELLS[shell], d + "/p.out"]
        o = procs.run_fast(cmd, b"", 20, d)
        n += 1
        if o[:2] != (0, exp):
            bad.append((seq, text, exp, "observed %r" % (o,)))
    return n, bad


def main(chk):
    q = chk.quick
    chk.assumptions = ["scripts of pnut built with RT_NO_INIT_GLOBALS leave objects without initializer unset: there only what has an initializer is read", "negative numbers and expressions in initializer lists are not supported by pnut-sh (rejected)"]
    procs.build_runner()
    keys = list(F)
    seqs = [x for n in (1, 2, 3) for x in itertools.product(keys, repeat=n)]
    small = [x for x in seqs if len(x) < 3]
    runs = [("sh", "dash", False, seqs if not q else seqs[::1]), ("sh-init", "dash", True, seqs), ("sh-release", "bash", False, small), ("x86_64", None, True, small)]
    if not q:
        runs += [("sh-init", s, True, small + seqs[::5]) for s in SHELLS if s != "dash"] + [("sh-compact", "dash", False, seqs), ("sh-set", "dash", False, seqs), ("i386", None, True, seqs), ("x86_64", None, True, seqs)]
    jobs, info = [], []
    build_all(sorted({v for v, *_ in runs}))
    for v, sh, zero, ss in runs:
        if sh and sh not in SHELLS:
            continue
        p = [(x, pos) for x in ss for pos in ((0, 1) if len(x) < 3 else (0,))]
        chk.transitions += sum(len(x) for x, _ in p)
        jobs += [(p[i::24], build(v), v, sh, zero) for i in range(24)]
    for x in seqs:
        chk.state(x)
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    shown = {}
    for j, (n, bad) in zip(jobs, res):
        chk.traces += n
        name = "%s/%s" % (j[2], j[3] or "native")
        chk.extra[name] = chk.extra.get(name, 0) + n
        for seq, text, exp, o in bad:
            shown[name] = shown.get(name, 0) + 1
            if shown[name] <= 2:
                chk.violation("[%s] globals %s" % (name, ", ".join(seq)), "expected %r\n%s" % (exp, o), {"p.c": text})
    chk.sample(expand(("arr", "arr=", "two"), True, 0)[0].split("\n", 4)[4])
