"""No source text makes pnut crash, hang, or leave its own memory."""
import itertools, multiprocessing, re
from concurrent.futures import ProcessPoolExecutor
import core, procs
from core import *
from batch import *
import a18, a20
from a18 import toks

PP = r'''#include "inc.h"
#define OBJ (1 + FUN(2, 3))
#define FUN(a, b) ((a) * b - OBJ2)
#define OBJ2 INC
#define VAR(x) x ## 1 #x
#define NONE() 0
#if defined OBJ && FUN(1, 1) > 0 || !defined(INC) /* c
 d */
#ifdef INC
int a1 = OBJ; // x \
 y
#elif 0x10 == 020
#error "no"
#endif
#else
#warning w
#endif
#undef OBJ
#line 3 "f"
#pragma once
#ifndef OBJ
char *t = "a\x41\101\n" "b\
c"; int c = '\'' + '\\' + __LINE__; NONE() ;
#endif
int main() { return FUN(FUN(1, 2), (3, NONE())) + a1; }
'''
INC = "#ifndef INC\n#define INC 7\nint inc(int a);\n#endif\n"


def seeds(native):
    for src in (a20.SEEDS, a18.SEEDS):
        for n, (kind, body) in src.items():
            if kind == "both" or (kind == "native") == native:
                yield n, body
    yield "pp", PP


BYTES = ["\0", "\xff", "\n", "\r", '"', "'", "\\", "#", "/", "*", " ", "0", "(", ")", "{", "}", ",", ";", "x", "%"]


def byte_edits(body, quick):
    for i in range(len(body) + 1):
        yield "cut after byte %d" % i, body[:i]
        if i < len(body):
            yield "without byte %d" % i, body[:i] + body[i + 1:]
        for b in BYTES if not quick else BYTES[:1] + BYTES[4:8]:
            yield "byte %d replaced by %r" % (i, b), body[:i] + b + body[i + 1:]
            if not quick:
                yield "%r before byte %d" % (b, i), body[:i] + b + body[i:]
                yield "%r after %d bytes, cut" % (b, i), body[:i] + b


CONTEXTS = {
    "file": ("", "\n"), "body": ("int f(int a) { ", " ; }\n"), "value": ("int v = ", ";\n"), "size": ("int v[", "];\n"), "if": ("#define N 1\n#define F(x) x\n#if ", "\n#endif\n"),
    "define": ("#define D", "\nint z; D D(1)\n"), "#": ("#", "\nint y;\n"), "args": ("#define F(x, y) x y\nF(", ")\n"), "struct": ("struct S { ", "; } s;\n"), "switch": ("int f(int a) { switch (a) { ", "; } }\n"),
    "printf": ("#include <stdio.h>\nint f(char *a) { printf(\"%d", ", a, 3); }\n"), "enum": ("enum { ", " };\n"), "expr": ("int b; int f(int a) { b = a + ", "; }\n"), "params": ("int f(", ") { return 0; }\n"),
    "init": ("int v[] = { ", " };\n"), "call": ("int f(int a) { return f(", "); }\n"), "case": ("int f(int a) { switch (a) { case ", ": ; } }\n"), "type": ("typedef int T; T ", " x;\n"), "loop": ("int f(int a) { for (", ") ; }\n"), "include": ("#include ", "\nint x;\n"),
}
WORDS = ["a", "f", "0", "1", "(", ")", "{", "}", ";", ",", "*", "=", "int", "char", "[", "]", ":", "+", "-", "&", "!", ".", "->", "++", "<<", "&&", "<", "?", "+=", "/", "#", "##", "\n", "\\\n", "\n#if", "\n#endif", "\n#define", "\"s\"", "'c'", "sizeof", "struct", "enum", "union", "typedef", "if", "else",
         "while", "do", "for", "return", "break", "switch", "case", "default", "void", "static", "const", "defined", "N", "F", "T", "-1", "99999999999", "0x", "08", "/*", "//", "'", "\"", "goto", "long", "unsigned", "...", "\"%\"", "\"%s%d%c\"", "printf", "main", "putchar", "exit", "~", "include", "undef"]


def strings(quick, n):
    for name, (pre, post) in CONTEXTS.items():
        for k in range(n + 1):
            for w in itertools.product(WORDS, repeat=k):
                t = " ".join(w)
                yield "%s: %r" % (name, t), pre + t + post
                if k <= 1:
                    yield "%s, cut: %r" % (name, t), pre + t


# A construct repeated or nested n times
LIMITS = {
    "nested parentheses": lambda n: "int v() { return %s1%s; }" % ("(" * n, ")" * n),
    "nested blocks": lambda n: "void v() { %s%s }" % ("{" * n, "}" * n),
    "nested blocks with locals": lambda n: "void v() { %s%s }" % ("{ int a; a = 1; " * n, "}" * n),
    "nested if": lambda n: "void v(int a) { %s ; }" % ("if (a) " * n),
    "if else chain": lambda n: "void v(int a) { %s ; }" % ("if (a) a = 1; else " * n),
    "nested loops": lambda n: "void v(int a) { %s ; }" % ("while (a) " * n),
    "nested switch": lambda n: "void v(int a) { %s ; %s }" % ("switch (a) { case 1: " * n, "}" * n),
    "cases": lambda n: "void v(int a) { switch (a) { %s ; } }" % " ".join("case %d:" % i for i in range(n)),
    "clauses": lambda n: "void v(int a) { switch (a) { %s } }" % " ".join("case %d: a = 1; break;" % i for i in range(n)),
    "unary": lambda n: "int v(int a) { return %s a; }" % ("- " * n),
    "not": lambda n: "int v(int a) { return %s a; }" % ("!" * n),
    "deref": lambda n: "int v(int **a) { return %s a; }" % ("*" * n),
    "sum": lambda n: "int v(int a) { return a %s; }" % ("+ a" * n),
    "and": lambda n: "int v(int a) { if (a %s) return 1; }" % ("&& a" * n),
    "conditional": lambda n: "int v(int a) { return %s a; }" % ("a ? 1 : " * n),
    "assignments": lambda n: "int v(int a) { %s 1; }" % ("a = " * n),
    "commas": lambda n: "int v(int a) { %s a; }" % ("a = 1, " * n),
    "nested calls": lambda n: "int v(int a) { return %s a %s; }" % ("v(" * n, ")" * n),
    "nested index": lambda n: "int b[9]; int v(int a) { return %s a %s; }" % ("b[" * n, "]" * n),
    "arguments": lambda n: "int w(); int v(int a) { return w(a %s); }" % (", a" * n),
    "parameters": lambda n: "int v(int a %s) { return a; }" % "".join(", int a%d" % i for i in range(n)),
    "globals": lambda n: " ".join("int a%d;" % i for i in range(n)),
    "initialized globals": lambda n: " ".join("int a%d = %d;" % (i, i) for i in range(n)),
    "locals": lambda n: "int v() { %s }" % " ".join("int a%d = 1;" % i for i in range(n)),
    "functions": lambda n: " ".join("int a%d() { return 1; }" % i for i in range(n)),
    "prototypes": lambda n: " ".join("int a%d();" % i for i in range(n)),
    "typedefs": lambda n: " ".join("typedef int a%d;" % i for i in range(n)),
    "members": lambda n: "struct S { %s };" % " ".join("int a%d;" % i for i in range(n)),
    "enumerators": lambda n: "enum { %s };" % ", ".join("a%d" % i for i in range(n + 1)),
    "structs": lambda n: " ".join("struct a%d { int b%d; };" % (i, i) for i in range(n)),
    "nested structs": lambda n: "%s int a; %s;" % ("struct { " * n, "} b; " * n),
    "initializers": lambda n: "int a[] = { 1 %s };" % (", 1" * n),
    "nested initializers": lambda n: "int a[1] = %s 1 %s;" % ("{" * n, "}" * n),
    "declarators": lambda n: "int b %s;" % "".join(", a%d" % i for i in range(n)),
    "pointers": lambda n: "int %s a;" % ("*" * n),
    "nested declarator": lambda n: "int %s a %s;" % ("(" * n, ")" * n),
    "dimensions": lambda n: "int a%s;" % ("[1]" * n),
    "array size": lambda n: "int a[%d]; char b[%d];" % (n, n * 997),
    "identifier": lambda n: "int %s;" % ("a" * n),
    "used identifier": lambda n: "int %s() { int l%s; l%s = %s(); return l%s; }" % (("a" * n,) * 5),
    "string": lambda n: "char *a = \"%s\";" % ("s" * n),
    "local string": lambda n: "void v() { char *a; a = \"%s\"; }" % ("s" * n),
    "escapes": lambda n: "char *a = \"%s\";" % ("\\n\\x41" * n),
    "concatenation": lambda n: "char *a = %s;" % ("\"s\"" * (n + 1)),
    "strings": lambda n: "void v() { char *a; %s }" % " ".join("a = \"s%d\";" % i for i in range(n)),
    "number": lambda n: "int a = %s;" % ("1" * n),
    "zeros": lambda n: "int a = %s1;" % ("0" * n),
    "comment": lambda n: "int a; /* %s */" % ("*" * n),
    "line comment": lambda n: "int a; // %s\nint b;" % ("/" * n),
    "newlines": lambda n: "\n" * n + "int a;",
    "continuations": lambda n: "\\\n" * n + "int a;",
    "blanks": lambda n: "int" + " " * n + "a;",
    "#if nesting": lambda n: "#if 1\n" * n + "int a;\n" + "#endif\n" * n,
    "skipped #if nesting": lambda n: "#if 0\n" * n + "int a;\n" + "#endif\n" * n,
    "#else nesting": lambda n: "#if 0\n#else\n" * n + "int a;\n" + "#endif\n" * n,
    "open #if": lambda n: "#if 1\n" * n,
    "#elif chain": lambda n: "#if 0\n" + "#elif 0\n" * n + "#endif\nint a;",
    "#if parentheses": lambda n: "#if %s1%s\nint a;\n#endif\n" % ("(" * n, ")" * n),
    "#if operators": lambda n: "#if 1 %s\nint a;\n#endif\n" % ("&& 1" * n),
    "macro body": lambda n: "#define M %s\nint a = 0 M;" % ("+ 1 " * n),
    "macro parameters": lambda n: "#define M(a %s) 1\nint a = M(0 %s);" % ("".join(", a%d" % i for i in range(n)), ", 0" * n),
    "macro arguments": lambda n: "#define M(a) 1\nint a = M(0 %s);" % (", 0" * n),
    "argument length": lambda n: "#define M(a) a a\nint a = M(0 %s);" % ("+ 1" * n),
    "macros": lambda n: "\n".join("#define M%d %d" % (i, i) for i in range(n + 1)) + "\nint a = M0;",
    "chain of macros": lambda n: "#define M0 1\n" + "\n".join("#define M%d M%d" % (i + 1, i) for i in range(n)) + "\nint a = M%d;" % n,
    "chain of function-like macros": lambda n: "#define M0(x) x\n" + "\n".join("#define M%d(x) M%d(x)" % (i + 1, i) for i in range(n)) + "\nint a = M%d(1);" % n,
    "nested macro calls": lambda n: "#define M(x) x\nint a = %s1%s;" % ("M(" * n, ")" * n),
    "parentheses in argument": lambda n: "#define M(x) x\nint a = M(%s1%s);" % ("(" * n, ")" * n),
    "pasted": lambda n: "#define C(a, b) a ## b\nint C(%s, b);" % ("a" * n),
    "stringified": lambda n: "#define C(a) #a\nchar *a = C(%s);" % ("a" * n),
    "labels": lambda n: "int v() { %s ; }" % " ".join("a%d:" % i for i in range(n)),
    "printf format": lambda n: "#include <stdio.h>\nint v() { printf(\"%s\" %s); }" % ("%d" * n, ", 1" * n),
    "printf text": lambda n: "#include <stdio.h>\nint v() { printf(\"%s\"); }" % ("text\\n" * n),
    "closing braces": lambda n: "}" * n,
    "closing parentheses": lambda n: "int a; " + ")" * n,
    "statements": lambda n: "int b; int v() { %s }" % ("b = b + 1; " * n),
    "breaks": lambda n: "int v() { while (1) { %s } }" % ("break; " * n),
    "returns": lambda n: "int v() { %s }" % ("return 1; " * n),
}
SIZES_Q = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 19, 20, 21, 31, 32, 33, 59, 60, 61, 62, 100, 127, 128, 129, 180, 181, 255, 256, 257, 500, 1000, 2000]
SIZES_T = [4095, 4096, 4097, 9999, 20000, 65535, 65536, 65537, 100000]
# Nesting to these depths uses the stack of the compiler in proportion
FLAT = re.compile("^(cases|clauses|arguments|parameters|globals|init|locals|functions|prototypes|typedefs|members|enumerators|structs|declarators|array size|identifier|used id|string|local string|escapes|conc|number|zeros|comment|line comment|newlines|cont|blanks|macros$|labels|printf|closing|statements|breaks|returns|macro body|argument length|macro par|macro arg|pasted|#elif)")


def items(native, quick, stage):
    """(description, text) of one stage."""
    if stage == "edits":
        for n, body in seeds(native):
            for i, t in enumerate(tok_edits(body, native)):
                yield "%s, token edit %d" % (n, i), t
    elif stage == "bytes":
        for n, body in seeds(native):
            for d, t in byte_edits(body, quick):
                yield "%s, %s" % (n, d), t
    elif stage == "strings":
        yield from strings(quick, 2 if quick else 3)
    else:
        for n, f in LIMITS.items():
            for k in SIZES_Q + (SIZES_T if not quick and FLAT.match(n) else []):
                yield "%d x %s" % (k, n), f(k)


def tok_edits(body, native):
    ts = toks(body)
    real = [i for i, t in enumerate(ts) if t.strip()]
    alpha = a20.ALPHA + (a20.NATIVE if native else []) + ["\n", "#", "defined", "\n#endif\n", "sizeof"]
    seen = set()
    for k, i in enumerate(real):
        l = [ts[:i] + ts[i + 1:], ts[:i] + [ts[i], " "] + ts[i:], ts[:i], ts[:i + 1]]
        if k + 1 < len(real):
            j = real[k + 1]
            l.append(ts[:i] + [" ", ts[j]] + ts[i + 1:j] + [ts[i], " "] + ts[j + 1:])
        for a in alpha:
            l.append(ts[:i] + [" ", a, " "] + ts[i + 1:])
            l.append(ts[:i] + [" ", a, " "] + ts[i:])
        for x in l:
            t = "".join(x)
            if t not in seen:
                seen.add(t)
                yield t


def part(job):
    exe, native, quick, stage, i, n, limit = job
    d = os.path.join(SCRATCH, "rb%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o755)
    with open(d + "/inc.h", "w") as f:
        f.write(INC)
    res = {"texts": 0, "accepted": 0, "rejected": 0}
    bad = []
    for k, (desc, t) in enumerate(items(native, quick, stage)):
        if k % n != i:
            continue
        with open(d + "/p.c", "wb") as f:
            f.write(t.encode("latin1"))
        r = procs.run_fast([exe, "p.c"], b"", limit, d)
        res["texts"] += 1
        if r[0] == 0:
            res["accepted"] += 1
        elif r[0] is not None and r[0] in (1, 255) and r[1] + r[2]:
            res["rejected"] += 1
        if r[0] is None or r[0] < 0 or r[0] not in (0, 1, 255) or r[0] and not r[1] + r[2]:
            bad.append((stage, desc, t, r[0], r[1][-200:], r[2][-1500:]))
    return res, bad


TRAP = ("-fsanitize=bounds-strict,null,alignment,object-size", "-fsanitize-undefined-trap-on-error")
ASAN = ("-g", "-fsanitize=address,bounds-strict,null,alignment,object-size", "-fno-sanitize-recover=all")


def plan(chk):
    """(variant, flags, stage, every n-th text)"""
    q = chk.quick
    for v in ("sh", "x86_64") if q else ("sh", "x86_64", "i386", "sh-release", "x86_64-safe", "sh-safe"):
        full = v in ("sh", "x86_64")
        for stage, step, astep in (("limits", 1, 1 if not q else 7), ("strings", 5 if q else 1 if full else 5, 503 if q else 20), ("bytes", 7 if q else 1 if full else 5, 701 if q else 30), ("edits", 31 if q else 1 if full else 10, 2003 if q else 60)):
            yield v, TRAP, stage, step
            if full:
                yield v, ASAN, stage, astep


def main(chk):
    q = chk.quick
    chk.assumptions = ["addresses of undefined behaviour sanitizers: accesses outside an object, null pointers; arithmetic overflow of constants is not counted",
                       "nesting up to 2000 levels: deeper nesting exhausts the stack of the compiler"]
    procs.build_runner()
    pl = list(plan(chk))
    pmap(lambda x: build(x[0], x[1]), sorted({(v, f) for v, f, *_ in pl}))
    jobs = []
    for v, flags, stage, step in pl:
        n = 16 if q else 64
        jobs += [(build(v, flags), is_native(v), q, stage, i * step, n * step, 10 if stage != "limits" else 60) for i in range(n)]
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    shown = {}
    names = {build(v, f): "%s/%s" % (v, "asan" if f is ASAN else "trap") for v, f, *_ in pl}
    for j, (r, bad) in zip(jobs, res):
        name = names[j[0]]
        for k, x in r.items():
            chk.extra["%s %s" % (j[3], k)] = chk.extra.get("%s %s" % (j[3], k), 0) + x
        chk.traces += r["texts"]
        chk.nstates += r["texts"]
        chk.transitions += r["accepted"] + r["rejected"]
        for stage, desc, t, rc, out, err in bad:
            m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: .{0,60})", err.decode("latin1"))
            key = (name, stage, m and m.group(1))
            shown[key] = shown.get(key, 0) + 1
            if shown[key] > 3:
                continue
            what = "does not end" if rc is None else "ends with signal %d" % -rc if rc < 0 else "status %d %s" % (rc, "without message" if not out + err else "")
            chk.violation("[%s] pnut %s on: %s" % (name, what, desc), "output: %r\nerrors: %s" % (out, err.decode("latin1")[:1000]), {"p.c": t.encode("latin1") if not isinstance(t, bytes) else t})
    chk.sample(list(itertools.islice(strings(q, 2), 5000, 5001))[0][1])
