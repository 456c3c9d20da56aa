"""Shell code in C programs: #include_shell brings files in as they are; functions written in shell
are called from C and call C, and strings go both ways."""
import itertools, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import procs
from core import *

# text of an included file that does something when the script starts: (text, output)
TEXTS = {
    "echo": ("printf 'loaded\\n'", "loaded\n"),
    "quotes": None,
    "here": ("while IFS= read -r ___l; do printf '%s\\n' \"$___l\"; done <<'END'\n$x \"q\" \\ 'a' `b` # c\n\ttab // no comment /* nor here */\nEND", "$x \"q\" \\ 'a' `b` # c\n\ttab // no comment /* nor here */\n"),
    "continued": ("printf '%s-%s\\n' a \\\n  b", "a-b\n"),
    "directives": ("#define echo no\n#include <stdio.h>\n#if 0\nprintf 'kept\\n'\n#endif", "kept\n"),
    "if": ("if true; then\n  printf y\nelse\n  printf n\nfi", "y"),
    "long": ("printf '%s\\n' " + "x" * 700, "x" * 700 + "\n"),
    "blank": ("\n\n  # comment 'with quote\n\n:", ""),
    "macro": ("printf '%s ' NAME __LINE__ LATER", "NAME __LINE__ LATER "),
    "args": ("printf '%s:' \"$#\"", "0:"),
    "empty": ("", ""),
    "subst": ("___v=$(printf 'a b')\nprintf '[%s]' \"$___v\" ${#___v}", "[a b][3]"),
    "case": ("case a in\n  [a-c]) printf in ;;\n  *) printf out ;;\nesac", "in"),
    "percent": ("printf '%%d %%s\\\\\\n'", "%d %s\\\n"),
}
TEXTS["quotes"] = ("printf '%s\\n' 'a\\nb' \"c'd\"", "a\\nb\nc'd\n")

LIB = r"""
_f0() { : $(($1 = 7)); }
_f1() { : $(($1 = $2 * 2)); }
_f2() { : $(($1 = $2 * 10 + $3)); }
_f4() { : $(($1 = $2 * 1000 + $3 * 100 + $4 * 10 + $5)); }
_log() { printf 'log %s\n' "$2"; }
_logr() { printf 'log %s\n' "$2"; : $(($1 = $2 + 1)); }
_count() { : $(($1 = $# - 1)); }
_mul() { : $(($1 = $2 * $3)); }
_slen() { pack_string $2; : $(($1 = ${#__res})); }
_show() { pack_string $2; printf '<%s>' "$__res"; }
_greet() { unpack_string $1 "hi there"; }
_back() { pack_string $2; unpack_string $1 "$__res"; }
_cat2() { pack_string $2; ___a=$__res; pack_string $3; unpack_string $1 "$___a+$__res"; }
_out() { : $((_$2 = 41)); : $((_$(($2 + 1)) = $3)); }
_addg() { : $((_g += $2)); : $(($1 = _g)); }
_call() { _inc $1 $2; _inc $1 $(($1)); }
_callv() { _twice ___t $2; : $(($1 = ___t + 1)); }
pack_string() { __res=$(_put_pstr __ $1); }
"""
CDEF = """
int g; int a[4]; int *gp; int after;
int inc(int x) { return x + 1; }
int twice(int x) { int y = x * 2; return y; }
int down(int n) { if (n == 0) return 0; return f2(0, n) + down(n - 1); }
int fact(int n) { if (n < 2) return 1; return mul(n, fact(n - 1)); }
void putn(char *s) { int i; for (i = 0; s[i] != 0; i++) printf("%d ", s[i]); printf("/%d ", i); }
"""
# name: (C statements, output)
CALLS = {
    "statement": ("f2(1, 2); log(5);", "log 5\n"),
    "value": ("x = f2(1, 2); printf(\"%d \", x);", "12 "),
    "none": ("printf(\"%d \", f0());", "7 "),
    "four": ("printf(\"%d \", f4(1, 2, x - x + 3, f1(2)));", "1234 "),
    "nested": ("printf(\"%d \", f2(f2(1, 2), f1(f1(3))));", "132 "),
    "operands": ("x = 3; printf(\"%d \", f1(x) + f2(x, f0()) * f0());", "265 "),
    "if": ("if (f1(0)) printf(\"y\"); else printf(\"n\"); if (f1(1) == 2) printf(\"y\"); else printf(\"n\");", "ny"),
    "elseif": ("if (f1(0)) printf(\"a\"); else if (f1(3) > 5) printf(\"b\"); else printf(\"c\");", "b"),
    "while": ("x = 0; while (f1(x) < 5) { printf(\"w\"); x++; }", "www"),
    "for": ("for (x = f1(1); x < f0(); x += f1(1)) printf(\"%d\", x);", "246"),
    "switch": ("switch (f1(2)) { case 3: printf(\"3\"); break; case 4: printf(\"4\"); break; }", "4"),
    "index": ("a[f1(1)] = f1(4); printf(\"%d \", a[2]);", "8 "),
    "logic": ("if (f1(0) || f1(1) && f0() == 7) printf(\"t\"); if (!f1(0)) printf(\"u\");", "tu"),
    "order": ("x = logr(1); x = logr(x); printf(\"%d \", x);", "log 1\nlog 2\n3 "),
    "count": ("printf(\"%d%d%d \", count(), count(1), count(1, 2, 3));", "013 "),
    "recursion": ("printf(\"%d %d \", down(4), fact(5));", "10 120 "),
    "string": ("printf(\"%d \", slen(\"four\") + slen(\"\")); show(\"a b\\\\c*?$x`\\\"'\");", "4 <a b\\c*?$x`\"'>"),
    "newline": ("show(\"two\\nlines\");", "<two\nlines>"),
    "result": ("printf(\"%s|\", greet());", "hi there|"),
    "both": ("printf(\"%s|\", back(\"x*y [a-z] ~\"));", "x*y [a-z] ~|"),
    "two": ("printf(\"%s|\", cat2(greet(), cat2(\"b\", \"\")));", "hi there+b+|"),
    "pointer": ("gp = malloc(3); out(gp, 6); printf(\"%d %d \", gp[0], *(gp + 1)); out(a, 9); printf(\"%d %d \", a[0], a[1]);", "41 6 41 9 "),
    "global": ("g = 5; x = addg(3); printf(\"%d %d \", g, x);", "8 8 "),
    "callback": ("x = 20; printf(\"%d %d %d \", call(3), callv(4), x);", "5 9 20 "),
    "locals": ("y = 5; x = 6; f2(8, 9); printf(\"%d %d %d \", callv(y), y, x);", "11 5 6 "),
}


def strings(q):
    """Texts of all lengths and with all characters, at both ends and within."""
    out = [bytes(33 + (i * 7 + n) % 94 for i in range(n)) for n in list(range(0, 36)) + [63, 64, 65, 127, 128, 255, 256, 257, 300, 511, 512, 513, 600]]
    for c in range(1, 128):
        out += [bytes([c]), bytes([97, c, 98]), bytes([c, c]), bytes([98, 99, c]), bytes([c, 100])]
        if not q:
            out += [b"0123456789abcde" + bytes([c]), b"0123456789abcdef" + bytes([c]), bytes([c]) * 17]
    for c, d in itertools.product(b"\\*?[]$`\"'\n ~#%-!", repeat=2):
        out.append(bytes([c, d]))
    return list(dict.fromkeys(out))


def octal(s):
    return "".join("\\%03o" % c for c in s)


class Job:
    def __init__(self, files, main, out, name):
        self.files, self.main, self.out, self.name = files, main, out, name


def jobs(q):
    res = []
    # calls: every kind alone and every ordered pair
    ks = list(CALLS)
    prog = lambda body: '#include <stdio.h>\n#include <stdlib.h>\n#include_shell "lib.sh"\n' + CDEF + "int main() { int x; int y; x = 0; y = 0; " + body + " return 0; }\n"
    for k in ks:
        res.append(Job({"lib.sh": LIB}, prog(CALLS[k][0]), CALLS[k][1], k))
    for j, (a, b) in enumerate(itertools.product(ks, ks)):
        res.append(Job({"lib.sh": LIB}, prog(CALLS[a][0] + " " + CALLS[b][0] + " printf(\"%d\", 1);"), CALLS[a][1] + CALLS[b][1] + "1", a + "," + b))
    # texts: every pair, with and without a newline at the end, in one file or two, in places
    ts = list(TEXTS)
    hello = "int main() { printf(\"main\\n\"); return 0; }\n"
    for a, b in itertools.product(ts, ts):
        x, y = TEXTS[a], TEXTS[b]
        o = x[1] + y[1]
        j = ts.index(a) + ts.index(b)
        res.append(Job({"lib.sh": x[0] + "\n" + y[0]}, '#include_shell "lib.sh"\n' + hello, o + "main\n", "file " + a + "," + b))
        lay = j % 5
        head = '#define NAME no\n'
        if lay == 0:
            f, m = {"l1.sh": x[0], "l2.sh": y[0]}, head + '#include_shell "l1.sh"\nint z = 3;\n#include_shell "l2.sh"\n' + hello
        elif lay == 1:
            f, m = {"d/l1.sh": x[0], "d/l2.sh": y[0] + "\n", "d/h.h": '#include_shell "l1.sh"\nint z;\n'}, '#include "d/h.h"\n#include_shell "d/l2.sh"\n' + hello
        elif lay == 2:
            f, m = {"l1.sh": x[0], "l2.sh": y[0]}, '#if 1\n#include_shell "l1.sh"\n#else\n#include_shell "l2.sh"\n#include_shell "missing.sh"\n#endif\n#ifdef NOT\n#include_shell "missing.sh"\n#endif\n#include_shell "l2.sh"\n' + hello
        elif lay == 3:
            f, m = {"l1.sh": x[0], "l2.sh": y[0]}, hello + '#include_shell "l1.sh"\n#include_shell "l2.sh"\n'
        else:
            f, m = {"l1.sh": x[0], "l2.sh": y[0]}, 'int f(int x) { return x; }\n#  include_shell   "l1.sh"  // comment\n#include_shell "l2.sh" /* c */\n' + hello
        res.append(Job(f, m, o + "main\n", "layout %d %s,%s" % (lay, a, b)))
    # strings from shell to C, and to shell and back
    ss = strings(q)
    for i in range(0, len(ss), 25):
        part = ss[i:i + 25]
        lib = LIB + "_mk() { case $2 in\n" + "".join("%d) ___v=$(printf '%s.') ;;\n" % (j, octal(s)) for j, s in enumerate(part)) + "esac\nunpack_string $1 \"${___v%.}\"; }\n"
        body = " ".join("putn(mk(%d));" % j for j in range(len(part)))
        out = "".join("".join("%d " % c for c in s) + "/%d " % len(s) for s in part)
        res.append(Job({"lib.sh": lib}, prog(body), out, "strings from shell %d" % i))
        part = [s for s in part if not s.endswith(b"\n")]
        body = " ".join("putn(back(\"%s\")); show(\"%s\");" % (octal(s), octal(s)) for s in part)
        out = "".join("".join("%d " % c for c in s) + "/%d <%s>" % (len(s), s.decode("latin1")) for s in part)
        res.append(Job({"lib.sh": lib}, prog(body), out, "strings there and back %d" % i))
    return res


def part(job):
    js, exe, shell = job
    bad = []
    for j in js:
        d = fresh_dir("inc")
        os.chmod(d, 0o777)
        for n, t in list(j.files.items()) + [("p.c", j.main)]:
            os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
            with open(d + "/" + n, "wb") as f:
                f.write(t.encode("latin1"))
        r = procs.run_fast([exe, "p.c"], b"", 20, d)
        if r[0] != 0:
            bad.append((j, "rejected: %r" % r[1][-200:]))
            continue
        with open(d + "/p.out", "wb") as f:
            f.write(r[1])
        o = procs.run_fast([SHELLS[shell], "p.out"], b"", 30, d)
        shutil.rmtree(d, ignore_errors=True)
        if o != (0, j.out.encode("latin1"), b""):
            bad.append((j, "expected rc=0 %r\nobserved rc=%r %r %r" % (j.out[-300:], o[0], o[1][-300:], o[2][-200:])))
    return bad


def main(chk):
    q = chk.quick
    chk.assumptions = ["shell functions follow the calling convention of examples/posix-utils.sh", "strings that end with a newline are not packed (command substitution drops it)", "bytes below 128"]
    procs.build_runner()
    js = jobs(q)
    build_all(["sh", "sh-release"])
    todo = []
    for v, s in [("sh", s) for s in SHELLS] + [("sh-release", "dash")]:
        mine = [j for k, j in enumerate(js) if s == "dash" and v == "sh" or not q or k % 4 == 1 or "," not in j.name]
        n = NCPU * 4
        todo += [(mine[i::n], build(v), s, v) for i in range(n)]
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, [t[:3] for t in todo]))
    shown = {}
    for (mine, _, s, v), bad in zip(todo, res):
        chk.traces += len(mine)
        chk.transitions += len(mine)
        chk.extra["%s/%s" % (v, s)] = chk.extra.get("%s/%s" % (v, s), 0) + len(mine)
        for j in mine:
            chk.state((v, s, j.name))
            chk.outcomes.add(j.out)
        for j, why in bad:
            shown[s] = shown.get(s, 0) + 1
            if shown[s] <= 5:
                chk.violation("[%s/%s] %s" % (v, s, j.name), why, {**{k.replace("/", "_"): x for k, x in j.files.items()}, "p.c": j.main})
    chk.sample(js[3].name)
    chk.sample(js[-1].name)
