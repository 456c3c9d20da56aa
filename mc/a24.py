"""Included files: a source split over files means what the joined source means."""
import itertools, multiprocessing, re
from concurrent.futures import ProcessPoolExecutor
import core, procs, a20
from core import *
from batch import *

BASES = {
    "decls": ["int a = 1;", "#define F(x, y) x + y", "int f(int a) {", "  return F(a,", "    2) ;", "}", "char *s = \"a\" \"b\";", "#undef F", "int F ;", "/* c", " d */ int last;"],
    "groups": ["#ifdef N", "int n;", "#else", "#define N 3", "int m = N;", "#endif", "#if N > 2 // c", "int k = N + N;", "# undef N", "#elif N", "int z;", "#endif", "N int y;"],
    "fun": ["#define F(a) a a", "#define G F", "F(1)", "G", "F(", "2", "", "3 ) F", "F (G (3) )", "G(", "F())"],
    "place": ["__FILE__ ; __LINE__ ;", "int x = __LINE__", ";", "/* c", "*/ __LINE__ ;", "__LINE__", "#define L __LINE__ ;", "L", "__FILE__"],
    "lex": ["'a' \"b\\\"c\"", "a + \\", "+ b", "// c", "a /**/ - b", "#define S(x) #x", "S( a )", "#define C(a, b) a ## b", "C(x, 1) C(,", ")"],
}
ENDS = ["\n", "", " ", "\n\n", " // c", " /* c */\n", "\n \t", "\n#define Q\n", "\n#if 1\n#endif"]
HOW = ["#include \"%s\"", " # include \"%s\" ", "#include \"%s\" // c", "#/* c */include/* d */\"%s\"/* e */", "#include\t\"%s\"\t", "#include\"%s\" /* c\n d */"]
# Directory of the main file, name in the outer #include, name in the inner one, files
LAYOUTS = [
    ("", "f.h", "g.h", "f.h", "g.h"),
    ("", "sub/f.h", "g.h", "sub/f.h", "sub/g.h"),
    ("", "sub/f.h", "../g.h", "sub/f.h", "g.h"),
    ("", "sub/f.h", "x/g.h", "sub/f.h", "sub/x/g.h"),
    ("", "./f.h", "./sub/g.h", "f.h", "sub/g.h"),
    ("dir/", "f.h", "g.h", "dir/f.h", "dir/g.h"),
    ("dir/", "../f.h", "dir/g.h", "f.h", "dir/g.h"),
    ("dir/", "sub/f.h", "g.h", "dir/sub/f.h", "dir/sub/g.h"),
    ("dir/e/", "../f.h", "e/g.h", "dir/f.h", "dir/e/g.h"),
    ("./dir/", "f.h", "../sub/g.h", "dir/f.h", "sub/g.h"),
]
DIRS = ["", "sub/", "sub/x/", "dir/", "dir/e/", "dir/sub/"]


def splits(quick):
    """(description, main file name, files)"""
    def text(lines, end="\n"):
        return "\n".join(lines) + end if lines else end.lstrip("\n")
    for b, lines in BASES.items():
        n = len(lines)
        for i in range(n + 1):
            for j in range(i, n + 1):
                for e, h in itertools.product(range(len(ENDS)), range(len(HOW))):
                    if quick and e and h and (e + h + i + j) % 5:
                        continue
                    main = lines[:i] + [HOW[h] % "f.h"] + lines[j:]
                    yield "%s, lines %d-%d, end %d, form %d" % (b, i, j, e, h), "m.c", {"m.c": text(main), "f.h": text(lines[i:j], ENDS[e])}
                # the #include is the end of the main file
                if j == n:
                    for e in ENDS:
                        yield "%s, lines from %d, at the end" % (b, i), "m.c", {"m.c": text(lines[:i] + [HOW[0] % "f.h"], ""), "f.h": text(lines[i:], e)}
        # two levels; a file of the inner name that must not be found stands in all other directories
        for i, k, l, j in itertools.combinations_with_replacement(range(n + 1), 4):
            for z, (d, one, two, p1, p2) in enumerate(LAYOUTS):
                if (i + k + l + j + z) % (7 if quick else 1):
                    continue
                e = ENDS[(i + j + z) % 3]
                files = {x + p: "WRONG %s\n" % (x + p) for x in DIRS for p in ("f.h", "g.h")}
                files[p1] = text(lines[i:k] + [HOW[0] % two] + lines[l:j], e)
                files[p2] = text(lines[k:l], e)
                files[os.path.normpath(d) + "/m.c"] = text(lines[:i] + [HOW[0] % one] + lines[j:])
                for name in [d + "m.c"] + (["@" + d + "m.c"] if not (i or k or l) else []):
                    yield "%s, lines %s, layout %d, %s" % (b, (i, k, l, j), z, name), name, files


def repeated(quick):
    """One file included several times among definitions; every sequence of lines."""
    lines = ["#define X 1", "#define X a b", "#undef X", "#include \"x.h\"", "#include \"g.h\"", "#include \"n.h\"", "#if 0", "#endif", "X;"]
    files = {"x.h": "[ X ]\n", "g.h": "#ifndef G\n#define G\nguarded X\n#undef X\n#endif\n", "n.h": "#include \"x.h\"\n#define X n\n#include \"g.h\""}
    for k in range(1, 5 if quick else 6):
        for s in itertools.product(lines, repeat=k):
            if sum("include" in x for x in s) < 2 and k > 2 or quick and k == 4 and s.count("#if 0") + s.count("#endif") + s.count("X;"):
                continue
            t = "".join(x + "\n" for x in s)
            if "#define X" in t and re.search(r"#define X(?!.*#undef)[^#]*#define X", t, re.S):
                continue
            yield "sequence %r" % t, "m.c", dict(files, **{"m.c": t})
    # self inclusion and depth
    for n in list(range(1, 30)) + [64, 100, 150]:
        yield "%d nested files" % n, "m.c", dict({"f%d.h" % i: "a%d\n#include \"f%d.h\"\nb%d\n" % (i, i + 1, i) for i in range(n)}, **{"f%d.h" % n: "end", "m.c": "#include \"f0.h\"\nlast\n"})
        # The depth is counted in unary with macros D0, D1, ...; conditional groups nest to 20 levels
        if n > 5:
            continue
        t = "".join("#ifndef D%d\n#define D%d\n#include \"m.c\"\nlevel%d\n#else\n" % (i, i, i) for i in range(n)) + "bottom\n" + "#endif\n" * n
        yield "file including itself %d times" % n, "m.c", {"m.c": t}


def search(quick):
    """(description, main, files, options of pnut, options of gcc)"""
    files = {"inc/f.h": "inc f\n#include \"g.h\"\n#include <sub/h.h>\n", "inc/g.h": "inc g\n", "inc/sub/h.h": "inc sub h\n#include \"i.h\"\n#include <g.h>\n", "inc/sub/i.h": "inc sub i\n#include \"../g.h\"\n", "f.h": "here f\n", "g.h": "here g\n", "sub/h.h": "here sub h\n", "other/f.h": "other f\n"}
    names = ["<f.h>", "<g.h>", "<sub/h.h>", "<./f.h>", "<sub/../g.h>", "\"f.h\"", "\"inc/f.h\"", "\"inc/sub/i.h\"", "\"sub/h.h\"", "< f.h>"]
    for k in (1, 2):
        for s in itertools.product(names[:-1], repeat=k):
            for how in ("#include %s", "#include%s // c", " #\tinclude  %s /* d */ "):
                t = "".join(how % x + "\nend\n" for x in s)
                for opts in (["-Iinc/"], ["-I", "inc/"], ["-Iinc"], ["-I", "inc"], ["-I./inc"], ["-I@inc"], ["-I@inc/"], ["-Iother/../inc"]):
                    yield "%r with %s" % (t, opts), "m.c", dict(files, **{"m.c": t}), opts


TOKEN = re.compile(rb'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|\w+|[^\w\s]')


def part(job):
    exe, what, quick, i, n = job
    d = os.path.join(SCRATCH, "inc%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    res = {"texts": 0, "valid": 0, "rejected": 0}
    bad, known = [], {}
    gen = splits(quick) if what == "splits" else repeated(quick) if what == "repeated" else search(quick)
    have = {}
    for k, x in enumerate(gen):
        if k % n != i:
            continue
        desc, name, files, opts = x if len(x) == 4 else (*x, [])
        name = name.replace("@", d + "/")
        opts = [o.replace("@", d + "/") for o in opts]
        for f in [f for f in have if f not in files]:
            os.unlink(d + "/" + f)
            del have[f]
        for f, t in files.items():
            if have.get(f) != t:
                os.makedirs(os.path.dirname(d + "/" + f), exist_ok=True)
                with open(d + "/" + f, "wb") as h:
                    h.write(t.encode("latin1"))
                have[f] = t
        for x in DIRS + ["dir/e/", "inc/", "other/", "sub/"]:
            os.makedirs(d + "/" + x, exist_ok=True)
        res["texts"] += 1
        g = subprocess.run(["gcc", "-E", "-P", "-w", "-undef", "-nostdinc", *opts, "-xc", name], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if g.returncode or b"unterminated" in g.stderr or b"\\\n" in g.stdout:
            continue
        res["valid"] += 1
        if g.stdout not in known:
            with open(d + "/gcc.c", "wb") as h:
                h.write(g.stdout)
            r = procs.run_fast([exe, "gcc.c"], b"", 10, d)
            if r[0] != 0:
                raise SystemExit("internal: tokens of %r: %r" % (g.stdout, r))
            known[g.stdout] = TOKEN.findall(r[1])
        r = procs.run_fast([exe, *opts, name], b"", 10, d)
        if r[0] != 0 or TOKEN.findall(r[1]) != known[g.stdout]:
            bad.append((desc, opts, name, dict(files), g.stdout, r))
    return res, bad


# Programs with a declaration, statement or part of one per line
def program_lines(n):
    kind, body = a20.SEEDS[n]
    return [y for x in (a20.IO_NAT + body).split("\n") for y in ([x] if x.startswith("#") or '"N"' in x else re.split(r"(?<=[;{}]) |(?<=\)) (?=[{a-z])", x))]


def balanced(text):
    """Conditional groups begin and end in the text."""
    depth = 0
    for l in text.split("\n"):
        if l.startswith("#if"):
            depth += 1
        elif l.startswith(("#el", "#endif")):
            if not depth:
                return False
            depth -= l.startswith("#endif")
    return not depth


def split_programs(job):
    """The output of pnut for a program split over two or three files is that for the joined program."""
    exe, seed, i, n = job
    d = os.path.join(SCRATCH, "spl%d" % os.getpid())
    os.makedirs(d + "/s", exist_ok=True)
    lines = program_lines(seed)
    text = lambda l: "".join(x + "\n" for x in l)

    def out(files):
        for f, t in files.items():
            with open(d + "/" + f, "w") as h:
                h.write(t)
        return procs.run_fast([exe, "m.c"], b"", 20, d)
    whole = out({"m.c": text(lines)})
    if whole[0] != 0:
        raise SystemExit("internal: %s: %r" % (seed, whole[1:]))
    bad, c = [], 0
    pairs = [(a, b) for a in range(len(lines) + 1) for b in range(a, len(lines) + 1)]
    for k, (a, b) in enumerate(pairs):
        if k % n != i:
            continue
        # of a split in three files, the inner one has the middle third
        m = (b - a) // 3
        two = {"m.c": text(lines[:a]) + "#include \"s/f.h\"\n" + text(lines[b:]), "s/f.h": text(lines[a:b])[:-1] if k % 2 else text(lines[a:b])}
        three = dict(two, **{"s/f.h": text(lines[a:a + m]) + "#include \"g.h\"" + ("\n" if k % 2 or b - m > a + m else "") + text(lines[b - m:b]), "s/g.h": text(lines[a + m:b - m])[:-1]})
        for files in (two, three):
            if not all(map(balanced, files.values())):
                continue
            c += 1
            r = out(files)
            if r[:2] != whole[:2]:
                bad.append(("%s lines %d-%d" % (seed, a, b), files, whole, r))
    return c, bad


CONTENTS = [b"f() { printf ok; }", b"f() { printf ok; }\n", b"\n\nf() {\n\n printf 'ok'\n}\n\n", b"f() {\tprintf \"o\"\\\nk; }\r\n".replace(b"\r", b" "), b"# \xe9 '\nf() { printf ok; }", b"f() { printf ok; } # " + b"x" * 70000, b"#define main 3\n#include \"x\"\nf() { : /* ; printf ok; }\n", b"f() { printf 'o' ; printf \"k\" ; }\n# %d \\n %% $x ` \" \n"]


def shell_includes(job):
    """A file included by #include_shell stands verbatim in the script, wherever the directive stands."""
    exe, shell, i, n = job
    d = os.path.join(SCRATCH, "shi%d" % os.getpid())
    os.makedirs(d + "/s", exist_ok=True)
    os.chmod(d, 0o755)
    lines = ["#include <stdio.h>", "#define N 2", "int a = N;", "void f(void);", "int g(int b) {", " f();", " a = b;", " return 1;", "}", "int main() {", " g(N);", " printf(\"%d\\n\", a);", " return 0;", "}"]
    bad, c = [], 0
    space = [(x, k, w) for x in CONTENTS for k in range(len(lines) + 1) for w in range(4)]
    for z, (x, k, w) in enumerate(space):
        if z % n != i:
            continue
        how = ['#include_shell "f.sh"\n', '#include "s/i.h"\n', ' # include_shell /* c */ "s/../f.sh" // c\n', '#ifdef N\n#include_shell "f.sh"\n#else\n#include_shell "nothing.sh"\n#endif\n'][w]
        if w == 3 and k < 2:
            continue
        files = {"m.c": "".join(l + "\n" for l in lines[:k]).encode() + how.encode() + "".join(l + "\n" for l in lines[k:]).encode(), "f.sh": x, "s/i.h": b'#include_shell "f.sh"', "s/f.sh": x}
        # renamed to the name pnut gives the function
        for f in ("f.sh", "s/f.sh"):
            files[f] = files[f].replace(b"f()", b"_f()")
        for f, t in files.items():
            with open(d + "/" + f, "wb") as h:
                h.write(t)
        c += 1
        r = procs.run_fast([exe, "m.c"], b"", 20, d)
        if r[0] != 0 or r[1].count(files["f.sh"] + b"\n") != 1:
            bad.append(("#include_shell before line %d" % k, files, b"", r))
            continue
        with open(d + "/p.sh", "wb") as h:
            h.write(r[1])
        o = procs.run_fast([SHELLS[shell], d + "/p.sh"], b"", 20, d)
        if o[:2] != (0, b"ok2\n"):
            bad.append(("#include_shell before line %d" % k, files, b"ok2\n", o))
    return c, bad


def main(chk):
    q = chk.quick
    chk.assumptions = ["token level: gcc -E gives the joined text", "conditional groups and comments that begin and end in different files are not valid C and left out"]
    procs.build_runner()
    core.VARIANTS["tokenizer"] = ["-DDEBUG_CPP", "-DINCLUDE_LINE_NUMBER_ON_ERROR"]
    build_all(["tokenizer", "sh", "x86_64", "sh-release"])
    tok = build("tokenizer")
    k = 64
    ctx = multiprocessing.get_context("fork")
    with ProcessPoolExecutor(NCPU, mp_context=ctx) as ex:
        for what in ("splits", "repeated", "search"):
            shown = 0
            for r, bad in ex.map(part, [(tok, what, q, i, k) for i in range(k)]):
                for x, y in r.items():
                    chk.extra["%s %s" % (what, x)] = chk.extra.get("%s %s" % (what, x), 0) + y
                chk.nstates += r["texts"]
                chk.transitions += r["valid"]
                chk.traces += r["valid"]
                for desc, opts, name, files, g, p in bad:
                    shown += 1
                    if shown <= 3:
                        chk.violation("[tokenizer] tokens differ from those of the joined text: %s %s %s" % (desc, " ".join(opts), name), "joined text:\n%s\npnut: %r\n%s" % (g.decode("latin1")[:600], p[0], (p[1] + p[2]).decode("latin1")[:600]), {re.sub(r"[/.]+", "_", f): t for f, t in files.items() if "WRONG" not in t})
        jobs = [(build(v), n, i, 16) for v in ("sh", "x86_64") for n in ("cpp", "stmt", "data")[:2 if q else 3] for i in range(16)]
        if not q:
            jobs += [(build(v), n, i, 16) for v in ("x86_64",) for n in ("nat", "decl") for i in range(16)]
        jobs2 = [(build(v), sh, i, 16) for v, sh in [("sh", "dash"), ("sh-release", "bash")] for i in range(16)]
        shown = 0
        for what, l in (("split programs", ex.map(split_programs, jobs)), ("shell files", ex.map(shell_includes, jobs2))):
            for c, bad in l:
                chk.extra[what] = chk.extra.get(what, 0) + c
                chk.nstates += c
                chk.transitions += c
                chk.traces += c
                for desc, files, exp, r in bad:
                    shown += 1
                    if shown <= 5:
                        chk.violation("[%s] %s" % (what, desc), "expected %r\nfound %r %r" % (exp[-500:] if isinstance(exp, bytes) else exp[1][-300:], r[0], (r[1] + r[2])[-800:]), {re.sub(r"[/.]+", "_", f): t for f, t in files.items()})
    chk.sample(next(splits(q))[2])
