"""The command line: every short sequence of options, in every spelling, before and after the file."""
import itertools, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import core, procs
from core import *
from a18 import c_built, pnut_built

# (arguments, effect): effects are (kind, name, value text)
NATIVE = [
    (["-DX"], ("D", "X", "1")), (["-D", "X"], ("D", "X", "1")), (["-DX="], ("D", "X", "")), (["-D", "X="], ("D", "X", "")), (["-DX=5"], ("D", "X", "5")),
    (["-D", "X=12"], ("D", "X", "12")), (["-DX=010"], ("D", "X", "010")), (["-DX=0"], ("D", "X", "0")), (['-DX="a b"'], ("D", "X", '"a b"')), (["-D", 'X=""'], ("D", "X", '""')), (["-DX=2147483647"], ("D", "X", "2147483647")),
    (["-DXY"], ("D", "XY", "1")), (["-D_x2=3"], ("D", "_x2", "3")), (["-DPNUT_CC=9"], ("D", "PNUT_CC", "9")), (["-Dconst="], ("D", "const", "")),
    (["-UX"], ("U", "X", None)), (["-U", "X"], ("U", "X", None)), (["-UXY"], ("U", "XY", None)), (["-U", "PNUT_CC"], ("U", "PNUT_CC", None)), (["-Uint"], ("U", "int", None)), (["-U", "while"], ("U", "while", None)), (["-Umain"], ("U", "main", None)),
    (["-Iinc"], ("I", "inc", None)), (["-I", "inc/"], ("I", "inc", None)),
]
SHELL = [x for x in NATIVE if "=" not in x[0][-1]]
NAMES = ("X", "XY", "_x2", "PNUT_CC")
OWN = {"PNUT_CC": "1"}
# every name is looked at as number, as string, and in #if
PROBES = {
    "defined": "".join("#ifdef %s\nint d_%s = 1;\n#else\nint d_%s = 2;\n#endif\n" % (n, n, n) for n in NAMES) + "const int t = 3;\nint main() { int i = 0; %s; while (i < 2) { i = i + 1; } putchar('0' + i); return 0; }\n" % "; ".join("putchar('0' + d_%s)" % n for n in NAMES),
    "number": "int pd(int x) { if (x > 9) pd(x / 10); putchar('0' + x % 10); return 0; }\n" + "".join("#ifdef %s\nint v_%s() { return 0 + %s; }\n#else\nint v_%s() { return 77; }\n#endif\n" % (n, n, n, n) for n in NAMES) + "int main() { %s; return 0; }\n" % "; ".join("pd(v_%s()); putchar(' ')" % n for n in NAMES),
    "if": "".join("#if defined(%s) && %s\nint d_%s = 1;\n#elif !defined %s\nint d_%s = 2;\n#else\nint d_%s = 3;\n#endif\n" % ((n,) * 6) for n in NAMES) + "int main() { %s; return 0; }\n" % "; ".join("putchar('0' + d_%s)" % n for n in NAMES),
    "string": "char *s;\nint main() {\n#ifdef X\ns = \"<\" X \">\";\n#else\ns = \"none\";\n#endif\nwhile (*s) { putchar(*s); s = s + 1; } return 0; }\n",
    "paste": "int f(int a, int b) { return a * 10 + b; }\nint z[3];\nint main() {\n#ifdef X\nint n = f(X X, 2);\n#else\nint n = f(3, 4);\n#endif\nputchar('0' + n % 10); putchar('0' + n / 10); return 0; }\n",
    "shadow": "#ifdef X\n#undef X\n#define X 6\n#else\n#define X 7\n#endif\nint main() { putchar('0' + X); return 0; }\n",
    "include": "#include <h.h>\nint main() { putchar('0' + H); return 0; }\n",
}


def run_model(effects):
    env, inc = dict(OWN), None
    for k, n, v in effects:
        if k == "D":
            env[n] = v
        elif k == "U":
            env.pop(n, None)
        else:
            inc = n
    return env, inc


def num(v):
    return int(v, 8 if v[:1] == "0" else 10)


def isnum(v):
    return v != "" and v[0] != '"'


def expect(probe, env, inc):
    """Output of the program, None where it is not a program."""
    if probe == "defined":
        return "".join("1" if n in env else "2" for n in NAMES) + "2"
    if probe == "number":
        if any(n in env and not isnum(env[n]) for n in NAMES):
            return None
        return "".join("%d " % (num(env[n]) if n in env else 77) for n in NAMES)
    if probe == "if":
        if any(n in env and not isnum(env[n]) for n in NAMES):
            return None
        return "".join("2" if n not in env else "1" if num(env[n]) else "3" for n in NAMES)
    if probe == "string":
        if "X" not in env:
            return "none"
        v = env["X"]
        return None if isnum(v) else "<" + v.strip('"') + ">"
    if probe == "paste":
        return "43" if "X" not in env else None
    if probe == "shadow":
        return "6" if "X" in env else "7"
    if probe == "include":
        return "8" if inc else None


def c_text(effects, probe):
    return "".join("#define %s %s\n" % (n, v) if k == "D" else "#undef %s\n" % n if k == "U" else "" for k, n, v in effects) + PROBES[probe]


def part(job):
    name, cmd, runner, plan = job
    d = fresh_dir("opt")
    os.chmod(d, 0o777)
    os.makedirs(d + "/inc")
    with open(d + "/inc/h.h", "w") as f:
        f.write("#define H 8\n")
    for p, t in PROBES.items():
        with open("%s/%s.c" % (d, p), "w") as f:
            f.write(t)
    bad, n, cache, runs = [], 0, {}, 0
    for kind, args, probe, want in plan:
        n += 1
        if kind == "error":
            r = procs.run_fast(cmd + args, b"", 30, d)
            if r[0] is None or r[0] <= 0 or not (r[1] + r[2]).strip():
                bad.append((args, probe, "a failure status and a message", r))
            continue
        if kind == "output":
            for x in ("out", "out2"):
                if os.path.exists(d + "/" + x):
                    os.unlink(d + "/" + x)
            with open(d + "/out", "wb") as f:
                f.write(b"x" * 300000)
            os.chmod(d + "/out", 0o666)
            ref = procs.run_fast(cmd + [probe + ".c"], b"", 30, d)
            r = procs.run_fast(cmd + args, b"", 30, d)
            got = open(d + "/" + want, "rb").read() if os.path.exists(d + "/" + want) else None
            if r[:2] != (0, b"") or got != ref[1]:
                bad.append((args, probe, "the output in " + want, (r, got and got[:80])))
            continue
        r = procs.run_fast(cmd + args, b"", 30, d)
        if r[0] != 0:
            bad.append((args, probe, want, r))
            continue
        key = r[1]
        if key not in cache:
            with open(d + "/p.out", "wb") as f:
                f.write(r[1])
            os.chmod(d + "/p.out", 0o755)
            cache[key] = procs.run_fast(runner + [d + "/p.out"], b"", 30, d)
            runs += 1
        o = cache[key]
        if o[:2] != (0, want.encode()):
            bad.append((args, probe, want, o))
        if len(bad) > 3:
            break
    return n, runs, bad


def errors(sh):
    """Command lines that must be rejected."""
    f = ["defined.c"]
    bad = [["-D"], ["-U"], ["-I"], ["-q"], ["-"], ["--help"], ["-x", "defined.c"], ["missing.c"], ["inc/missing.c"], ["-Iinc", "-Iinc"], ["-I", "inc", "-Ix"], []]
    values = ["-DX=5"] if sh else ["-o", "-DX=1x", "-DX=x", "-DX=08", "-DX=-1", '-DX="a', "-DX==", "-o/nonexistent/x", "-oinc"]
    for b in bad + [[v] for v in values] + ([["-DX=5", "defined.c"], ["-DX=", "defined.c"], ["-o", "out"]] if sh else [["-o", "inc/x/y"], ["-D", "X=1x"]]):
        for pre in ([], ["-DX"], ["-UX"], ["defined.c"]):
            if pre == ["defined.c"] and b in ([], ["missing.c"], ["inc/missing.c"]):
                continue
            for post in ([], f):
                if b == [] and post:
                    continue
                if b and b[-1] in ("-D", "-U", "-I", "-o") and post:
                    if b[-1] == "-D" or b[-1] == "-o" or pre == f:
                        continue
                    if pre != f:
                        yield pre + b + post  # the file is the option's argument
                    continue
                yield pre + b + post


def plan(sh, n, step):
    alpha = SHELL if sh else NATIVE
    k = 0
    for m in range(n + 1):
        for seq in itertools.product(alpha, repeat=m):
            if sum(e[0] == "I" for _, e in seq) > 1:
                continue
            eff = [e for _, e in seq]
            env, inc = run_model(eff)
            for probe in PROBES:
                want = expect(probe, env, inc)
                if want is None:
                    continue
                for pos in range(m + 1):
                    k += 1
                    if m >= 3 and k % step:
                        continue
                    args = []
                    for i, (a, _) in enumerate(seq):
                        if i == pos:
                            args.append(probe + ".c")
                        args += a
                    if pos == m:
                        args.append(probe + ".c")
                    yield "run", args, probe, want
    for a in errors(sh):
        yield "error", a, "defined", ""
    if not sh:
        for o in (["-oout"], ["-o", "out"], ["-oout2"], ["-o", "./out2"]):
            for seq in ([], ["-DQ"], ["-U", "Q"]):
                for probe in ("defined", "shadow"):
                    for args in (o + seq + [probe + ".c"], seq + [probe + ".c"] + o, [probe + ".c"] + o + seq, seq + o + [probe + ".c"]):
                        yield "output", args, probe, "out2" if "2" in o[-1] else "out"


def main(chk):
    q = chk.quick
    chk.assumptions = ["one source file per command line (pnut reads several files from last to first)", "values of -D are integers, strings or empty (others are rejected); pnut-sh takes no values"]
    procs.build_runner()
    d = fresh_dir("comps")
    os.chmod(d, 0o755)
    comps = [(g, c_built(g, "gcc", d), [SHELLS["dash"]] if g == "sh" else []) for g in ("sh", "x86_64", "i386")]
    for g, r in (("sh", [SHELLS["dash"]]), ("x86_64", [])):
        two, err = pnut_built(g, c_built("x86_64", "gcc", d), "x86_64", "x86_64", d)
        comps.append((g + " built by pnut", two, r))
        for s in ("dash",) if q else tuple(SHELLS):
            if s in SHELLS:
                two, err = pnut_built(g, c_built("sh", "gcc", d), "sh", "sh-" + s, d, s)
                comps.append((g + " run by " + s, two, r))
    # the model against the C compiler
    env = {"PATH": os.environ["PATH"]}
    w = fresh_dir("gcc")
    os.makedirs(w + "/inc")
    open(w + "/inc/h.h", "w").write("#define H 8\n")
    open(w + "/pre.h", "w").write("#define PNUT_CC 1\nint putchar(int c);\n")
    for p, t in PROBES.items():
        open("%s/%s.c" % (w, p), "w").write(t)

    def ref(x):
        i, (seq, probe, want) = x
        r = subprocess.run(["gcc", "-w", "-O0", "-o", "%s/o%d" % (w, i)] + ["-DPNUT_CC=1"] + [a for s in seq for a in s[0]] + [probe + ".c"], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        o = subprocess.run(["%s/o%d" % (w, i)], stdout=subprocess.PIPE).stdout if r.returncode == 0 else r.stderr
        os.path.exists("%s/o%d" % (w, i)) and os.unlink("%s/o%d" % (w, i))
        return None if o == want.encode() else (seq, probe, want, o)
    cases = []
    for m in (0, 1, 2):
        for seq in itertools.product(NATIVE, repeat=m):
            for probe in PROBES:
                want = expect(probe, *run_model([e for _, e in seq]))
                if want is not None and (not q or m < 2 or len(cases) % 5 == 0 or True):
                    cases.append((seq, probe, want))
    if q:
        cases = cases[:180] + cases[180::9]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(NCPU) as ex:
        for x in ex.map(ref, enumerate(cases)):
            if x:
                raise SystemExit("internal: model disagrees with gcc: %r" % (x,))
    chk.extra["command lines checked with gcc"] = len(cases)
    jobs = []
    for name, cmd, runner in comps:
        sh = name.startswith("sh")
        script = "run by" in name
        p = list(plan(sh, 1 if script and q else 2 if script or q and not sh else 3, 1 if not q else 3))
        if script:
            p = p[::1 if q and sh else 2 if q else 7]
        chk.extra[name] = len(p)
        k = max(1, min(16, len(p) // 20))
        jobs += [(name, cmd, runner, p[i::k]) for i in range(k)]
        for x in p:
            chk.state((sh, x[0], tuple(x[1])))
            chk.transitions += len(x[1])
    jobs.sort(key=lambda j: "run by" not in j[0])
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    shown = {}
    for j, (n, runs, bad) in zip(jobs, res):
        chk.traces += n
        chk.extra["programs run"] = chk.extra.get("programs run", 0) + runs
        for args, probe, want, o in bad:
            shown[j[0]] = shown.get(j[0], 0) + 1
            if shown[j[0]] <= 3:
                chk.violation("[%s] command line %s" % (j[0], " ".join(args)), "expected %r\nobserved %r" % (want, o), {probe + ".c": PROBES[probe]})
    for x in p[:: max(1, len(p) // 4)][:4]:
        chk.sample(" ".join(x[1]))
