"""Build options: every combination of code generation options yields programs that behave the same."""
import itertools
from core import *
from batch import *
import multiprocessing, shutil
from concurrent.futures import ProcessPoolExecutor
import core
import a02, a03, a04, a07, a08

OPTS = ["SH_SAVE_VARS_WITH_SET", "OPTIMIZE_CONSTANT_PARAM", "SH_INLINE_CHAR_LITERAL", "SH_INCLUDE_C_CODE", "SUPPORT_LINE_CONTINUATION", "RT_NO_INIT_GLOBALS",
        "OPTIMIZE_LONG_LINES", "RT_COMPACT", "SAFE_MODE", "SH_AVOID_PRINTF_USE_NOT", "RT_FREE_UNSETS_VARS_NOT", "RT_UNSAFE_HEAP"]
# Options that only concern the compiler, not the code it generates
QUIET = {"SAFE_MODE", "SUPPORT_LINE_CONTINUATION"}


def every(l, n):
    l = list(l)
    return l[:: max(1, len(l) // n)][:n]


def recursive(id, np, nl, nt, order):
    """A recursive function with np parameters, nl locals and nt results of calls alive at a time."""
    ps = ["p%d" % i for i in range(np)]
    ls = ["l%d" % i for i in range(nl)]

    def f(n, a):
        if n == 0:
            return sum(x * (i + 2) for i, x in enumerate(a)) + 1
        loc = [n * 10 + i for i in range(nl)]
        ts = [f(n - 1, [x + j for x in a]) for j in range(nt)]
        return (sum(t * (j + 3) for j, t in enumerate(ts)) + sum(x * (i + 5) for i, x in enumerate(a)) + sum(x * (i + 7) for i, x in enumerate(loc)) + n) % 9973
    name = "rec%d" % id
    call = lambda j: "%s(%s)" % (name, ", ".join(["n - 1"] + ["%s + %d" % (p, j) for p in ps]))
    terms = ["%s * %d" % (call(j), j + 3) for j in range(nt)] + ["%s * %d" % (p, i + 5) for i, p in enumerate(ps)] + ["%s * %d" % (l, i + 7) for i, l in enumerate(ls)] + ["n"]
    if order:
        terms = terms[nt:] + terms[:nt]
    base = " + ".join(["%s * %d" % (p, i + 2) for i, p in enumerate(ps)] + ["1"])
    decl = "int %s(%s) { %sif (n == 0) return %s; %sreturn (%s) %% 9973; }" % (
        name, ", ".join("int " + x for x in ["n"] + ps), "".join("int %s; " % l for l in ls), base, "".join("%s = n * 10 + %d; " % (l, i) for i, l in enumerate(ls)), " + ".join(terms))
    args = [i + 1 for i in range(np)]
    calls = ['printf("%%d %%d\\n", %d, %s(%s));' % (id, name, ", ".join(map(str, [k] + args))) for k in (0, 1, 2)]
    return Case(id, decl, calls, [b"%d %d" % (id, f(k, args)) for k in (0, 1, 2)], decl)


def suite(q):
    """(prelude, render, cases)"""
    st = Stats()
    chk = type("C", (), {"quick": True, "extra": {}, "transitions": 0, "nstates": 0, "outcomes": set(), "state": lambda *a: None})()
    out = []
    n = 1 if q else 3
    cs = [a03.make(st, i + 1, p) for i, p in enumerate(every(a03.plan(False), 150 * n))]
    out.append((a03.PRELUDE, None, [c for c in cs if c]))
    shapes = itertools.product((0, 1, 2, 6, 8), (0, 1, 3), (1, 2, 3, 4), (0, 1))
    out.append(("#include <stdio.h>\n", None, [recursive(i + 1, *x) for i, x in enumerate(shapes)]))
    cs = [a04.case(st, i + 1, p, False) for i, p in enumerate(every(a04.plans(chk), 100 * n))]
    out.append((a04.SH_IO, None, [c for c in cs if c and not getattr(c, "ctx", False)]))
    a, _ = a07.explore(a07.H(), 3)
    b, _ = a07.explore(a07.L(), 3)
    cs = [a07.case(st, i + 1, p) for i, p in enumerate(every(a + b, 60 * n))]
    out.append((a07.SHIO + a07.COMMON, None, [c for c in cs if c]))
    cs = [a08.case(st, i + 1, p) for i, p in enumerate(every(a08.plans(chk), 120 * n))]
    out.append((a08.SH, None, [c for c in cs if c and not getattr(c, "ctx", False)]))
    g = a02.Gen()
    cs = [a02.make(st, i + 1, l, 0, 0, 4) for i, l in enumerate(every([l for k in (1, 2, 3) for l in g.lists(k, False, False) if not any(a02.risky(s) for s in l)], 150 * n))]
    out.append((a02.PRELUDE, lambda p, c: a02.render(p, c, 20), [c for c in cs if c]))
    return out


def vname(o):
    v = "opt:" + "+".join(o)
    core.VARIANTS[v] = ["-Dsh"] + ["-D" + x for x in o]
    return v


_suite = None


def scripts(v, dirs):
    """The translation of every program of the suite, from every directory and path; None where they differ."""
    out = []
    for k, (p, rend, cs) in enumerate(_suite):
        text = (rend or program)(p, cs)
        got = set()
        for d in dirs:
            f = os.path.join(d, "p%d.c" % k)
            if not os.path.exists(f):
                with open(f, "w") as h:
                    h.write(text)
            for path, cwd in ((f, "/"), ("p%d.c" % k, d), ("./p%d.c" % k, d)):
                o = os.path.join(d, "o")
                ok, diag = pnut_compile(v, path, o, cwd=cwd)
                got.add(open(o, "rb").read() if ok else b"rejected")
        out.append(got.pop() if len(got) == 1 else None)
    return out


def part(job):
    sets, shells, dirs = job
    res = []
    for o in sets:
        v = vname(o)
        build(v)
        d1, d2 = fresh_dir("x"), fresh_dir("y")
        text = scripts(v, [d1, d2])
        fails, ran = [], 0
        for sh in shells:
            for p, rend, cs in _suite:
                r = Runner(v, sh, p, batch=1000, render=rend, max_fail=2)
                r.check([c for c in cs if not (sh == "yash" and getattr(c, "level", 0) >= 128)])
                fails += [(sh, c, ob, p, rend) for c, ob in r.fail]
                ran += r.ran
        shutil.rmtree(d1)
        shutil.rmtree(d2)
        res.append((o, ran, fails, [None if t is None else hash(t) for t in text]))
        try:
            os.unlink(core._built[(v,)])
        except (KeyError, OSError):
            pass
    return res


def main(chk):
    global _suite
    q = chk.quick
    chk.assumptions = ["the option SUPPORT_ADDRESS_OF_OP does not build and is left out", "the programs of the suite are slices of the enumerations of A02, A03, A04, A07 and A08, with their expected outputs"]
    _suite = suite(q)
    shells = ["dash"] if q else list(SHELLS)
    sets = [o for n in range(3 if q else 4) for o in itertools.combinations(OPTS, n)]
    if not q:
        sets += [tuple(x for x in OPTS if x not in o) for n in range(3) for o in itertools.combinations(OPTS, n)]
    chk.transitions = sum(len(o) for o in sets)
    n = NCPU * 4
    jobs = [(sets[i::n], ["dash"], None) for i in range(n)]
    if not q:
        few = [o for o in sets if len(o) < 2 or len(o) > len(OPTS) - 2]
        jobs = [([o], shells[1:], None) for o in few] + jobs
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = [x for l in ex.map(part, jobs) for x in l]
    texts = {}
    shown = 0
    for o, ran, fails, hs in res:
        chk.traces += ran
        chk.state(o)
        texts[o] = hs
        if None in hs:
            chk.violation("the translation depends on where the source file is: options %s, program %d" % (" ".join(o), hs.index(None)), "")
        for sh, c, ob, p, rend in fails:
            shown += 1
            if shown <= 6:
                exp = gcc_run((rend or program)(p, [c]))
                chk.violation("options %s: %s" % (" ".join("-D" + x for x in o), c.desc[:200]), "expected %r\n%s\ncompile p.c with pnut built with -Dsh %s, run with %s" % (c.expect[:3], ob, " ".join("-D" + x for x in o), sh),
                              {"p.c": (rend or program)(p, [c])})
    for o, hs in texts.items():
        base = tuple(x for x in o if x not in QUIET)
        if base != o and base in texts and texts[base] != hs and shown < 6 and None not in hs:
            shown += 1
            k = [a == b for a, b in zip(texts[base], hs)].index(False)
            chk.violation("the script depends on options of the compiler only: %s" % " ".join(o), "program %d of the suite" % k)
    chk.extra["option sets"] = len(res)
    chk.extra["programs per set"] = sum(len(x[2]) for x in _suite)
    # native: the options of the compiler do not change the executable
    ex = {}
    st = Stats()
    d = fresh_dir("nat")
    src = a07.NATIO + a07.COMMON
    a, _ = a07.explore(a07.H(), 3)
    text = program(src, [c for c in (a07.case(st, i + 1, p) for i, p in enumerate(every(a, 60))) if c])
    with open(os.path.join(d, "p.c"), "w") as f:
        f.write(text)
    nat = [(t, o) for t in ("i386_linux", "x86_64_linux") for o in [(), ("SAFE_MODE",), ("SUPPORT_LINE_CONTINUATION",), ("SAFE_MODE", "SUPPORT_LINE_CONTINUATION"), ("RELEASE_PNUT_" + t,)]]
    for t, o in nat:
        v = "nat:" + t + "+".join(o)
        core.VARIANTS[v] = ["-Dtarget_" + t] + ["-D" + x for x in o] if not (o and "RELEASE" in o[0]) else ["-D" + o[0]]
        build(v)
        for how in ("stdout", "-o file", "-ofile"):
            out = os.path.join(d, "out")
            if os.path.exists(out):
                os.unlink(out)
            cmd = [core._built[(v,)]] + {"stdout": [], "-o file": ["-o", "out"], "-ofile": ["-oout"]}[how] + ["p.c"]
            rc, so, se = core.run(cmd, cwd=d, unpriv=False)
            b = so if how == "stdout" else open(out, "rb").read() if os.path.exists(out) else b""
            chk.traces += 1
            ex.setdefault(t, {}).setdefault(b, []).append((o, how))
    for t, m in ex.items():
        if len(m) != 1:
            chk.violation("the executable depends on options of the compiler only: %s" % t, "\n".join("%d bytes: %s" % (len(b), w) for b, w in m.items()), {"p.c": text})
    chk.sample("option sets: " + "; ".join(" ".join(o) for o, *_ in res[:8]))
