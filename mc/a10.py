"""Preprocessor conditionals: which groups of lines take part in the program."""
import itertools, multiprocessing
from concurrent.futures import ProcessPoolExecutor
import procs
from core import *
from batch import *

SHP = """
#include <stdio.h>
void s(int v) { printf("%d ", v); }
void nl() { printf("\\n"); }
"""
NATP = NATIVE_IO.replace("ob_", "ob").replace("on_", "on").replace("void ps(int", "void s(int").replace("ps(", "s(").replace("on = on - 1; oc(10)", "oc(10)")


def skeletons(ifs, elifs, depth_max, length, extra=()):
    """All well formed sequences of directives: ifs / elifs are condition names,
    extra other lines that may stand anywhere."""
    out = []

    def go(seq, stack):
        # stack: per open group, whether #else was seen
        if not stack and seq and seq[-1] == ("endif",):
            out.append(tuple(seq))
        left = length - len(seq)
        if left <= len(stack):
            if stack and left == len(stack):
                out.append(tuple(seq) + (("endif",),) * left)
            return
        if len(stack) < depth_max and left >= len(stack) + 2:
            for c in ifs:
                go(seq + [("if", c)], stack + [False])
        for x in extra:
            go(seq + [x], stack)
        if stack:
            if not stack[-1]:
                for c in elifs:
                    go(seq + [("elif", c)], stack)
                go(seq + [("else",)], stack[:-1] + [True])
            go(seq + [("endif",)], stack[:-1])
    go([], [])
    return list(dict.fromkeys(out))


# condition name -> (directive text for if, expression for elif, value given macros)
def cond(c, m):
    """value of a condition; m: macro name -> value or None"""
    if c in ("0", "1"):
        return int(c)
    if c == "!1":
        return 0
    if c == "2":
        return 1
    if c.startswith("ifdef "):
        return c[6:] in m
    if c.startswith("ifndef "):
        return c[7:] not in m
    env = {}
    return eval_cond(c, m)


def eval_cond(c, m):
    import re
    e = re.sub(r"defined\s*\(\s*(\w+)\s*\)|defined\s+(\w+)", lambda k: str(int((k[1] or k[2]) in m)), c)
    e = re.sub(r"[A-Za-z_]\w*", lambda k: str(m.get(k[0], 0)), e)
    e = e.replace("&&", " and ").replace("||", " or ").replace("!=", "<>").replace("!", " not ").replace("<>", "!=")
    return int(bool(eval(e)))


def text_if(c):
    return "#" + c if c.startswith("ifdef") or c.startswith("ifndef") else "#if " + c


def render(seq, id, style):
    """style: how the directives are written."""
    mac = lambda t: t.replace("A", "A%d" % id).replace("B", "B%d" % id)
    lines = []
    n = 0
    for x in seq:
        if x[0] == "if":
            l = text_if(mac(x[1]))
        elif x[0] == "elif":
            l = "#elif " + mac(x[1])
        elif x[0] == "define":
            l = "#define " + mac(x[1]) + " " + x[2]
        elif x[0] == "undef":
            l = "#undef " + mac(x[1])
        elif x[0] == "text":
            lines.append(x[1].replace("@", str(id)))
            continue
        else:
            l = "#" + x[0]
        if style == 1:
            l = "  " + l.replace("#", "# ", 1)
        elif style == 2:
            l = "\t#\t" + l[1:].replace(" ", "\t", 1) + " /* #else */"
        elif style == 3:
            l = l + " // #endif"
        elif style == 4:
            l = "\n\n" + l + "  \n\n"
        elif style == 5:
            l = "/* c */ " + l
        n += 1
        lines.append(l)
        lines.append("s(%d);" % n)
    return lines


def live(seq, m):
    """The markers that take part."""
    out, n = [], 0
    stack = []   # (parent active, taken)
    active = True
    for x in seq:
        if x[0] == "if":
            v = bool(cond(x[1], m)) if active else False
            stack.append([active, v])
            active = active and v
        elif x[0] == "elif":
            par, taken = stack[-1]
            v = par and not taken and bool(cond(x[1], m))
            stack[-1][1] = taken or v
            active = v
        elif x[0] == "else":
            par, taken = stack[-1]
            active = par and not taken
            stack[-1][1] = True
        elif x[0] == "endif":
            active = stack.pop()[0]
        elif x[0] == "define" and active:
            m[x[1]] = int(x[2]) if x[2].lstrip("-").isdigit() else 0
        elif x[0] == "undef" and active:
            m.pop(x[1], None)
        elif x[0] == "text":
            if active:
                out += x[2]
            continue
        n += 1
        if active:
            out.append(n)
    return out


def make(st, id, p):
    seq, style, pre = p
    m = {}
    head = []
    for k, v in pre:
        head.append("#define %s %s" % (k.replace("A", "A%d" % id).replace("B", "B%d" % id), v))
        m[k] = int(v)
    st.nstates += len(seq)
    out = live(seq, m)
    st.outcomes.add(tuple(out))
    lines = head + ["void k%d() { s(0);" % id] + render(seq, id, style) + ["nl(); }"]
    if style == 6:
        text = "\n".join(lines).replace("\n#", "\n\f#")
    else:
        text = "\n".join(lines)
    return Case(id, text, ["k%d();" % id], ["".join("%d " % v for v in [0] + out).encode()], text)


# lines that a group may hold; only the active ones produce their numbers
TEXTS = [("text", "s(50); /*\n#else\n#endif\n*/ s(51);", [50, 51]), ("text", "// #endif\ns(52);", [52]), ("text", "s(\"#endif\"[1]);", [101]),
         ("text", "s('#'); s(\n53);", [35, 53]), ("text", "#define Z@ 1\n#ifdef Z@\ns(54);\n#endif\n#undef Z@", [54]),
         ("text", "s(1 /*\n#if 0\n*/ + 54);", [55]), ("text", "/* */ // */\ns(56);", [56]), ("text", "s(\"a/*\"[1]); s(\"*/\"[0]); s(\"//\"[1]);", [47, 42, 47])]
# only in groups that are skipped
DEAD = [("text", t, []) for t in ("unknown_function(1);", "} } } {", ")(;,", "#error no", "#warning no", "#include \"missing.h\"", "#define A", "#undef main", "\"a string\" 'c' 1.", "#pragma once",
                                  "#define F(x) #x", "a ## b", "1 = 2;", "int int int", "#line 3", "sizeof", "... -> <<= >>=", "0x1f 010 1u 1ll", "#unknown directive here", "#if (\n#endif", "#if 1/0\n#elif 1 % 0\n#else\n#endif", "#ifdef 1\n#endif", "#include <missing.h>", "#include_shell \"missing.sh\"",
                                  "#endif_is_not_here", "#define", "#undef", "#ifdefx", "#")]


def plan(quick, native):
    out = []
    d = 1 if quick else 2
    A = skeletons(("0", "1"), ("0", "1"), 4, 8 + d)
    out += [(q, 0, ()) for q in A]
    A = skeletons(("ifdef A", "ifndef A"), ("defined(A)", "!defined A"), 3, 6, (("define", "A", "1"), ("undef", "A")))
    out += [(q, 0, pre) for q in A for pre in ((), (("A", "1"),)) if not quick or len(q) < 6 or len(out) % 3 == 0 or q[0][0] == "if"]
    A = skeletons(("A", "A == B"), ("B", "A < B && defined(B)"), 2, 5 + d, (("define", "A", "2"), ("define", "B", "0"), ("undef", "A")))
    out += [(q, 0, pre) for q in A for pre in ((), (("A", "1"), ("B", "1")))]
    # written forms
    A = skeletons(("ifdef A", "1", "!1"), ("0", "A || B"), 2, 5, (("define", "A", "1"),))
    out += [(q, style, ()) for q in A for style in (1, 2, 3, 4, 5)]
    # what a group holds
    A = skeletons(("0", "1"), ("1",), 2, 4)
    for q in A:
        for pos in range(len(q) + 1):
            for t in TEXTS:
                out.append((q[:pos] + (t,) + q[pos:], 0, ()))
    for q in [q for q in A if live(q, {}) != list(range(1, len(q) + 1))]:
        on = live(q, {})
        for pos in range(1, len(q) + 1):
            if pos not in on and pos - 1 < len(q):
                # right after directive number pos, which leaves a skipped group
                for t in DEAD:
                    if native and "include_shell" in t[1]:
                        continue
                    out.append((q[:pos] + (t,) + q[pos:], 0, ()))
    return out


def nested(n, kinds):
    """n nested groups, then all else branches: markers of the path of conditions."""
    seq = []
    for i in range(n):
        seq.append(("if", kinds[i % len(kinds)]))
    for i in range(n):
        seq.append(("else",))
        seq.append(("endif",))
    return tuple(seq)


DIRS = ["#if 1", "#if 0", "#ifdef A", "#elif 1", "#elif 0", "#else", "#endif", "int v%d;"]


def balance(w):
    """None if a word of directives is well formed, "skip" if it has groups after #else, else what is wrong."""
    st = []
    for d in w:
        if d.startswith("#if"):
            st.append(False)
        elif d in ("#elif 1", "#elif 0", "#else"):
            if not st:
                return "without #if"
            if st[-1]:
                return "skip"
            st[-1] = d == "#else"
        elif d == "#endif":
            if not st:
                return "without #if"
            st.pop()
    return "unterminated" if st else None


def unb_part(job):
    words, exe = job
    d = fresh_dir("unb")
    os.chmod(d, 0o777)
    bad, n = [], 0
    for w in words:
        b = balance(w)
        if b == "skip":
            continue
        text = "".join((l % i if "%" in l else l) + "\n" for i, l in enumerate(w)) + ("" if len(w) % 2 else "int last;\n")
        with open(os.path.join(d, "p.c"), "w") as f:
            f.write(text)
        r = procs.run_fast([exe, "p.c"], b"", 5, d)
        if r[0] is None:
            r = procs.run_fast([exe, "p.c"], b"", 60, d)
        n += 1
        if (r[0] == 0) != (b is None) or r[0] is None:
            bad.append((text, b, r))
    return n, bad


def unbalanced(chk):
    """Sequences of directives that do not match are rejected, all others accepted."""
    procs.build_runner()
    words = [w for n in range(1, 5 if chk.quick else 6) for w in itertools.product(DIRS, repeat=n)]
    words += [("#if 1",) * 21 + ("#endif",) * k for k in (20, 22)]
    for v in ["sh"] if chk.quick else ["sh", "x86_64", "i386-safe"]:
        exe = build(v)
        with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
            res = list(ex.map(unb_part, [(words[i::32], exe) for i in range(32)]))
        chk.nstates += len(words)
        chk.transitions += sum(map(len, words))
        chk.extra["sequences of directives " + v] = sum(n for n, _ in res)
        chk.traces += sum(n for n, _ in res)
        for text, b, r in [x for _, l in res for x in l][:4]:
            chk.violation("conditional directives %s: status %r" % ("that are balanced are rejected" if b is None else b + " are accepted" if r[0] == 0 else b + ": no end", r[0]), repr(r[1][-200:]), {"p.c": text})


def main(chk):
    unbalanced(chk)
    chk.assumptions = ["lines of skipped groups consist of valid tokens", "conditions use integer literals, defined, macros with integer values and the operators listed"]
    p = plan(chk.quick, False)
    p += [(nested(n, k), 0, ()) for n in range(1, 21) for k in (("1",), ("0",), ("1", "0"), ("1", "1", "0"), ("ifdef A", "ifndef A"))]
    chk.extra["cases"] = len(p)
    runs = [(Runner("sh", "dash", SHP, batch=400), None)]
    if not chk.quick:
        runs += [(Runner("sh-release", "ksh", SHP, batch=400), None), (Runner("x86_64", None, NATP, batch=400), None), (Runner("i386-safe", None, NATP, batch=400), None)]
    else:
        runs += [(Runner("x86_64", None, NATP, batch=400), lambda c: "include_shell" not in c.decl)]
    sweep(chk, p, make, runs)
    chk.transitions += len(p)
    for q in p[:: max(1, len(p) // 5)][:5]:
        chk.sample(repr(q))
