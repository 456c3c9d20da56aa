"""Shell backend: control flow."""
from core import *
from batch import *
from stmtgen import *


def risky(s, in_clause=False):
    """May be rejected by the shell backend: a switch clause that does not end
    with break/return, or with an early break/return."""
    k = s[0]
    if k in ("b", "r"):
        return in_clause
    if k in ("t", "d", "e", "c"):
        return False
    if k == "blk":
        return any(risky(x, in_clause) for x in s[1])
    if k == "sw":
        for _, b in s[1]:
            if b[-1][0] not in "br":
                return True
            if any(risky(x, True) for x in b[:-1]):
                return True
        return False
    return any(risky(x, in_clause) for x in s[1:] if isinstance(x, tuple))


def has_kind(s, k):
    if s[0] == k:
        return True
    for x in s[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                if has_kind(x, k):
                    return True
            else:
                for y in x:
                    if isinstance(y[0], str):
                        if has_kind(y, k):
                            return True
                    elif any(has_kind(z, k) for z in y[1]):
                        return True
    return False


def chains(q):
    """Clauses with a chain of ifs whose arms end in every way, alone, in and around loops and switches."""
    t, b, r, c, e = ("t",), ("b",), ("r",), ("c",), ("e",)
    ends = (t, b, r, c, ("blk", (t, b)), ("blk", (t, r)), ("blk", (t, c)), ("wh", b), ("if", b), ("ife", b, r), ("ife", t, b))
    short = ends[:5]
    for loop in (False, True):
        one = [x for x in ends if loop or not has_kind(x, "c")]
        few = [x for x in short if loop or not has_kind(x, "c")]
        ch = [("if", x) for x in one] + [("ife", x, y) for x in one for y in one] + [("ife", x, ("if", y)) for x in one for y in one]
        ch += [("ife", x, ("ife", y, z)) for x in few for y in few for z in few]
        ch += [("if", ("ife", x, y)) for x in few for y in few] + [("ife", x, ("blk", (("if", y), z))) for x in few for y in few for z in few]
        for i in ch:
            for tail in ((), (t,), (b,), (t, b), (t, r)):
                for pre in ((),) if q else ((), (t,)):
                    sw = ("sw", (((0,), pre + (i,) + tail), (("d",), (t, b))))
                    yield (("wh", ("blk", (sw, t))),) if loop else (sw, t)


VARS = [  # function forms: with locals of its own, in tail position or not
    ("int k%(id)d(int x) { %(b)s T(9); return 77; }", True),
    ("int k%(id)d(int x) { %(b)s }", False),
    ("int k%(id)d(int x) { int w; w = x; %(b)s T(9); return w + 72; }", True),
]


def make(chk, id, stmts, style, form, depth, maxpaths=24):
    fn = Fn(stmts, style)
    tree = fn.tree
    if id % 4 == 1:  # labels, which change nothing
        n = [0]
        tree = [marked(s, 1 + id // 4 % 3, n) for s in tree]
    body = " ".join(text(s, "_%d" % id) for s in tree)
    calls, expect = [], []
    n = 0
    for bits, ret, m in paths(fn, depth):
        if form == 1 and ret == 77:
            continue  # falls off the end: no value
        chk.transitions += m.steps
        n += 1
        x = 5
        calls.append("tr = 0; ch = %d; x = 5; r = k%d(x); put(%d, r, x);" % (bits, id, id))
        expect.append(b"%d %d 5 %d %d" % (id, ret, m.tr, m.ch))
        chk.outcomes.add((ret, m.tr, m.ch))
        if n >= maxpaths:
            chk.extra["path_cap_hit"] = chk.extra.get("path_cap_hit", 0) + 1
            break
    if not calls:
        return None
    chk.nstates += n
    decl = VARS[form][0] % {"id": id, "b": body}
    return Case(id, decl, calls, expect, decl)


def render(prelude, cases, chunk=100):
    t = program(prelude, cases, chunk=chunk)
    return re.sub(r"void (chunk\d+)\(\) \{", r"void \1() { int x; int r;", t)


import re


def main(chk):
    depth = 5 if chk.quick else 7
    chk.assumptions = ["switch clauses that pnut-sh documents as unsupported (fallthrough, early break) may be rejected, "
                       "but if accepted they must behave as in C"]
    full = Gen()
    loopy = Gen("tbc", ("if", "ife", "wh", "do", "for", "fe"))
    tail = Gen("tr", ("if", "ife", "wh", "sw"), clause_end="r")
    swc = Gen("tbr", ("if", "sw", "wh"), shapes=SW_SHAPES3 + SW_SHAPES[2:], clause_end="br")
    misc = Gen("tdebcr", ("if", "ife", "do", "fc", "fe"))
    plan = []
    for n in range(1, 5):
        for l in full.lists(n, False, False):
            plan.append((l, 0, 0))
            if n < 4:
                plan.append((l, 1, 2))
                plan.append((l, 0, 1))
            if n == 4 and chk.quick is False:
                plan.append((l, 1, 2))
    for l in loopy.lists(5, False, False):
        plan.append((l, 0, 0))
    for n in range(2, 6 if chk.quick else 7):
        for l in tail.lists(n, False, False):
            plan.append((l, 0, 1))
    for n in range(3, 6 if chk.quick else 7):
        for l in swc.lists(n, False, False):
            plan.append((l, 0, 2))
    for n in range(1, 5):
        for l in misc.lists(n, False, False):
            plan.append((l, 1, 0))
    for l in chains(chk.quick):
        plan.append((l, 0, 0))
    if not chk.quick:
        for l in full.lists(5, False, False):
            plan.append((l, 0, 0))
        for l in loopy.lists(6, False, False):
            plan.append((l, 1, 2))
    seen = set()
    must, may = [], []
    for l, style, form in plan:
        if (l, style, form) in seen:
            continue
        seen.add((l, style, form))
        c = make(chk, len(seen), l, style, form, depth)
        if c:
            (may if any(risky(s) for s in l) else must).append(c)
    chk.extra["programs"] = len(must) + len(may)
    chk.extra["programs_possibly_rejected"] = len(may)
    build_all(["sh", "sh-set"])
    d = fresh_dir("may")

    def accepted(c):
        p = os.path.join(d, "m%d.c" % c.id)
        with open(p, "w") as f:
            f.write(PRELUDE + c.decl + "\nint main() { int x; int r; %s return 0; }\n" % c.calls[0])
        ok, diag = pnut_compile("sh", p, p + ".out", timeout=20)
        os.unlink(p)
        if ok:
            os.unlink(p + ".out")
        elif not (b"support" in diag or b"must be at the beginning" in diag or b"Expected case" in diag):
            return None
        return ok
    acc = pmap(accepted, may)
    for c, a in zip(may, acc):
        if a is None:
            chk.violation("unexpected rejection", c.decl, {"p.c": PRELUDE + c.decl})
    ok = [c for c, a in zip(may, acc) if a]
    chk.extra["possibly_rejected_but_accepted"] = len(ok)
    cases = must + ok
    small = [c for c in cases if len(re.sub(r"M\d+_\d+: ", "", c.decl)) < 110]
    runs = [("sh", "dash", cases), ("sh-set", "dash", cases if not chk.quick else small)]
    runs += [("sh", s, small) for s in (("ksh", "bash", "yash") if chk.quick else ("ksh", "bash", "yash", "mksh", "zsh"))]
    for variant, shell, cs in runs:
        if shell not in SHELLS:
            continue
        r = Runner(variant, shell, PRELUDE, batch=max(40, min(300, len(cs) // 16)), render=render, timeout=30)
        t = time.time()
        r.check_all(cs)
        chk.traces += r.lines
        chk.extra["%s/%s" % (variant, shell)] = "%d programs, %.0f s" % (len(cs), time.time() - t)
        report(chk, r)
        if chk.violations:
            break
    for c in cases[:: max(1, len(cases) // 5)][:5]:
        chk.sample({"program": c.decl, "paths": len(c.expect), "expected": c.expect[0].decode()})
