"""Native backends: control flow, including fallthrough, goto and scopes."""
import re
from core import *
from batch import *
from stmtgen import *
import a02


def wellformed(l):
    """Every label defined exactly once and used, every goto has a label."""
    ls = [x for s in l for x in labels(s)]
    gs = [x for s in l for x in gotos(s)]
    return len(ls) == len(set(ls)) and set(ls) == set(gs) and ls == sorted(ls)


def case_labels(s):
    """(switch, label) pairs of case labels of s, None if one is repeated."""
    out = []

    def walk(x, sw):
        if x[0] == "lab":
            out.append((sw, x[1]))
            walk(x[2], sw)
        elif x[0] == "blk":
            for y in x[1]:
                walk(y, sw)
        elif x[0] == "du":
            walk(x[1], sw + (len(out),))
        elif x[0] not in ("t", "b", "v", "c"):
            for y in x[1:]:
                walk(y, sw)
    walk(s, ())
    return out


def plans(deep):
    full = Gen("tbcr", ("if", "ife", "wh", "do", "for", "sw"), shapes=SW_SHAPES + SW_SHAPES3)
    for n in range(1, 5):
        for l in full.lists(n, False, False):
            yield l, n % 2, 0
            if n < 4:
                yield l, (n + 1) % 2, 2
    scopes = Gen("tvbcr", ("wh", "do", "for", "sw", "if"), shapes=SW_SHAPES[2:] + SW_SHAPES3, blocks=True)
    for n in range(2, 6 if deep else 5):
        for l in scopes.lists(n, False, False):
            if any("v" in repr(s) for s in l):
                yield l, 0, 2
    loopy = Gen("tbc", ("if", "ife", "wh", "do", "for", "fe", "fc"))
    for n in range(4, 7 if deep else 6):
        for l in loopy.lists(n, False, False):
            yield l, 0, 0
    swc = Gen("tb", ("sw",), shapes=SW_SHAPES3 + SW_SHAPES)
    for n in range(4, 8 if deep else 7):
        for l in swc.lists(n, False, False):
            yield l, 0, 0
    # case labels inside nested statements of the switch body
    duff = Gen("tbv", ("if", "ife", "wh", "do", "du"), labs=3)
    for n in range(4, 8 if deep else 7):
        for s in duff.stmt(n - 1, False, False) if n > 5 else [("du", x) for x in duff.body(n - 1, False, True)]:
            ls = case_labels(s)
            if s[0] == "du" and ls and len(ls) == len(set(ls)):
                yield (s,), 0, 2
    g1 = Gen("tvb", ("if", "ife", "wh", "do", "for", "sw"), gotos=1, shapes=SW_SHAPES[2:5])
    for n in range(2, 7 if deep else 6):
        for l in g1.lists(n, False, False):
            if wellformed(l):
                yield l, 0, 2
    g2 = Gen("tv", ("if", "wh"), gotos=2)
    for n in range(4, 8 if deep else 7):
        for l in g2.lists(n, False, False):
            if wellformed(l):
                yield l, 0, 0


NPRE = NATIVE_IO + PRELUDE[:PRELUDE.index("void put")] + """
void put(int id, int r, int x) { ps(id); ps(r); ps(x); ps(tr); ps(ch); nl(); }
"""


def main(chk):
    depth = 5 if chk.quick else 7
    chk.assumptions = ["i386 and x86_64 Linux targets (executables run natively)"]
    plan = list(dict.fromkeys(plans(not chk.quick)))

    def make(st, id, e):
        c = a02.make(st, id, *e, depth, maxpaths=32)
        if c and id % 20011 == 7:
            st.sample({"program": c.decl, "paths": len(c.expect), "expected": c.expect[0].decode()})
        return c
    sweep(chk, plan, make, [(Runner(v, "native", NPRE, batch=400, render=a02.render, timeout=40), None)
                            for v in (("i386", "x86_64") if chk.quick else ("i386", "x86_64", "i386-release", "x86_64-release"))])
