"""Shell backend: function calls, locals and recursion."""
from core import *
from batch import *
from callgen import *
import callgen

INPUTS = [((1, 2), 0), ((0, 3), 1), ((2, 1), 2)]


def shapes(deep):
    for leaf, f0, vals in wide():
        yield leaf, f0, [(vals, 0), (vals, 2)]
    for leaf in leaf_library():
        for f0 in callers(leaf, deep):
            yield leaf, f0, INPUTS


def plan(deep):
    seen, out = set(), []
    for leaf, f0, inputs in shapes(deep):
        key = repr((leaf[1:], f0[1:]))
        if key not in seen:
            seen.add(key)
            out.append((leaf, f0, inputs))
    return out


def make(st, id, p, tail=b""):
    leaf, f0, inputs = p
    fns = {"f0": f0, "f1": leaf}
    calls, expect = [], []
    void = not any(returns(s) for s in f0[3])
    for args, fuel in inputs:
        args = args[:len(f0[1])]
        try:
            (r, a, b, g, ar), steps = callgen.run(fns, args, fuel)
        except UB:
            continue
        if r is None:
            continue
        st.transitions += steps
        st.nstates += 1
        calls.append("rs(%d); put(%d, f0_%d(%s));" % (fuel, id, id, ", ".join(map(str, args))))
        expect.append(("%d %d %d %d %d %d %d %d %d" % (id, r, a, b, g, *ar)).encode() + tail)
        st.outcomes.add(expect[-1].split(b" ", 1)[1])
    if calls:
        decl = "%s\n%s" % (ftext(leaf, id), ftext(f0, id))
        return Case(id, decl, calls, expect, decl)


def main(chk):
    chk.assumptions = ["programs whose result depends on C's unspecified evaluation order or on uninitialised locals are outside the alphabet"]
    q = chk.quick
    p = plan(not q)
    part = (lambda c: len(c.decl) < 135 or 'p1' in c.decl or 'v1' in c.decl) if q else None
    some = ("ksh", "bash") if q else ("ksh", "bash", "yash", "mksh", "zsh")
    runs = [("sh", "dash", None), ("sh-set", "dash", None), ("sh-release", "dash", None)]
    runs += [("sh", s, part) for s in some]
    runs += [("sh-set", s, part) for s in (("ksh",) if q else some)]
    sweep(chk, p, make, [(Runner(v, s, PRELUDE, batch=250, timeout=40), f) for v, s, f in runs])
    for e in p[:: max(1, len(p) // 5)][:5]:
        chk.sample({"leaf": repr(e[0]), "caller": repr(e[1]), "inputs": repr(e[2])})
