"""Rewrites known-macros.txt, the list of macro uses pnut is known to expand
wrongly (see DESIGN.md, A11). Run by hand only, never by a check."""
import os, sys
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mc"))
import a11, a13, core
core.VARIANTS["tokenizer"] = ["-DDEBUG_CPP"]


def part(a):
    quick, k, n = a
    t = a11.Mtok((), False)
    t.limit = 1 << 30
    cs = []
    for i, ls in enumerate(a11.families(quick)):
        if i % n == k:
            cs += [c for c in map(a11.case, a11.split(ls)) if c]
    for j in range(0, len(cs), 500):
        t.check(cs[j:j + 500])
    return [(a11.key(c), a11.obs_key(t.single(c)), c[0].replace("\n", " / ")) for c, _ in t.fail if t.single(c) is not None]


if __name__ == "__main__":
    core.build("tokenizer", ())
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as ex:
        l = {r for q in (True, False) for x in ex.map(part, [(q, k, 64) for k in range(64)]) for r in x}
    with open(a11.KNOWN, "w") as f:
        f.write("# case, observed expansion, text: macro uses that pnut expands wrongly (classes described in DESIGN.md, A11)\n")
        for r in sorted(l):
            f.write(" ".join(r) + "\n")
    print(len(l))
