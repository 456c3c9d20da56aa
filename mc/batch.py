"""Running many enumerated cases in one generated program, isolating failures."""
import os, shutil, subprocess, time
from core import *


class Case:
    """One enumerated case. decl: C text of the functions it defines;
    calls: list of C call statements (one output line each);
    expect: list of expected output lines (bytes, without id)."""
    __slots__ = ("id", "decl", "calls", "expect", "desc", "ctx", "tree", "level")

    def __init__(self, id, decl, calls, expect, desc):
        self.id, self.decl, self.calls, self.expect, self.desc = id, decl, calls, expect, desc


def program(prelude, cases, postlude="", chunk=200):
    """Each output line is produced by the case itself as '<id>.<n> ...\\n'."""
    parts = [prelude]
    mains = []
    for i in range(0, len(cases), chunk):
        body = []
        for c in cases[i:i + chunk]:
            parts.append(c.decl)
            body.extend(c.calls)
        parts.append("void chunk%d() {\n%s\n}\n" % (i // chunk, "\n".join(body)))
        mains.append("chunk%d();" % (i // chunk))
    parts.append("int main() {\n%s\nreturn 0;\n}\n" % "\n".join(mains))
    return "\n".join(parts)


class Runner:
    """Compiles and runs batches on one (variant, shell) and reports failing cases."""

    def __init__(self, variant, shell, prelude, batch=400, timeout=60, max_fail=6, render=None, stdin=b""):
        self.variant, self.shell, self.prelude = variant, shell, prelude
        self.batch, self.timeout, self.max_fail = batch, timeout, max_fail
        self.render = render or program
        self.fail = []
        self.ran = 0
        self.lines = 0
        self.stdin = stdin

    def run_cases(self, cases, solo=False):
        """Returns None if all fine, else list of (case, observed)."""
        text = self.render(self.prelude, cases)
        r = compile_run(self.variant, text, self.shell, timeout=(self.timeout if len(cases) > 1 or len(cases[0].expect) > 200 else min(self.timeout, 12)), stdin=self.stdin)
        if r[0] == "compile":
            return "compile", r[1], None
        _, rc, out, err = r
        got = out.split(b"\n")
        return "run", got, (rc, err)

    def check(self, cases, depth=0):
        """Check a list of cases; appends to self.fail."""
        if len(self.fail) >= self.max_fail or not cases:
            return
        kind, got, st = self.run_cases(cases, solo=len(cases) == 1)
        if kind == "compile":
            if len(cases) == 1:
                self.fail.append((cases[0], "compile error: " + got.decode("latin1")))
                return
            m = len(cases) // 2
            self.check(cases[:m])
            self.check(cases[m:])
            return
        pos = 0
        for ci, c in enumerate(cases):
            n = len(c.expect)
            seg = got[pos:pos + n]
            if seg == c.expect:
                pos += n
                continue
            # first divergence: this case is suspect; confirm it alone, then
            # continue with the rest in a fresh program
            if len(cases) == 1:
                self.fail.append((c, "observed %r rc=%r stderr=%r" % (got[:n + 1], st[0], st[1][-200:])))
                return
            before = len(self.fail)
            self.check([c])
            if len(self.fail) == before and pos == 0 and ci == 0 and depth > 3:
                self.fail.append((c, "fails only inside a batch: observed %r rc=%r %r" % (seg, st[0], st[1][-200:])))
            elif len(self.fail) == before and depth <= 3:
                # passes alone: interference with what ran before it
                if ci:
                    self.fail_batch(cases[:ci + 1], got, st)
                    return
            self.check(cases[ci + 1:], depth + 1)
            return
        if (st[0] not in (0,)) or got[pos:] not in ([b""], []):
            if len(cases) == 1:
                self.fail.append((cases[0], "extra output or status: %r rc=%r %r" % (got[pos:], st[0], st[1][-200:])))
            else:
                m = len(cases) // 2
                b = len(self.fail)
                self.check(cases[:m])
                self.check(cases[m:])
                if len(self.fail) == b:
                    self.fail_batch(cases, got, st)
            return
        self.ran += len(cases)
        self.lines += pos

    def fail_batch(self, cases, got, st):
        c = Case(cases[-1].id, "\n".join(x.decl for x in cases), [k for x in cases for k in x.calls],
                 [e for x in cases for e in x.expect], "history of %d cases ending in: %s" % (len(cases), cases[-1].desc))
        r = self.run_cases([c], solo=True)
        if r[0] == "run" and r[1][:len(c.expect)] == c.expect:
            return  # not reproducible: not reported
        self.fail.append((c, "observed tail %r %r" % (got[-3:], st)))

    def check_all(self, cases, workers=None):
        import random
        batches = [cases[i:i + self.batch] for i in range(0, len(cases), self.batch)]
        pmap(self.check, batches, workers)
        return self.fail


def report(chk, runner, oracle_note="", gcc=True):
    """Report the failures of a runner, each replayed alone."""
    gcc = gcc and getattr(runner, "gcc", True)
    for c, obs in runner.fail:
        text = runner.render(runner.prelude, [c])
        if gcc is True and not oracle_note and not runner.variant.startswith("i386"):  # gcc has other sizes than i386
            r = gcc_run("#define GCC_REF\n#include <stdio.h>\n#include <stdlib.h>\n#include <unistd.h>\n" + text)
            if r[0] == "run" and r[2].split(b"\n")[:len(c.expect)] != c.expect:
                raise SystemExit("internal: reference model disagrees with gcc on %s: %r vs %r" % (c.desc, r[2], c.expect))
        how = ("compile p.c with pnut built with %s, run the result%s; expected output in expected.txt" % (
            " ".join(VARIANTS[runner.variant]), "" if is_native(runner.variant) else " with " + runner.shell))
        chk.violation("[%s%s] %s" % (runner.variant, "" if is_native(runner.variant) else "/" + runner.shell, c.desc),
                      "expected %r\n%s\n%s" % (c.expect[:6], obs, how),
                      {"p.c": text, "expected.txt": b"\n".join(c.expect) + b"\n"})


# Output for native programs (pnut's native backends have no printf).
NATIVE_IO = """
char ob_[4000]; int on_;
void oc(int c) { ob_[on_] = c; on_ = on_ + 1; }
void pd(int v) {
  char t[24]; int n;
  n = 0;
  if (v < 0) oc('-');
  if (v > 0) v = 0 - v;
  while (n == 0 || v < 0) { t[n] = '0' - v % 10; v = v / 10; n = n + 1; }
  while (n > 0) { n = n - 1; oc(t[n]); }
}
void ps(int v) { pd(v); oc(' '); }
void nl() { on_ = on_ - 1; oc(10); write(1, ob_, on_); on_ = 0; }
"""


class Stats:
    """What one worker process covered; merged into the Check by sweep()."""

    def __init__(self):
        self.nstates = self.transitions = self.traces = self.programs = 0
        self.outcomes, self.extra, self.samples = set(), {}, []

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


def _sweep_part(plan, i, n, make, runs):
    st = Stats()
    cases = []
    for k in range(i, len(plan), n):
        c = make(st, k + 1, plan[k])
        if c:
            cases.append(c)
    st.programs = len(cases)
    out = []
    for r, filt in runs:
        cs = [c for c in cases if filt(c)] if filt else cases
        t = time.time()
        for b in range(0, len(cs), r.batch):
            r.check(cs[b:b + r.batch])
            if len(r.fail) >= r.max_fail:
                break
        st.traces += r.lines
        out.append((len(cs), time.time() - t, r.fail))
        if r.fail and getattr(r, "stop", True):
            break
    return st, out


def sweep(chk, plan, make, runs, parts=None):
    """Generate the cases of every plan entry with make(stats, id, entry), run
    them on every (Runner, filter) of runs, in one process per core."""
    import multiprocessing
    from concurrent.futures import ProcessPoolExecutor
    parts = parts or NCPU
    runs = [(r, f) for r, f in runs if is_native(r.variant) or r.shell in SHELLS]
    build_all(sorted({r.variant for r, _ in runs}))
    global _job
    _job = (plan, make, runs)
    with ProcessPoolExecutor(parts, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(_sweep_run, range(parts), [parts] * parts))
    programs = 0
    for st, out in res:
        chk.nstates += st.nstates
        chk.transitions += st.transitions
        chk.traces += st.traces
        chk.outcomes |= st.outcomes
        programs += st.programs
        for k, v in st.extra.items():
            chk.extra[k] = chk.extra.get(k, 0) + v
        for s in st.samples:
            chk.sample(s)
    chk.extra["programs"] = chk.extra.get("programs", 0) + programs
    for j, (r, _) in enumerate(runs):
        rs = [o[j] for _, o in res if j < len(o)]
        key = r.variant if is_native(r.variant) else "%s/%s" % (r.variant, r.shell)
        chk.extra[key] = "%d programs, %.0f s" % (sum(x[0] for x in rs), max((x[1] for x in rs), default=0))
        r.fail = [f for x in rs for f in x[2]][:8]
        report(chk, r)
    return not chk.violations


def _sweep_run(i, n):
    plan, make, runs = _job
    return _sweep_part(plan, i, n, make, runs)
