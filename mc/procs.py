"""Running one compiled program on many enumerated inputs, one process each."""
import multiprocessing, os, shutil
from concurrent.futures import ProcessPoolExecutor
from core import *


class Item:
    """One run: program key, stdin, arguments, files of its directory, expectations."""
    __slots__ = ("prog", "stdin", "args", "files", "out", "rc", "after", "desc", "tag")

    def __init__(self, prog, stdin=b"", args=(), files=None, out=b"", rc=0, after=None, desc="", tag=None):
        self.prog, self.stdin, self.args, self.files, self.out, self.rc, self.after, self.desc, self.tag = prog, stdin, args, files, out, rc, after, desc, tag


_exe = None
_proc = None


def runner():
    """The C helper that starts the programs, one per worker process."""
    global _proc
    if _proc is None or _proc[0] != os.getpid():
        p = subprocess.Popen([_exe, "PATH=" + BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        _proc = (os.getpid(), p)
        atexit.register(p.kill)
    return _proc[1]


def build_runner():
    global _exe
    if _exe is None:
        out = os.path.join(SCRATCH, "runner")
        subprocess.run(["gcc", "-O1", "-w", "-o", out, os.path.join(VERIF, "mc", "runner.c")], check=True)
        _exe = out


def u32(n):
    return n.to_bytes(4, "little")


def fstr(b):
    if isinstance(b, str):
        b = b.encode("latin1")
    return u32(len(b)) + b


def run_fast(cmd, stdin, timeout, cwd):
    p = runner()
    p.stdin.write(b"".join([u32(int(timeout * 1000)), u32(NOBODY if AS_ROOT else 0), fstr(cwd), u32(len(cmd))] + [fstr(c) for c in cmd] + [fstr(stdin)]))
    p.stdin.flush()
    f = p.stdout
    rc = int.from_bytes(f.read(4), "little", signed=True)
    out = f.read(int.from_bytes(f.read(4), "little"))
    err = f.read(int.from_bytes(f.read(4), "little"))
    return (None if rc == -1 else 1000 - rc if rc >= 1000 else rc), out, err


_dirs = {}


def run_item(it, exe, variant, shell, timeout):
    d = _dirs.get(os.getpid())
    if not d:
        d = _dirs[os.getpid()] = fresh_dir("it")
    made = it.files or it.after is not None
    try:
        for n, c in (it.files or {}).items():
            p = os.path.join(d, n)
            with open(p, "wb") as f:
                f.write(c)
            os.chmod(p, 0o666)
        cmd = [exe, *it.args] if is_native(variant) else [SHELLS[shell], exe, *it.args]
        rc, out, err = run_fast(cmd, it.stdin, timeout, d)
        after = None
        if it.after is not None:
            after = {}
            for n in os.listdir(d):
                with open(os.path.join(d, n), "rb") as f:
                    after[n] = f.read()
        return rc, out, err, after
    finally:
        if made:
            for n in os.listdir(d):
                os.unlink(os.path.join(d, n))


def verdict(it, r):
    rc, out, err, after = r
    if out != it.out:
        k = next((i for i, (a, b) in enumerate(zip(out, it.out)) if a != b), min(len(out), len(it.out)))
        return "output differs at byte %d: expected %r, observed %r; status %r, stderr %r" % (
            k, it.out[max(0, k - 20):k + 40], out[max(0, k - 20):k + 40], rc, err[-200:])
    if rc != it.rc:
        return "status %r instead of %r, stderr %r" % (rc, it.rc, err[-200:])
    if err:
        return "stderr %r" % err[-200:]
    if it.after is not None and after != it.after:
        return "files left: expected %r, observed %r" % (it.after, after)
    return None


def _part(args):
    i, n = args
    items, exes, targets, timeout, max_fail = _job
    done, fails, times = 0, [], []
    for ti, (variant, shell, filt) in enumerate(targets):
        nf, t0 = 0, time.time()
        n0 = done
        for k in range(i, len(items), n):
            it = items[k]
            if filt and not filt(it):
                continue
            exe = exes[it.prog, variant]
            v = verdict(it, run_item(it, exe, variant, shell, timeout))
            done += 1
            if v:
                v2 = verdict(it, run_item(it, exe, variant, shell, timeout))  # reported only if it happens again
                if v2:
                    fails.append((ti, k, v2))
                    nf += 1
                    if nf >= max_fail:
                        break
        times.append((done - n0, time.time() - t0))
    return done, fails, times


def sweep_items(chk, programs, items, targets, timeout=30, max_fail=2):
    """programs: key -> C text or function(variant) -> C text.
    targets: (variant, shell, filter).  Every item is run on every target."""
    global _job
    build_runner()
    targets = [t for t in targets if is_native(t[0]) or t[1] in SHELLS]
    variants = sorted({t[0] for t in targets})
    build_all(variants)
    exes, texts = {}, {}
    d = fresh_dir("exes")
    used = {it.prog for it in items}

    def comp(kv):
        key, v = kv
        text = programs[key](v) if callable(programs[key]) else programs[key]
        texts[kv] = text
        if text is None:
            return
        n = len(exes)
        src = os.path.join(d, "p%s_%s.c" % ("".join(c if c.isalnum() else "_" for c in str(key)), v))
        with open(src, "w", encoding="latin1", newline="") as f:
            f.write(text)
        out = src[:-2] + ".out"
        ok, diag = pnut_compile(v, src, out, cwd=d)
        if not ok:
            chk.violation("[%s] program %s is rejected" % (v, key), diag.decode("latin1"), {"p.c": text})
        exes[kv] = out
    pmap(comp, [(k, v) for k in used for v in variants])
    if chk.violations:
        return False
    _job = (items, exes, targets, timeout, max_fail)
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(_part, [(i, NCPU) for i in range(NCPU)]))
    fails = []
    for done, f, _ in res:
        chk.traces += done
        fails += f
    for i, (variant, shell, _) in enumerate(targets):
        chk.extra[variant if is_native(variant) else "%s/%s" % (variant, shell)] = "%d runs, %.0f s" % (
            sum(t[i][0] for _, _, t in res), max(t[i][1] for _, _, t in res))
    seen = {}
    for ti, k, v in sorted(fails, key=lambda x: (x[0], x[1])):
        variant, shell, _ = targets[ti]
        if seen.setdefault(ti, 0) >= 3:
            continue
        seen[ti] += 1
        it = items[k]
        fs = {"p.c": texts[it.prog, variant], "input": it.stdin, "expected": it.out}
        for n, c in (it.files or {}).items():
            fs["file-" + n.replace("/", "_")] = c
        chk.violation("[%s%s] %s: %s" % (variant, "" if is_native(variant) else "/" + shell, it.prog, it.desc or repr(it.stdin[:80])),
                      "%s\nargs %r; compile p.c with pnut built with %s, run the result%s with input as stdin" % (
                          v, it.args, " ".join(VARIANTS[variant]), "" if is_native(variant) else " with " + shell), fs)
    return not fails
