"""Shared machinery: building pnut from /repo, running generated programs
safely, evidence, known findings and violation reporting."""
import atexit, json, os, resource, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PNUT_REPO", "/repo")
EVID = os.environ.get("PNUT_EVIDENCE") or os.path.join(VERIF, "evidence")
NCPU = os.cpu_count() or 8
T0 = time.time()

SCRATCH = tempfile.mkdtemp(prefix="pnutmc.")
os.chmod(SCRATCH, 0o755)
_owner = os.getpid()

def _cleanup():
    if os.getpid() == _owner:
        shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_cleanup)

# Generated programs run with this PATH only: pnut's scripts need nothing but
# builtins, except printf in shells that do not have it builtin.  A script that
# was miscompiled can therefore not reach rm and friends.
BIN = os.path.join(SCRATCH, "bin")
os.mkdir(BIN)
for tool in ("printf", "["):
    os.symlink(shutil.which(tool) or "/usr/bin/" + tool, os.path.join(BIN, tool))

NOBODY = 65534
AS_ROOT = os.geteuid() == 0

SHELLS = {s: shutil.which(s) for s in ("dash", "bash", "ksh", "mksh", "yash", "zsh")}
SHELLS = {k: v for k, v in SHELLS.items() if v}


class Crash(Exception):
    pass


def run(cmd, stdin=b"", timeout=60, cwd=None, env=None, unpriv=True, fsize=64 << 20):
    """Run a generated program. Returns (rc, stdout, stderr); rc None = timeout."""
    e = {"PATH": BIN, "LC_ALL": "C", "HOME": "/nonexistent", "_": "/usr/bin/env"}
    if env:
        e.update(env)
    kw = {}
    if unpriv and AS_ROOT:
        kw.update(user=NOBODY, group=NOBODY, extra_groups=[])

    for attempt in range(200):
        try:
            p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                 cwd=cwd or SCRATCH, env=e, start_new_session=True, **kw)
            break
        except OSError as ex:
            # a program another thread's fork still holds open for writing
            if ex.errno != 26 or attempt == 199:
                raise
            time.sleep(0.02)
    try:
        resource.prlimit(p.pid, resource.RLIMIT_FSIZE, (fsize, fsize))
        resource.prlimit(p.pid, resource.RLIMIT_CORE, (0, 0))
    except (ProcessLookupError, PermissionError):
        pass
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return None, out, err


# ---------------------------------------------------------------- building

VARIANTS = {
    "sh": ["-Dsh", "-DRT_NO_INIT_GLOBALS"],
    "sh-release": ["-DRELEASE_PNUT_SH"],
    "sh-set": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DSH_SAVE_VARS_WITH_SET"],
    "sh-init": ["-Dsh"],
    "sh-compact": ["-DRELEASE_PNUT_SH", "-DRT_COMPACT"],
    "sh-printf": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DSH_AVOID_PRINTF_USE_NOT"],
    "sh-nofree": ["-Dsh", "-DRT_NO_INIT_GLOBALS", "-DRT_FREE_UNSETS_VARS_NOT"],
    "sh-safe": ["-DRELEASE_PNUT_SH", "-DSAFE_MODE"],
    "i386": ["-Dtarget_i386_linux"],
    "x86_64": ["-Dtarget_x86_64_linux"],
    "i386-release": ["-DRELEASE_PNUT_i386_linux"],
    "x86_64-release": ["-DRELEASE_PNUT_x86_64_linux"],
    "i386-safe": ["-Dtarget_i386_linux", "-DSAFE_MODE"],
    "x86_64-safe": ["-Dtarget_x86_64_linux", "-DSAFE_MODE"],
}
_built = {}
_locks = {}
_locks_lock = threading.Lock()


def build(variant, extra=()):
    key = (variant,) + tuple(extra)
    with _locks_lock:
        lock = _locks.setdefault(key, threading.Lock())
    with lock:
        return _build(key, variant, extra)


def _build(key, variant, extra):
    if key in _built:
        return _built[key]
    out = os.path.join(SCRATCH, "pnut-" + variant + "".join("_" + "".join(c if c.isalnum() else "_" for c in x) for x in extra))
    cmd = ["gcc", "-O1", "-w", "-o", out, *VARIANTS[variant], *extra, os.path.join(REPO, "pnut.c")]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=REPO)
    if p.returncode:
        sys.stdout.write(p.stdout.decode("latin1")[-3000:])
        raise SystemExit("cannot build pnut variant %s" % variant)
    os.chmod(out, 0o755)
    _built[key] = out
    return out


def build_all(variants):
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(build, variants))


def fresh_dir(name):
    d = tempfile.mkdtemp(prefix=name + ".", dir=SCRATCH)
    os.chmod(d, 0o777)
    return d


def pnut_compile(variant, src, out, opts=(), timeout=120, cwd=None):
    """Compile src (a path). Returns (ok, diagnostics)."""
    exe = build(variant)
    rc, o, err = run([exe, *opts, src], timeout=timeout, cwd=cwd, unpriv=False, fsize=512 << 20)
    if rc == 0:
        with open(out, "wb") as f:
            f.write(o)
        os.chmod(out, 0o755)
        return True, b""
    return False, o[-400:] + err[-400:] + (b" rc=%s" % str(rc).encode())


def is_native(variant):
    return variant.startswith(("i386", "x86_64"))


def compile_run(variant, text, shell="dash", stdin=b"", timeout=60, opts=(), args=(), cwd=None, keep=None):
    """Compile C text with a pnut variant and run it.
    Returns ('compile', diag) or ('run', rc, out, err)."""
    d = keep or fresh_dir("cr")
    src = os.path.join(d, "p.c")
    with open(src, "wb") as f:
        f.write(text if isinstance(text, bytes) else text.encode("latin1"))
    out = os.path.join(d, "p.out")
    ok, diag = pnut_compile(variant, src, out, opts, cwd=d)
    try:
        if not ok:
            return ("compile", diag)
        cmd = [out, *args] if is_native(variant) else [SHELLS[shell], out, *args]
        rc, o, e = run(cmd, stdin=stdin, timeout=timeout, cwd=cwd or d)
        return ("run", rc, o, e)
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def gcc_run(text, stdin=b"", timeout=60, args=(), flags=(), cwd=None):
    d = fresh_dir("gcc")
    try:
        src = os.path.join(d, "p.c")
        with open(src, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("latin1"))
        out = os.path.join(d, "p.out")
        p = subprocess.run(["gcc", "-w", "-O0", "-fwrapv", "-funsigned-char" if "uchar" in flags else "-fsigned-char",
                            *[f for f in flags if f.startswith("-")], "-o", out, src],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            return ("compile", p.stdout)
        rc, o, e = run([out, *args], stdin=stdin, timeout=timeout, cwd=cwd or d)
        return ("run", rc, o, e)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or NCPU) as ex:
        return list(ex.map(fn, items))


# ---------------------------------------------------------------- reporting

class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []
        self.outcomes = set()
        self.exhaustive = True
        self.known = load_known(prop)
        self.quick = tier == "quick"

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def state(self, key):
        self.states.add(hash(key))

    def violation(self, title, detail, files=None):
        """Record a violation (already replayed by the caller)."""
        n = len(self.violations)
        d = os.path.join(EVID, "replay", "%s-%d" % (self.prop, n))
        if n < 20:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "README"), "w") as f:
                f.write(title + "\n\n" + detail + "\n")
            for name, data in (files or {}).items():
                with open(os.path.join(d, name), "wb") as f:
                    f.write(data if isinstance(data, bytes) else data.encode("latin1", "replace"))
        self.violations.append((title, d))
        if n < 5:
            print("--- %s\n%s" % (title, detail[:2000]))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
            sys.stdout.flush()

    def finish(self):
        for line in self.known_lines():
            print(line)
        cov = {}
        if self.level == "model_checking":
            cov.update(states=len(self.states) + self.nstates, transitions=self.transitions,
                       traces_validated_against_impl=self.traces)
        else:
            cov.update(evaluations=self.traces, distinct_nontrivial=len(self.states) + self.nstates)
        cov["samples"] = self.samples
        cov["distinct_outcomes"] = len(self.outcomes)
        cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - T0, 2), "violations": len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: states=%d transitions=%d traces=%d outcomes=%d violations=%d wall=%.1fs" % (
            self.prop, self.tier, len(self.states) + self.nstates, self.transitions, self.traces,
            len(self.outcomes), len(self.violations), time.time() - T0))
        sys.stdout.flush()
        return 1 if self.violations else 0

    def replay_known(self):
        """Run every listed finding (a specific program): a KNOWN-FINDING line if
        it still fails, nothing if it does not."""
        def one(k):
            if "env" in k:  # A29 runs these
                return None
            if k.get("shell", "dash") not in SHELLS and not is_native(k["variant"]):
                return None
            return compile_run(k["variant"], k["program"], k.get("shell", "dash"), stdin=k.get("stdin", "").encode("latin1"),
                               opts=k.get("opts", ()), args=k.get("args", ()), timeout=20)
        for k, r in zip(self.known, pmap(one, self.known)):
            if r is None:
                continue
            self.traces += 1
            obs = known_obs(r)
            if obs == k["right"]:
                continue
            k["_result"] = True

    # Known findings: each entry is a concrete program/history with the wrong
    # outcome it produces today.  The check replays it; a listed failure is
    # printed as KNOWN-FINDING, and everything else stays a violation.
    def known_lines(self):
        out = []
        for k in self.known:
            r = k.get("_result")
            if r:
                out.append("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        return out


def known_obs(r):
    if r[0] == "compile":
        return "compile error"
    if r[1] is None:
        return "timeout"
    if r[3]:
        return "rc=%s stderr" % r[1]
    return "rc=%s %s" % (r[1], r[2].decode("latin1"))


def load_known(prop):
    path = os.path.join(VERIF, "known-findings.jsonl")
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                k = json.loads(line)
                if k["property"] == prop:
                    res.append(k)
    return res
