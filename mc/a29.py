"""Environments: generated programs do the same whatever variables they inherit, whatever
directory, path and options they are started with."""
import itertools, multiprocessing, re
from concurrent.futures import ProcessPoolExecutor
import a22, procs
from core import *

ENV = "/usr/bin/env"
# variables that mean something to shells or to the C library
SPECIAL = ["IFS", "LANG", "LC_CTYPE", "LC_NUMERIC", "POSIXLY_CORRECT", "ENV", "BASH_ENV", "PS1", "PS2", "PS4", "OPTIND", "OPTARG", "OPTERR", "RANDOM", "SECONDS", "LINENO", "PWD", "OLDPWD", "PPID", "HOME", "CDPATH",
           "MAIL", "MAILCHECK", "MAILPATH", "COLUMNS", "LINES", "HISTFILE", "HISTSIZE", "FCEDIT", "FPATH", "NULLCMD", "READNULLCMD", "KSH_VERSION", "BASH_VERSION", "ZSH_VERSION", "REPLY", "UID", "SHLVL", "TERM", "TMPDIR",
           "MALLOC_CHECK_", "GLOBIGNORE", "EXECIGNORE", "FUNCNEST", "INPUTRC", "BASH_COMPAT", "ZDOTDIR", "DIRSTACKSIZE", "WORDCHARS", "BAUD", "KEYTIMEOUT", "EXECSHELL", "PROMPT_COMMAND", "YASH_LOADPATH", "HANDLED", "COMMAND_NOT_FOUND_HANDLER"]
VALUES = ["", "7", "abc", "1 * 2", "0 1"]
LOCALES = [["LC_ALL=C.UTF-8"], ["LC_ALL=C"], ["LC_ALL=xx_YY"], ["LANG=C.UTF-8", "LC_CTYPE=C.UTF-8"]]
OPTIONS = [["-e"], ["-u"], ["-f"], ["-a"], ["-eu"], ["+e"], ["+u"]]
MKSH = ("OPTIND=", "COLUMNS=", "LINES=", "HISTSIZE=", "LINENO=", "SECONDS=", "RANDOM=")
IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")


def names(script):
    """Names that the script may use as variables: everything it names, but those that
    hold string literals and arrays initialized by strings (defstr): inheriting one of these is a
    known finding, which main replays."""
    return sorted(n for n in set(IDENT.findall(script)) - {"PATH", "LC_ALL"} - set(re.findall(r"defstr (\w+)", script)))


def plan(script, q, shell):
    """(environment, options of the shell, how it is started)"""
    ns = names(script)
    vals = VALUES[:3] if q else VALUES
    out = [([], [], h) for h in ("path", "relative", "space", "stdin", "unset", "here")]
    for i, n in enumerate(ns):
        for v in (vals[i % len(vals)],) if q and shell != "dash" else vals:
            out.append((["%s=%s" % (n, v)], [], "path"))
    for v in VALUES:
        out.append((["%s=%s" % (n, v) for n in ns], [], "path"))
        out.append((["_%d=%s" % (k, v) for k in range(400)], [], "path"))
        out.append((["%s%d=%s" % (p, k, v) for p in ("__t", "__g", "__fd", "__state_fd", "__buffer_fd", "__cursor_fd", "__SP", "_") for k in range(12)], [], "path"))
    for i, n in enumerate(SPECIAL):
        for v in (VALUES[i % 5],) if q and shell != "dash" else VALUES:
            out.append((["%s=%s" % (n, v)], [], "path"))
    out += [(l, [], "path") for l in LOCALES]
    out += [([], o, h) for o in OPTIONS for h in ("path", "relative")]
    if shell == "ksh":  # ksh gives these a meaning from their value before the script runs
        out = [x for x in out if not any(e.startswith(("FPATH=", "LINENO=", "SECONDS=", "RANDOM=", "OPTIND=")) for e in x[0])]
    if shell == "dash":  # sh: 0: Illegal number
        out = [x for x in out if not any(e.startswith("OPTIND=") for e in x[0])]
    if shell == "mksh":  # mksh evaluates these when it starts
        out = [x for x in out if not any(e.startswith(MKSH) for e in x[0])]
    if shell == "zsh":  # zsh stops when these are not numbers
        out = [x for x in out if not any(e.startswith(("FUNCNEST=",)) for e in x[0])]
    return out


def start(cmd, how, d, script):
    """Command, standard input, directory."""
    if how == "path":
        return cmd + [d + "/p.out"], a22.IN, d
    if how in ("relative", "unset", "here"):
        return cmd + [{"relative": "./p.out", "unset": "../" + os.path.basename(d) + "/p.out", "here": ".//p.out"}[how]], a22.IN, d
    if how == "space":
        return cmd + [d + "/a dir/p $x.out"], a22.IN, d
    return cmd, script.encode("latin1"), d  # the script is the standard input


def part(job):
    items, exe, variant, shell, q = job
    d = fresh_dir("env")
    os.chmod(d, 0o777)
    os.makedirs(d + "/a dir")
    os.chmod(d + "/a dir", 0o777)
    with open(d + "/in", "wb") as f:
        f.write(a22.IN)
    bad, runs, seen = [], 0, []
    for seq, main in items:
        text, out, st = a22.expand(seq, main, (), 0)
        with open(d + "/p.c", "w") as f:
            f.write(text)
        r = procs.run_fast([exe, "p.c"], b"", 20, d)
        if r[0] != 0:
            bad.append((seq, [], [], "", text, "rejected: %r" % r[1][-150:]))
            continue
        script = r[1].decode("latin1")
        for p in ("/p.out", "/a dir/p $x.out"):
            with open(d + p, "wb") as f:
                f.write(r[1])
        reads = bool({"getchar", "getline"} & set(seq))
        for env, opts, how in plan(script, q, shell):
            if how == "stdin" and reads:
                continue
            cmd, stdin, cwd = start([SHELLS[shell]] + opts, how, d, script)
            o = procs.run_fast(([ENV] + env if env else []) + cmd, stdin, 20, cwd)
            runs += 1
            seen.append(hash((seq, main, tuple(env), tuple(opts), how)))
            made = {}
            for i, x in enumerate(seq, 1):
                if x == "creat":
                    p = d + "/out%d" % i
                    made[i] = open(p, "rb").read() if os.path.exists(p) else None
                    if os.path.exists(p):
                        os.unlink(p)
            if o[:2] != (st, out) or any(c != b"data%d\n" % i for i, c in made.items()) or o[2] and not env:
                bad.append((seq, env, opts, how, text, "expected rc=%d %r\nobserved rc=%r %r %r" % (st, out, o[0], o[1][:200], o[2][:200])))
    return runs, bad, seen


def main(chk):
    q = chk.quick
    chk.assumptions = ["PATH leads to printf and [, standard output is open; variables that stop the shell itself before the script runs are left out"]
    procs.build_runner()
    keys = list(a22.F)
    items = [((k,), 0) for k in keys] + [((k,), 1) for k in ("str", "print", "read")]
    mix = [("getchar", "prints", "read"), ("fgetc", "creat", "printdyn"), ("rec", "local", "malloc"), ("chars", "esc", "fclose"), ("arr=", "glob", "write"), ("switch", "chr", "struct")]
    items += [(m, j % 2) for j, m in enumerate(mix)]
    if not q:
        items += [((a, b), 0) for a in keys for b in ("fgetc", "read", "rec", "esc") if a != b]
    jobs = []
    build_all(["sh", "sh-init"])
    for v, s in [("sh", s) for s in SHELLS] + [("sh-init", "dash")] + ([] if q else [("sh-init", "bash")]):
        if s not in SHELLS:
            continue
        its = [x for x in items if s == "dash" or len(x[0]) == 1 or not q]
        if q and s != "dash":
            its = its[::2] + items[-len(mix):][::3]
        jobs += [([it], build(v), v, s, q) for it in its]
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    for k in chk.known:
        d = fresh_dir("env-known")
        os.chmod(d, 0o777)
        with open(d + "/p.c", "w") as f:
            f.write(k["program"])
        with open(d + "/p.out", "wb") as f:
            f.write(procs.run_fast([build(k["variant"]), "p.c"], b"", 20, d)[1])
        o = procs.run_fast([ENV] + k["env"] + [SHELLS[k["shell"]]] + [d + "/p.out"], b"", 20, d)
        k["_result"] = [o[0], o[1].decode("latin1")] != k["right"]
    shown = {}
    for (its, exe, v, s, _), (n, bad, seen) in zip(jobs, res):
        chk.traces += n
        chk.transitions += n
        for x in seen:
            chk.state((x, v, s))
        chk.extra["%s/%s" % (v, s)] = chk.extra.get("%s/%s" % (v, s), 0) + n
        for seq, env, opts, how, text, why in bad:
            shown[s] = shown.get(s, 0) + 1
            if shown[s] <= 6:
                chk.violation("[%s/%s] program %s started with %s %s %s" % (v, s, "+".join(seq), " ".join(env)[:60] or "no variables", " ".join(opts), how), why, {"p.c": text})
    chk.sample({"shell": "dash", "environments of one program": len(plan("", q, "dash"))})
