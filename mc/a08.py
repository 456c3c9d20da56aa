"""printf in shell output: every conversion, flag, width, precision, alone and in sequence,
with the format known at compile time and at run time."""
import itertools
from core import *
from batch import *

SH = 'int gcnt;\nint id(int x) { gcnt = gcnt + 1; return x; }\nchar *sid(char *s) { gcnt = gcnt + 1; return s; }\n'
STR = ["", "a", "abc", "a b", "%d", "x\ny", "-n", "\\\\n", "long string value"]
STRV = [s.replace("\\\\", "\\") for s in STR]
INTS = [0, 1, -1, 7, -42, 255, 123456, -2147483647, 2147483647]
WIDTHS = [None, "1", "2", "3", "12", "*5", "*-6", "*0"]
PRECS = [None, ".1", ".2", ".4", ".*3", ".*0"]
CONVS = "diuoxXcs"


def pad(s, flags, width, zero=False):
    if len(s) >= width:
        return s
    if "-" in flags:
        return s.ljust(width)
    if zero:
        n = 0
        if s[:1] and s[0] in "+- ":
            n = 1
        if s[n:n + 2] in ("0x", "0X"):
            n += 2
        return s[:n] + "0" * (width - len(s)) + s[n:]
    return s.rjust(width)


def conv(flags, width, prec, c, arg):
    if width < 0:
        flags, width = flags + "-", -width
    if c == "%":
        return "%"
    if c == "c":
        return pad(chr(arg & 255), flags, width)
    if c == "s":
        return pad(arg if prec is None else arg[:prec], flags, width)
    if c in "di":
        s, sign = str(abs(arg)), "-" if arg < 0 else "+" if "+" in flags else " " if " " in flags else ""
    else:
        s, sign = {"u": "%d", "o": "%o", "x": "%x", "X": "%X"}[c] % arg, ""
    if prec is not None:
        s = "" if prec == 0 and arg == 0 else s.zfill(prec)
    if "#" in flags:
        if c == "o" and s[:1] != "0":
            s = "0" + s
        if c in "xX" and arg:
            s = "0" + c + s
    return pad(sign + s, flags, width, "0" in flags and prec is None)


# a spec: (flags, width, precision, length, conversion)
def spec_text(sp):
    f, w, p, l, c = sp
    return "%" + f + ((w[0] if w[0] == "*" else w) if w else "") + ((p[:2] if p[1] == "*" else p) if p else "") + l + c


def spec_ok(sp, dyn):
    f, w, p, l, c = sp
    if c == "c":
        if p or set(f) - {"-"} or (w and not dyn) or (f and not w) or w == "*-6":
            return False
    if c == "s" and set(f) - {"-"}:
        return False
    if c in "diu" and "#" in f or c in "uoxX" and (set(f) & set("+ ")):
        return False
    if dyn and l:
        return False  # rejected at run time
    if "0" in f and "-" in f or "+" in f and " " in f:
        return False  # one is ignored
    return True


def eval_spec(sp, arg):
    f, w, p, l, c = sp
    return conv(f, 0 if not w else int(w.lstrip("*")), None if not p else int(p.lstrip(".*")), c, arg)


def args_of(sp):
    c = sp[4]
    if c == "s":
        return range(len(STR))
    if c == "c":
        return (0, 10, 65, 127, 32, 37, 92)
    return INTS if c in "di" and not sp[3] else [x for x in INTS if x >= 0]


def specs(full):
    flags = [""] + ["-", "0", "+", " ", "#", "#0", "+0", " 0", "+-", "-#", "0#", "0+"]
    for c in CONVS:
        for f in flags:
            for w in WIDTHS:
                for p in PRECS:
                    for l in ("",):
                        yield (f, w, p, l, c)


def stars(sp):
    return [w.lstrip(".*") for w in sp[1:3] if w and "*" in w]


def clit(s):
    return s.replace("\n", "\\n")


def case(st, id, p, ret=False):
    """A sequence of literal text and specs, printed with several argument tuples."""
    dyn, items, tuples = p
    specs_ = [x for x in items if not isinstance(x, str)]
    fmt = "".join(x if isinstance(x, str) else spec_text(x) for x in items)
    calls, exp = [], []
    body = []
    for t in tuples:
        args = []
        for sp, a in zip(specs_, t):
            args += stars(sp)
            args.append(('"%s"' % clit(STR[a]) if dyn != "call" else 'sid("%s")' % clit(STR[a])) if sp[4] == "s" else
                        "id(%d)" % a if dyn == "call" else str(a))
        it = iter(zip(specs_, t))
        out = ""
        for x in items:
            if isinstance(x, str):
                out += x.replace("%%", "%").replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\").replace('\\"', '"')
            else:
                a = next(it)[1]
                out += eval_spec(x, STRV[a] if x[4] == "s" else a)
        st.nstates += 1
        st.transitions += len(items)
        st.outcomes.add(out)
        f = '"%s\\n"' % fmt
        if dyn == "var":
            body.append("f = %s; printf(%s);" % (f, ", ".join(["f"] + args)))
        else:
            body.append("printf(%s);" % ", ".join([f] + args))
        exp += (out + "\n").encode("latin1").split(b"\n")[:-1]
    decl = "void k%d() { char *f; %s }" % (id, " ".join(body))
    c = Case(id, decl, ["k%d();" % id], exp, "printf %s (%s)" % (fmt, dyn))
    # combinations on which the printf of some shells departs from POSIX
    c.ctx = any(("0" in f and p) or (w and w[0] == "*") or (p and p[1] == "*") or "#" in f for f, w, p, l, k in specs_)
    return c


TEXTS = ["", "a", "%%", "-", "\\n", "\\\\", '\\"', " ", "$x`'", "\\t", "7"]


def plans(chk):
    out = []
    dyns = ("lit", "var", "call")
    for sp in specs(True):
        for dyn in dyns[:2]:
            if spec_ok(sp, dyn == "var"):
                out.append((dyn, (sp,), [(a,) for a in args_of(sp)]))
    few = [("", None, None, "", c) for c in CONVS] + [("-", "3", None, "", "d"), ("0", "3", None, "", "x"), ("", "*5", None, "", "d"), ("", "3", None, "", "s"), ("", None, ".*3", "", "s"), ("", "12", ".4", "", "d")]
    ex = lambda sp: list(args_of(sp))[1:3]
    for dyn in dyns:
        ok = [sp for sp in few if spec_ok(sp, dyn == "var")]
        for a in TEXTS:
            for s in ok:
                for b in TEXTS:
                    out.append((dyn, (a, s, b), [(x,) for x in ex(s)]))
        for s, t in itertools.product(ok, ok):
            for m in ("", " ", "%%", "\\n", "x"):
                out.append((dyn, (s, m, t), [(ex(s)[0], ex(t)[1])]))
            if not chk.quick or dyn == "lit":
                for u in ok:
                    out.append((dyn, (s, t, u), [(ex(s)[0], ex(t)[1], ex(u)[0])]))
                    out.append((dyn, (s, ",", t, "-", u, "."), [(ex(s)[1], ex(t)[0], ex(u)[1])]))
    return out


def main(chk):
    chk.assumptions = ["conversions of negative values with u, o, x, X are not part of the space (ints are as wide as the shell's)",
                       "accepted formats only: a width on %c and a precision starting with 0 are rejected at compile time",
                       "the length modifiers l and ll, the value printf returns and trailing newlines of %s with a width are known findings"]
    plan = plans(chk)
    chk.extra["formats"] = len(plan)
    shells = [("sh", "dash"), ("sh", "bash")] if chk.quick else [("sh", s) for s in SHELLS] + [("sh-printf", "dash"), ("sh-release", "bash"), ("sh-compact", "dash")]
    runs = []
    for v, s in shells:
        filt = (lambda c: c.id % 4 == 1) if chk.quick and s != "dash" else None
        if s not in ("dash", "bash"):
            filt = lambda c: not c.ctx
        runs.append((Runner(v, s, SH, batch=150, timeout=60), filt))
    sweep(chk, plan, case, runs)
    for p in plan[:: max(1, len(plan) // 5)][:5]:
        chk.sample(p[0] + " " + "".join(x if isinstance(x, str) else spec_text(x) for x in p[1]))
