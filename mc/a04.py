"""String and character literals: every byte and escape, alone and next to the others."""
import itertools
from core import *
from batch import *

SIMPLE = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, "'": 39, '"': 34}
HEXD = "0123456789abcdefABCDEF"


def elements():
    """Every way of writing one byte: (source text, value, kind)."""
    out = []
    for b in range(1, 256):
        if b in (10, 34, 92, 13):
            continue
        out.append((chr(b), b, "raw"))
    for k, v in SIMPLE.items():
        out.append(("\\" + k, v, "esc"))
    for n in (1, 2, 3):
        for v in range(min(256, 8 ** n)):
            out.append(("\\" + ("%o" % v).zfill(n), v, "o%d" % n))
    for n in (1, 2):
        for v in range(16 ** n):
            for f in ("%x", "%X"):
                t = (f % v).zfill(n)
                out.append(("\\x" + t, v, "x"))
    out += [("\\x" + ("%x" % v).zfill(3), v, "x") for v in (0, 1, 9, 65, 160, 255)]
    return list(dict.fromkeys(out))


def valid(seq):
    """The elements keep their meaning when written next to each other."""
    for a, b in zip(seq, seq[1:]):
        if a[2] == "x" and b[0][0] in HEXD:
            return False
        if a[2] in ("o1", "o2") and b[0][0] in "01234567":
            return False
        if a[0] == "/" and b[0] in "/*":
            pass
    t = "".join(x[0] for x in seq)
    return "??" not in t  # trigraphs


def sgn(v, native):
    return v - 256 if native and v > 127 else v


def show(vals):
    return " ".join(map(str, vals)).encode()


def case(st, id, p, native):
    """One literal (or one character constant) in every context."""
    kind, seq = p
    vals = [sgn(x[1], native) for x in seq]
    st.nstates += 1
    st.transitions += len(seq)
    if kind == "char":
        t, v = "'%s'" % seq[0][0], vals[0]
        if not native and not (32 <= v < 127 or v in (0, 7, 8, 9, 10, 11, 12, 13)):
            return None
        decl = ("int g%(i)d = %(t)s; int h%(i)d[3] = {1, %(t)s, 2}; enum { E%(i)d = %(t)s };"
                "int m%(i)d(int x) { switch (x) { case %(t)s: return 1; default: return 0; } }"
                "int r%(i)d() { return %(t)s; }"
                "void k%(i)d() { int x; x = %(t)s; ps(%(i)d); ps(x); ps(%(t)s); ps(g%(i)d); ps(h%(i)d[1]); ps(E%(i)d);"
                " ps(m%(i)d(x)); ps(m%(i)d(%(v)d)); ps(m%(i)d(%(v)d + 1)); ps(r%(i)d()); ps(%(t)s + 1); ps(x == %(t)s); ps(-%(t)s); if (%(t)s) { ps(1); } else { ps(0); } nl(); }") % {"i": id, "t": t, "v": v}
        exp = [id, v, v, v, v, v, 1, 1, 0, v, v + 1, 1, -v, int(v != 0)]
        calls = ["k%d();" % id]
        lines = [show(exp)]
        if v >= 0:
            # output of the byte itself
            calls.append("oc(%s); nl();" % t if native else "putchar(%s); putchar(10);" % t)
            lines += (bytes([v]) + b"\n").split(b"\n")[:-1]
            if v == 10:
                pass
        return Case(id, decl, calls, lines, t)
    t = '"' + "".join(x[0] for x in seq) + '"'
    n = len(seq)
    rd = lambda s, m: " ".join("ps(%s[%d]);" % (s, j) for j in range(m))
    z = vals + [0]
    decl, exp = "", []
    body = []
    d = {"i": id, "t": t, "n": n}

    def part(code, vs):
        body.append(code)
        exp.extend(vs)
    if kind in ("full", "pair", "tri"):
        part("s = %s; " % t + rd("s", n + 1), z)
    if kind in ("full", "pair"):
        decl += "char a%(i)d[] = %(t)s; " % d
        part(rd("a%d" % id, n + 1), z)
        decl += "char b%d[%d] = %s; " % (id, n + 3, t)
        part(rd("b%d" % id, n + 3), z + [0, 0])
        decl += "char *p%(i)d = %(t)s; " % d
        part(rd("p%d" % id, n + 1), z)
        part("ps(%s[%d]);" % (t, n - 1), [vals[-1]])
    if kind == "full":
        decl += 'char *q%(i)d[3] = {"x", %(t)s, "yz"}; ' % d
        part("s = q%d[1]; " % id + rd("s", n + 1), z)
        decl += "char *f%(i)d(char *s) { return s; } char *e%(i)d() { return %(t)s; } " % d
        part("s = f%d(%s); " % (id, t) + rd("s", n + 1), z)
        part("s = e%d(); " % id + rd("s", n + 1), z)
        part('s = "A" %s "B"; ' % t + rd("s", n + 3), [65] + z[:-1] + [66, 0])
        if native:
            part("ps(sizeof(%s)); ps(sizeof(a%d));" % (t, id), [n + 1, n + 1])
            part("{ char l[] = %s; %s }" % (t, rd("l", n + 1)), z)
            part("{ char l[%d] = %s; %s }" % (n + 2, t, rd("l", n + 2)), z + [0])
    decl += "void k%d() { char *s; ps(%d); %s nl(); }" % (id, id, " ".join(body))
    calls, lines = ["k%d();" % id], [show([id] + exp)]
    text = [x[1] for x in seq]
    fmt = "".join(x[0] * 2 if x[1] == 37 else x[0] for x in seq)
    if 0 not in text and kind in ("full", "pair", "tri"):
        if native:
            calls.append("puts_(%s);" % t)
        elif all(v < 128 for v in text):
            calls.append("printf(\"%%s\\n\", %s); putstr(%s); putchar(10);" % (t, t))
            lines += (bytes(text) + b"\n").split(b"\n")[:-1]
        else:
            calls.append("putstr(%s); putchar(10);" % t)
        lines += (bytes(text) + b"\n").split(b"\n")[:-1]
        if not native and all(v < 128 for v in text):
            # as a format
            calls.append("printf(\"%s\\n\");" % fmt)
            lines += (bytes(text) + b"\n").split(b"\n")[:-1]
            calls.append("printf(\"%s%%d\\n\", 7);" % fmt)
            lines += (bytes(text) + b"7\n").split(b"\n")[:-1]
    c = Case(id, decl, calls, lines, t)
    c.level = max(text)
    c.ctx = text[-1] == 10
    return c


SPECIAL = [(c, ord(c), "raw") for c in "$`%'!-*?[]~#&|;<>(){}=/ ^@0179ax,.:"] + [
    ("\\\\", 92, "esc"), ('\\"', 34, "esc"), ("\\n", 10, "esc"), ("\\t", 9, "esc"), ("\\0", 0, "o1"), ("\\000", 0, "o3"), ("\\x7f", 127, "x"), ("\\1", 1, "o1")]
CORE = [x for x in SPECIAL if x[0] in ("$", "`", "%", "'", "-", "*", "0", "a", "\\\\", '\\"', "\\n", "\\0", "\\000", " ", "!", "(")]

SH_IO = 'void putstr(char *s) { while (*s) { putchar(*s); s = s + 1; } }\nint nf_;\nvoid ps(int v) { if (nf_) { putchar(32); } nf_ = 1; printf("%d", v); }\nvoid nl() { putchar(10); nf_ = 0; }\n'
NIO = NATIVE_IO.replace("ob_[4000]", "ob_[60000]").replace("void nl() {", "void puts_(char *s) { while (*s) { oc(*s); s = s + 1; } oc(10); write(1, ob_, on_); on_ = 0; }\nvoid nl() {")
NIO = NIO.replace("void nl() { on_ = on_ - 1; oc(10);", "void nl() { if (on_ > 1) { on_ = on_ - 1; } oc(10);")


def plans(chk):
    els = elements()
    plan = [("full", (e,)) for e in els]
    chars = [e for e in els if e[0] != "'"] + [('"', 34, "raw")]
    plan += [("char", (e,)) for e in chars]
    reps = SPECIAL + [("\\12", 10, "o2"), ("\\7", 7, "o1"), ("\\177", 127, "o3"), ("\\x9", 9, "x"), ("\\xA0", 160, "x"), ("\\300", 192, "o3"), (chr(200), 200, "raw")]
    printable = [(chr(b), b, "raw") for b in range(32, 127) if b not in (34, 92)]
    pairs = list(dict.fromkeys([(a, b) for a in reps for b in printable + reps] + [(b, a) for a in reps for b in printable]))
    plan += [("pair", p) for p in pairs if valid(p)]
    tri = itertools.product(SPECIAL, repeat=3)
    plan += [("tri", p) for p in tri if valid(p)]
    if not chk.quick:
        plan += [("tri", p) for p in itertools.product(CORE, repeat=4) if valid(p)]
    # strings that are equal up to a null character
    low = [(c, ord(c), "raw") for c in "abcdefghijklmnopqrstuvwxyz"]
    plan += [("tri", (low[0], ("\\0", 0, "o1"), a, b)) for a in low for b in low]
    return plan


def main(chk):
    chk.assumptions = ["a plain char is 8 bits, signed in native code and unsigned in shell output (implementation-defined in C); shell character constants above 127 are rejected",
                       "trigraphs are not part of the space; raw newlines, NUL and carriage returns cannot be written in a literal"]
    plan = plans(chk)
    chk.extra["literals"] = len(plan)
    shells = [("sh", "dash"), ("sh", "bash")] if chk.quick else [("sh", s) for s in SHELLS] + [("sh-compact", "dash"), ("sh-release", "dash"), ("sh-printf", "dash")]
    runs = []
    for v, s in shells:
        filt = None if s in ("dash", "bash") else (lambda c: c.id % 4 == 0 or c.id < 9000)
        if chk.quick and s != "dash":
            filt = lambda c: c.id % 5 == 0 or c.id < 1500
        if v == "sh-printf":  # known finding of A08: the run-time %s drops the newlines at the end
            filt = lambda c: not getattr(c, "ctx", False) and (c.id % 4 == 0 or c.id < 9000)
        if s == "yash":  # cannot read scripts that are not valid text
            filt = lambda c: getattr(c, "level", 0) < 128
        runs.append((Runner(v, s, SH_IO, batch=250, timeout=60), filt))
    sweep(chk, plan, lambda st, id, p: case(st, id, p, False), runs)
    nat = ["i386", "x86_64"] + ([] if chk.quick else ["i386-release", "x86_64-release"])
    sweep(chk, plan, lambda st, id, p: case(st, id, p, True), [(Runner(v, "native", NIO, batch=250, timeout=40), None) for v in nat])
    for p in plan[:: max(1, len(plan) // 5)][:5]:
        chk.sample('%s "%s"' % (p[0], "".join(x[0] for x in p[1])))
