"""Constant expressions: in #if, enumerators, case labels, array sizes, initializers."""
import itertools
from core import *
from batch import *
from a10 import SHP, NATP

BIN = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<<": 8, ">>": 8, "<": 7, ">": 7, "<=": 7, ">=": 7, "==": 6, "!=": 6, "&": 5, "^": 4, "|": 3, "&&": 2, "||": 1}
UN = ("-", "~", "!", "+")


class Undef(Exception):
    pass


def ev(e):
    """value, or Undef for division by zero, overflow, bad shifts"""
    k = e[0]
    if k == "lit":
        return e[2]
    if k == "un":
        v = ev(e[2])
        r = {"-": -v, "~": ~v, "!": int(not v), "+": v}[e[1]]
    elif k == "?":
        # all operands must be valid: gcc and pnut may fold both
        a, b, c = ev(e[1]), ev(e[2]), ev(e[3])
        r = b if a else c
    elif k == "par":
        return ev(e[1])
    else:
        o, a, b = e[1], ev(e[2]), ev(e[3])
        if o in "/%":
            if b == 0:
                raise Undef
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            r = q if o == "/" else a - b * q
        elif o in ("<<", ">>"):
            if not 0 <= b < 31 or a < 0 and o == "<<":
                raise Undef
            r = a << b if o == "<<" else a >> b
        else:
            r = {"*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                 "==": lambda: a == b, "!=": lambda: a != b, "&": lambda: a & b, "^": lambda: a ^ b, "|": lambda: a | b, "&&": lambda: bool(a and b), "||": lambda: bool(a or b)}[o]()
    r = int(r)
    if not -0x7fffffff <= r <= 0x7fffffff:
        raise Undef
    return r


def tx(e, p=0):
    k = e[0]
    if k == "lit":
        return e[1]
    if k == "par":
        return "(" + tx(e[1]) + ")"
    if k == "un":
        s, q = e[1] + " " * (e[2][0] == "un" and e[2][1] == e[1]) + tx(e[2], 11), 11
    elif k == "?":
        s, q = "%s ? %s : %s" % (tx(e[1], 1), tx(e[2], 0), tx(e[3], 0)), 0
    else:
        q = BIN[e[1]]
        s = "%s %s %s" % (tx(e[2], q), e[1], tx(e[3], q + 1))
    return "(" + s + ")" if q < p else s


def L(t, v):
    return ("lit", t, v)


LEAVES = [L("0", 0), L("1", 1), L("2", 2), L("5", 5), L("0x1F", 31), L("017", 15), L("'a'", 97), L("100", 100), L("0xab", 171), L("00", 0), L("0X0", 0), L("'\\n'", 10), L("'\\\\'", 92), L("2147483647", 2147483647),
          L("0x7fffffff", 0x7fffffff), L("'\\''", 39), L("' '", 32), L("07", 7), L("65536", 65536)]


def plan(quick):
    out = [(l, ()) for l in LEAVES]
    for l in LEAVES:
        for u in UN:
            out.append((("un", u, l), ()))
            for w in UN:
                out.append((("un", w, ("un", u, l)), ()))
    some = LEAVES[:9] if quick else LEAVES
    for o in BIN:
        for a, b in itertools.product(some, repeat=2):
            out.append((("bin", o, a, b), ()))
    R = [L("0", 0), L("2", 2), L("3", 3), L("7", 7)] if not quick else [L("0", 0), L("2", 2), L("3", 3)]
    N = [("un", "-", L("2", 2)), ("un", "~", L("1", 1)), ("un", "!", L("3", 3))]
    for o in BIN:
        for a, b in itertools.product(R + N, repeat=2):
            out.append((("bin", o, a, b), ()))
        for u in UN:
            for a, b in itertools.product(R, repeat=2):
                out.append((("un", u, ("bin", o, a, b)), ()))
        for w in BIN:
            for a, b, c in itertools.product(R, repeat=3):
                out.append((("bin", o, ("bin", w, a, b), c), ()))
                out.append((("bin", o, a, ("bin", w, b, c)), ()))
                if not quick and a == R[1]:
                    out.append((("bin", o, ("par", ("bin", w, a, b)), c), ()))
    for a, b, c in itertools.product(R + N, repeat=3):
        out.append((("?", a, b, c), ()))
    for o in BIN:
        for a, b, c, d in itertools.product(R[:3], repeat=4) if not quick else itertools.product(R[:2], R[1:3], R[:2], R[1:3]):
            out += [(("?", ("bin", o, a, b), c, d), ()), (("?", a, ("bin", o, b, c), d), ()), (("?", a, b, ("bin", o, c, d)), ()), (("bin", o, ("?", a, b, c), d), ()), (("bin", o, a, ("?", b, c, d)), ())]
    for a, b, c, d, f in itertools.product(R[:2], repeat=5):
        out += [(("?", a, ("?", b, c, d), f), ()), (("?", a, b, ("?", c, d, f)), ()), (("?", ("?", a, b, c), d, f), ())]
    if not quick:
        Q = [L("2", 2), L("3", 3)]
        Z = ("+", "-", "*", "/", "%", "<<", "<", "==", "&", "|", "^", "&&", "||")
        for o, w, x in itertools.product(Z, repeat=3):
            for a, b, c, d in ((Q[0], Q[1], Q[0], Q[1]), (Q[1], Q[0], L("0", 0), Q[1]), (L("1", 1), Q[1], Q[1], L("5", 5))):
                out += [(("bin", o, ("bin", w, a, b), ("bin", x, c, d)), ()), (("bin", o, ("bin", w, ("bin", x, a, b), c), d), ()), (("bin", o, a, ("bin", w, b, ("bin", x, c, d))), ())]
    res, seen = [], set()
    for e, _ in out:
        try:
            v = ev(e)
        except Undef:
            continue
        t = tx(e)
        if t not in seen:
            seen.add(t)
            res.append((t, v))
    return res


def mk(native):
    def make(st, id, p):
        t, v = p
        st.nstates += 6
        top = v == 0x7fffffff
        exp = [v, v] + ([] if top else [v + 1]) + [int(v != 0), 1, v, 1, 0, v, int(v == 0)]
        lines = ["enum { K%d = %s%s };" % (id, t, "" if top else ", L%d" % id), "int g%d = %s;" % (id, t)]
        arr = ""
        if 0 < v < 300:
            lines.append("char c%d[%s];" % (id, t))
            arr = "c%d[%d] = 3; s(c%d[%d]);" % (id, v - 1, id, v - 1)
            exp.append(3)
            if native:
                arr += " s(sizeof(c%d));" % id
                exp.append(v)
        lines += ["void k%d() { s(%s); s(K%d);%s" % (id, t, id, "" if top else " s(L%d);" % id),
                  "#if " + t, "s(1);", "#else", "s(0);", "#endif",
                  "#if 0", "#elif (%s) == %d" % (t, v), "s(1);", "#else", "s(0);", "#endif",
                  "s(g%d);" % id,
                  "switch (%d) { case %s: s(1); break; default: s(0); }" % (v, t),
                  "switch (%d) { case %s: s(1); break; default: s(0); }" % (v + 1 if v < 0x7fffffff else 0, t),
                  "switch (%d) { case 77777: s(0); break; case K%d: s(%d); break; default: s(0); }" % (v, id, v),
                  "if (!(%s)) s(1); else s(0);" % t,
                  arr, "nl(); }"]
        text = "\n".join(lines)
        return Case(id, text, ["k%d();" % id], ["".join("%d " % x for x in exp).encode()], text)
    return make


def main(chk):
    chk.assumptions = ["expressions whose value or any operand's value overflows int, or divides by zero, are outside the alphabet", "enumerators as operands of enumerator values and array sizes are not supported by pnut (rejected)"]
    p = plan(chk.quick)
    chk.extra["expressions"] = len(p)
    sweep(chk, p, mk(True), [(Runner("x86_64", None, NATP, batch=300), None)] + ([(Runner("i386", None, NATP, batch=300), None)] if not chk.quick else []))
    sweep(chk, p, mk(False), [(Runner("sh", "dash", SHP, batch=300), None)] + ([(Runner("sh", s, SHP, batch=300), None) for s in ("bash", "ksh", "mksh", "yash", "zsh")] if not chk.quick else []))
    chk.transitions += len(p) * 6
    for q in p[:: max(1, len(p) // 5)][:5]:
        chk.sample(repr(q))
