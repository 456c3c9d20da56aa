"""Native backends: value, type and side effects of expressions."""
import itertools
from core import *
from batch import *

# type: (bits, signed)
T = {"c": (8, 1), "C": (8, 0), "s": (16, 1), "S": (16, 0), "i": (32, 1), "u": (32, 0), "l": (64, 1), "L": (64, 0)}
TN = {"c": "char", "C": "unsigned char", "s": "short", "S": "unsigned short", "i": "int", "u": "unsigned int",
      "l": "long long", "L": "unsigned long long"}
VALS = {"c": (-1, 5, -128), "C": (0, 200, 255), "s": (-2, 300, 32767), "S": (1, 40000, 65535),
        "i": (-7, 3, 2147483647, -2147483648), "u": (0, 5, 4294967289),
        "l": (-3, 5000000000, 7), "L": (2, 18446744073709551614)}
INT = T["i"]


class UB(Exception):
    pass


def conv(v, t):
    bits, sg = t
    v &= (1 << bits) - 1
    return v - (1 << bits) if sg and v >> (bits - 1) else v


def promote(t):
    return INT if t[0] < 32 else t


def common(a, b):
    a, b = promote(a), promote(b)
    if a[0] != b[0]:
        return a if a[0] > b[0] else b
    return b if a[1] else a


def arith(op, a, ta, b, tb):
    """(value, type) of a op b."""
    if op in ("<<", ">>"):
        t = promote(ta)
        if not 0 <= b < t[0]:
            raise UB("shift")
        if op == "<<":
            if t[1] and (a < 0 or a << b >= 1 << (t[0] - 1)):
                raise UB("shift")
            return conv(a << b, t), t
        return a >> b, t
    t = common(ta, tb)
    a, b = conv(a, t), conv(b, t)
    if op in ("<", ">", "<=", ">=", "==", "!="):
        return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]), INT
    if op in "/%":
        if b == 0:
            raise UB("division")
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        v = q if op == "/" else a - b * q
        if op == "%" and conv(q, t) != q:
            raise UB("overflow")
    else:
        v = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
    if t[1] and conv(v, t) != v:
        raise UB("overflow")
    return conv(v, t), t


# trees: ('v', type, name) ('k', text, value, type) ('u', op, e) ('cast', type, e) ('b', op, e, e)
#        ('&&', e, e) ('||', e, e) ('?', e, e, e) ('=', op, v, e) ('pre', op, v) ('post', op, v) (',', e, e)

def ev(e, env):
    k = e[0]
    if k == "v":
        return env[e[2]], T[e[1]]
    if k == "k":
        return e[2], T[e[3]]
    if k == "u":
        v, t = ev(e[2], env)
        if e[1] == "!":
            return int(v == 0), INT
        t = promote(t)
        v = {"-": -v, "~": ~v, "+": v}[e[1]]
        if t[1] and conv(v, t) != v:
            raise UB("overflow")
        return conv(v, t), t
    if k == "cast":
        return conv(ev(e[2], env)[0], T[e[1]]), T[e[1]]
    if k == "b":
        a, ta = ev(e[2], env)
        b, tb = ev(e[3], env)
        return arith(e[1], a, ta, b, tb)
    if k == "&&":
        return int(ev(e[1], env)[0] != 0 and ev(e[2], env)[0] != 0), INT
    if k == "||":
        return int(ev(e[1], env)[0] != 0 or ev(e[2], env)[0] != 0), INT
    if k == ",":
        ev(e[1], env)
        return ev(e[2], env)
    if k == "?":
        t = common(typ(e[2]), typ(e[3]))
        return conv(ev(e[2] if ev(e[1], env)[0] else e[3], env)[0], t), t
    t = T[e[2][1]]
    old = env[e[2][2]]
    if k == "=":
        v, tv = ev(e[3], env)
        if e[1]:
            v = arith(e[1], old, t, v, tv)[0]
        env[e[2][2]] = conv(v, t)
        return conv(v, t), t
    v = conv(arith(e[1][0], old, t, 1, INT)[0], t)
    env[e[2][2]] = v
    return (v if k == "pre" else old), t


def typ(e):
    k = e[0]
    if k == "v":
        return T[e[1]]
    if k == "k":
        return T[e[3]]
    if k == "u":
        return INT if e[1] == "!" else promote(typ(e[2]))
    if k == "cast":
        return T[e[1]]
    if k == "b":
        if e[1] in ("<<", ">>"):
            return promote(typ(e[2]))
        return INT if e[1] in CMP else common(typ(e[2]), typ(e[3]))
    if k in ("&&", "||"):
        return INT
    if k == ",":
        return typ(e[2])
    if k == "?":
        return common(typ(e[2]), typ(e[3]))
    return T[e[2][1]]


def text(e):
    k = e[0]
    if k == "v":
        return e[2]
    if k == "k":
        return e[1]
    p = lambda x: text(x) if x[0] in "vk" else "(" + text(x) + ")"
    if k == "u":
        return e[1] + p(e[2])
    if k == "cast":
        return "(%s)%s" % (TN[e[1]], p(e[2]))
    if k == "b":
        return "%s %s %s" % (p(e[2]), e[1], p(e[3]))
    if k in ("&&", "||", ","):
        return "%s %s %s" % (p(e[1]), k, p(e[2]))
    if k == "?":
        return "%s ? %s : %s" % tuple(p(x) for x in e[1:])
    if k == "=":
        return "%s %s= %s" % (e[2][2], e[1], p(e[3]))
    return e[1] + e[2][2] if k == "pre" else e[2][2] + e[1]


CMP = ("<", ">", "<=", ">=", "==", "!=")
ARITH = ("+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>")
BIN = ARITH + CMP


def vars_of(e, out):
    if e[0] == "v":
        if e not in out:
            out.append(e)
    else:
        for x in e[1:]:
            if isinstance(x, tuple):
                vars_of(x, out)
    return out


def effects(e):
    return e[0] in ("=", "pre", "post") or any(isinstance(x, tuple) and effects(x) for x in e[1:])


KS = [("k", "1", 1, "i"), ("k", "(-1)", -1, "i"), ("k", "200", 200, "i"), ("k", "'a'", 97, "i"), ("k", "3u", 3, "u")]
KL = [("k", "5000000000LL", 5000000000, "l")]


def one_op(types, wide):
    """Every tree with one operator over one variable of each type and the constants."""
    ks = KS + (KL if wide else [])
    for a in types:
        x = ("v", a, "x")
        for o in "-~!+":
            yield ("u", o, x)
        for o in ("++", "--"):
            yield ("pre", o, x)
            yield ("post", o, x)
        for t in types:
            yield ("cast", t, x)
            y = ("v", t, "y")
            for o in BIN:
                yield ("b", o, x, y)
            for o in ("",) + ARITH:
                yield ("=", o, x, y)
            yield ("&&", x, y)
            yield ("||", x, y)
            yield (",", x, y)
            for z in types:
                yield ("?", x, y, ("v", z, "z"))
        for k in ks:
            for o in BIN:
                yield ("b", o, x, k)
                yield ("b", o, k, x)
            for o in ("",) + ARITH:
                yield ("=", o, x, k)
    for k in ks:
        for o in "-~!":
            yield ("u", o, k)
        for t in types:
            yield ("cast", t, k)


def two_ops(types, inner_types, deep):
    """Every pair of nested operators, the outer one revealing the type of the inner one."""
    outer = BIN if deep else ("+", "-", "*", "/", "%", ">>", "<<", "<", ">=", "==", "|")
    for a in inner_types:
        x = ("v", a, "x")
        inners = [("u", o, x) for o in "-~!"] + [("cast", t, x) for t in types] + [("pre", "++", x), ("post", "--", x)]
        for b in inner_types:
            y = ("v", b, "y")
            inners += [("b", o, x, y) for o in BIN]
            inners += [("=", o, x, y) for o in ("", "+", "*", "/", ">>")]
            inners += [("&&", x, y), ("||", x, y), (",", x, y), ("?", y, x, y)]
        for i in inners:
            for o in ("!", "-", "~"):
                yield ("u", o, i)
            for t in types:
                yield ("cast", t, i)
                z = ("v", t, "z")
                for o in outer:
                    yield ("b", o, i, z)
                    if not (i[0] in ("pre", "post", "=")) or True:
                        yield ("b", o, z, i)
                yield ("=", "", z, i)
                yield ("=", "+", z, i)
            for k in (KS[0], KS[1]):
                for o in ("/", ">>", "<", "==", "+"):
                    yield ("b", o, i, k)
            yield ("&&", i, x)
            yield ("||", x, i)
            yield ("?", i, KS[0], x)
            yield ("?", x, i, KS[4])


def three_ops(types):
    """(a o b) o (c o d) and ((a o b) o c) o d over a reduced alphabet."""
    ops = ("+", "-", "*", "/", ">>", "<", "&")
    pairs = [("b", o, ("v", a, "x"), ("v", b, "y")) for a in types for b in types for o in ops]
    rights = [("b", o, ("v", a, "z"), k) for a in types for o in ("+", "/", "<<", "==") for k in KS[:2]] + [("cast", t, ("v", a, "z")) for a in types for t in types]
    for p in pairs:
        for r in rights:
            for o in ops + ("==", "%"):
                yield ("b", o, p, r)
        for c in types:
            for o in ops:
                i = ("b", o, p, ("v", c, "z"))
                for k in KS[:2]:
                    for q in ("/", ">>", "<"):
                        yield ("b", q, i, k)
                yield ("?", i, p, KS[4])
                yield ("u", "!", i)


# where the operands live
FORMS = {
    "param": ("void k%(id)d(%(ps)s) { %(b)s }", None),
    "local": ("void k%(id)d(%(qs)s) { %(ds)s %(is)s %(b)s }", None),
    "global": ("%(gs)s void k%(id)d(%(qs)s) { %(gi)s %(gb)s }", None),
    "array": ("void k%(id)d(%(qs)s) { %(as)s %(ai)s %(ab)s }", None),
    "field": ("struct S%(id)d { %(fs)s }; void k%(id)d(%(qs)s) { struct S%(id)d o; %(fi)s %(fb)s }", None),
    "pfield": ("struct S%(id)d { %(fs)s }; struct S%(id)d o%(id)d; void k%(id)d(%(qs)s) { struct S%(id)d *o; o = &o%(id)d; %(pi)s %(pb)s }", None),
    "deref": ("void k%(id)d(%(ps)s) { %(rs)s %(rb)s }", None),
    "ret": ("%(rt)s f%(id)d(%(ps)s) { return %(e)s; } void k%(id)d(%(ps)s) { ps(f%(id)d(%(cs)s)); }", None),
    "cond": ("void k%(id)d(%(ps)s) { if (%(e)s) { ps(1); } else { ps(0); } }", None),
}


def case(st, id, e, form, rt, cap):
    if narrow(e):
        return None
    vs = vars_of(e, [])
    names = [v[2] for v in vs]
    if not vs and form not in ("param", "ret"):
        return None
    rets = T[rt] if form == "ret" else None
    calls, exp = [], []
    eff = effects(e)
    after = names if eff and form not in ("ret", "cond") else []
    cut = list(itertools.product(*(VALS[v[1]] for v in vs)))
    for vals in cut:
        env = dict(zip(names, vals))
        try:
            v, t = ev(e, env)
        except UB:
            continue
        if form == "ret":
            v = conv(v, rets)
        if form == "cond":
            v = int(v != 0)
        # printed as the widest type of the target
        out = [v] + [env[n] for n in after]
        calls.append("k%d(%s);" % (id, ", ".join(lit(x) for x in vals)))
        exp += [conv(x, (cap, 1)) for x in out]
        st.transitions += 1
        st.nstates += 1
        st.outcomes.add((v, t))
        if cap == 32 and t[0] > 32:
            raise AssertionError
    if not calls:
        return None
    if form in ("param", "local"):
        calls.insert(0, "ps(sz%d());" % id)
        exp.insert(0, typ(e)[0] // 8)
    body = lambda f: ("ps((%s)); " if e[0] == "," else "ps(%s); ") % f(e) + " ".join("ps(%s);" % f(("v", "", n)) for n in after)

    def subst(fmt):
        def go(x):
            if x[0] == "v":
                return ("v", x[1], fmt % x[2])
            return tuple(go(y) if isinstance(y, tuple) else y for y in x)
        return lambda x: text(go(x))
    d = {"id": id, "e": text(e), "rt": TN[rt],
         "ps": ", ".join("%s %s" % (TN[v[1]], v[2]) for v in vs),
         "qs": ", ".join("%s q%s" % (TN[v[1]], v[2]) for v in vs),
         "cs": ", ".join(names),
         "ds": " ".join("%s %s;" % (TN[v[1]], v[2]) for v in vs),
         "is": " ".join("%s = q%s;" % (n, n) for n in names),
         "b": body(text)}
    d["gs"] = " ".join("%s g%s%d;" % (TN[v[1]], v[2], id) for v in vs)
    d["gi"] = " ".join("g%s%d = q%s;" % (n, id, n) for n in names)
    d["gb"] = body(subst("g%%s%d" % id))
    d["as"] = " ".join("%s %s[3];" % (TN[v[1]], v[2]) for v in vs)
    d["ai"] = " ".join("%s[1] = q%s;" % (n, n) for n in names)
    d["ab"] = body(subst("%s[1]"))
    d["fs"] = " ".join("%s %s;" % (TN[v[1]], v[2]) for v in vs)
    d["fi"] = " ".join("o.%s = q%s;" % (n, n) for n in names)
    d["fb"] = body(subst("o.%s"))
    d["pi"] = " ".join("o->%s = q%s;" % (n, n) for n in names)
    d["pb"] = body(subst("o->%s"))
    d["rs"] = " ".join("%s *r%s = &%s;" % (TN[v[1]], v[2], v[2]) for v in vs)
    d["rb"] = body(subst("(*r%s)"))
    decl = FORMS[form][0] % d
    if form in ("param", "local"):
        decl += " int sz%d() { %s return sizeof(%s); }" % (id, d["ds"], d["e"])
    return Case(id, decl, ["ps(%d);" % id] + calls + ["nl();"], [(" ".join(map(str, [id] + exp))).encode()], decl)


def narrow(e):
    """Contains the value of an assignment of a wider value to a char (known finding)."""
    if e[0] == "=" and e[1] == "" and T[e[2][1]][0] == 8 and typ(e[3]) != T[e[2][1]]:
        return True
    return any(isinstance(x, tuple) and narrow(x) for x in e[1:])


def lit(v):
    if v == -2147483648:
        return "-2147483647 - 1"
    if v > 9223372036854775807:
        return "0 - %dLL" % (18446744073709551616 - v)
    if abs(v) > 4294967295:
        return "%dLL" % v
    if v > 2147483647:
        return "%du" % v
    return str(v)


def prelude(variant):
    w = "typedef %s W;\n" % ("long long" if variant.startswith("x86_64") else "int")
    io = NATIVE_IO.replace("void pd(int v)", "void pd(W v)").replace("void ps(int v)", "void ps(W v)").replace("ob_[4000]", "ob_[60000]")
    return w + io


class Run14(Runner):
    pass


def main(chk):
    chk.assumptions = ["points whose result C leaves undefined (signed overflow, out-of-range shifts, division by zero) are not part of the space",
                       "the value of an assignment to a char is not truncated (known finding, pinned by the repository's read-all-chars test)"]
    for variant, cap, types in (("i386", 32, "cCsSiu"), ("x86_64", 64, "cCsSiulL")):
        inner = "cCiu" if cap == 32 else "Ciul" if chk.quick else "cCiulL"
        outer = "Ciu" if cap == 32 else "iul"
        ones = list(dict.fromkeys(one_op(types, cap == 64)))
        plan = [(e, f, "i") for e in ones for f in ("param", "local", "cond", "deref")]
        few = list(dict.fromkeys(one_op("cSu" if cap == 32 else "cul", cap == 64)))
        plan += [(e, f, "i") for e in few for f in ("global", "array", "field", "pfield")]
        plan += [(e, "ret", t) for e in few for t in types]
        plan += [(e, "param", "i") for e in dict.fromkeys(two_ops(outer, inner, True))]
        if not chk.quick:
            plan += [(e, "param", "i") for e in dict.fromkeys(three_ops("Ciu" if cap == 32 else "iul"))]
        make = lambda st, id, p: case(st, id, p[0], p[1], p[2], cap)
        variants = [variant] if chk.quick else [variant, variant + "-release"]
        r = [Runner(v, "native", prelude(v), batch=300, timeout=40) for v in variants]
        sweep(chk, plan, make, [(x, None) for x in r])
    for e in plan[:: max(1, len(plan) // 4)][:4]:
        chk.sample(text(e[0]) + " [" + e[1] + "]")
