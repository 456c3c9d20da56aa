"""Reference model: a small-step-free evaluator of a C expression subset with
integer promotions, usual arithmetic conversions, and detection of undefined
or unspecified behaviour (such expressions are not in any alphabet)."""

class UB(Exception):
    pass

# type -> (bits, signed, rank)
TYPES = {"c": (8, True, 1), "uc": (8, False, 1), "s": (16, True, 2), "us": (16, False, 2),
         "i": (32, True, 3), "u": (32, False, 3), "l": (64, True, 4), "ul": (64, False, 4)}
CNAME = {"c": "char", "uc": "unsigned char", "s": "short", "us": "unsigned short",
         "i": "int", "u": "unsigned int", "l": "long", "ul": "unsigned long"}


def wrap(t, v):
    bits, signed, _ = TYPES[t]
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def fits(t, v):
    bits, signed, _ = TYPES[t]
    return (-(1 << (bits - 1)) <= v < (1 << (bits - 1))) if signed else (0 <= v < (1 << bits))


def promote(t, v):
    return ("i", v) if TYPES[t][2] < 3 else (t, v)


def usual(t1, t2):
    if t1 == t2:
        return t1
    b1, s1, r1 = TYPES[t1]
    b2, s2, r2 = TYPES[t2]
    if s1 == s2:
        return t1 if r1 >= r2 else t2
    ut, st = (t1, t2) if not s1 else (t2, t1)
    if TYPES[ut][2] >= TYPES[st][2]:
        return ut
    return st if TYPES[st][0] > TYPES[ut][0] else "u" + st


def arith(t, v):
    """Result of an arithmetic operation in type t: signed overflow is UB."""
    if TYPES[t][1]:
        if not fits(t, v):
            raise UB("overflow")
        return v
    return wrap(t, v)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


# ---- expression trees ---------------------------------------------------
# ('int', text, type, value) ('var', name) ('idx', P, E) ('deref', P) ('fld', ptrname, field)
# ('un', op, E) ('bin', op, A, B) ('and', A, B) ('or', A, B) ('cond', C, A, B)
# ('asg', op, V, E) ('pre', op, V) ('post', op, V) ('call', fn, E) ('cast', t, E) ('comma', A, B)
# pointers: ('pvar', name) ('arr', name) ('padd', P, E) ('addp', E, P) ('psub', P, E)
# ('ppre', op, P) ('ppost', op, P) ('pasg', op, P, E|P) ('addr', V) ('pcond', C, P, P) ('paren', X)
# pointer->int: ('pdiff', P, P) ('pcmp', op, P, P)

PREC = {"comma": 1, "asg": 2, "pasg": 2, "cond": 3, "pcond": 3, "or": 4, "and": 5,
        "un": 14, "pre": 14, "ppre": 14, "deref": 14, "addr": 14, "cast": 14,
        "post": 15, "ppost": 15, "idx": 15, "call": 15, "fld": 15,
        "int": 16, "var": 16, "pvar": 16, "arr": 16, "paren": 16,
        "padd": 12, "addp": 12, "psub": 12, "pdiff": 12}
BPREC = {"|": 6, "^": 7, "&": 8, "==": 9, "!=": 9, "<": 10, ">": 10, "<=": 10, ">=": 10,
         "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13}


def prec(n):
    k = n[0]
    if k in ("bin", "pcmp"):
        return BPREC[n[1]]
    return PREC[k]


def emit(n, full=False):
    """C text. full=False: minimal parentheses; full=True: parenthesise every
    non-primary operand."""
    def sub(m, p):
        s = emit(m, full)
        q = prec(m)
        if q < p or (full and q < 15):
            return "(" + s + ")"
        return s

    def unary(op, m):
        s = sub(m, 14)
        return op + (" " if s[:1] == op[-1:] else "") + s
    k = n[0]
    if k == "int":
        return n[1]
    if k in ("var", "pvar", "arr"):
        return n[1]
    if k == "paren":
        return "(" + emit(n[1], full) + ")"
    if k == "idx":
        return sub(n[1], 15) + "[" + emit(n[2], full) + "]"
    if k == "fld":
        return n[1] + "->" + n[2]
    if k == "deref":
        return unary("*", n[1])
    if k == "addr":
        return unary("&", n[1])
    if k == "un":
        return unary(n[1], n[2])
    if k == "cast":
        return "(" + CNAME[n[1]] + ")" + sub(n[2], 14)
    if k in ("pre", "ppre"):
        return unary(n[1], n[2])
    if k in ("post", "ppost"):
        return sub(n[2], 15) + n[1]
    if k in ("bin", "pcmp"):
        p = BPREC[n[1]]
        return sub(n[2], p) + " " + n[1] + " " + sub(n[3], p + 1)
    if k in ("padd", "addp"):
        return sub(n[1], 12) + " + " + sub(n[2], 13)
    if k in ("psub", "pdiff"):
        return sub(n[1], 12) + " - " + sub(n[2], 13)
    if k == "and":
        return sub(n[1], 5) + " && " + sub(n[2], 6)
    if k == "or":
        return sub(n[1], 4) + " || " + sub(n[2], 5)
    if k in ("cond", "pcond"):
        return sub(n[1], 4) + " ? " + sub(n[2], 2) + " : " + sub(n[3], 3)
    if k in ("asg", "pasg"):
        return sub(n[2], 14) + " " + n[1] + " " + sub(n[3], 2)
    if k == "call":
        return n[1] + "(" + ", ".join(sub(a, 2) for a in n[2:]) + ")"
    if k == "comma":
        return sub(n[1], 1) + ", " + sub(n[2], 2)
    raise AssertionError(k)


CHILD = {"un": (2,), "bin": (2, 3), "and": (1, 2), "or": (1, 2), "cond": (1, 2, 3), "asg": (2, 3),
         "pre": (2,), "post": (2,), "cast": (2,), "comma": (1, 2), "idx": (1, 2), "deref": (1,),
         "padd": (1, 2), "addp": (1, 2), "psub": (1, 2), "ppre": (2,), "ppost": (2,), "pasg": (2, 3),
         "addr": (1,), "pcond": (1, 2, 3), "paren": (1,), "pdiff": (1, 2), "pcmp": (2, 3)}


def kids(n):
    if n[0] == "call":
        return range(2, len(n))
    return CHILD.get(n[0], ())


# effects of the callable functions: (reads, writes)
FUN_EFF = {}
_E = frozenset()


def lv_loc(v):
    while v[0] == "paren":
        v = v[1]
    if v[0] in ("var", "pvar"):
        return v[1]
    if v[0] in ("idx", "deref"):
        return "MEM"
    if v[0] == "fld":
        return "MEM"
    raise AssertionError(v)


def eff(n):
    """(reads, writes) of evaluating n; raises UB on unsequenced conflicts or
    unspecified order with observable difference."""
    k = n[0]
    if k in ("int", "arr"):
        return _E, _E
    if k in ("var", "pvar"):
        return frozenset([n[1]]), _E
    if k == "fld":
        return frozenset([n[1], "MEM"]), _E
    if k == "paren":
        return eff(n[1])
    if k in ("un", "cast"):
        return eff(n[2])
    if k == "deref":
        r, w = eff(n[1])
        if "MEM" in w:
            pass  # *(p = ...) never writes MEM for pointer sorts; value read is after
        return r | {"MEM"}, w
    if k == "addr":
        r, w = eff_lv(n[1])
        return r, w
    if k in ("idx",):
        r, w = unseq(n[1], n[2])
        return r | {"MEM"}, w
    if k in ("bin", "pcmp"):
        return unseq(n[2], n[3])
    if k in ("padd", "addp", "psub", "pdiff"):
        return unseq(n[1], n[2])
    if k in ("and", "or", "comma"):
        r1, w1 = eff(n[1])
        r2, w2 = eff(n[2])
        return r1 | r2, w1 | w2
    if k in ("cond", "pcond"):
        a, b, c = eff(n[1]), eff(n[2]), eff(n[3])
        return a[0] | b[0] | c[0], a[1] | b[1] | c[1]
    if k in ("asg", "pasg"):
        r1, w1 = eff_lv(n[2])
        r2, w2 = eff(n[3])
        conflict(r1, w1, r2, w2)
        loc = lv_loc(n[2])
        if loc in w1 or loc in w2:
            raise UB("unsequenced")
        r, w = r1 | r2, w1 | w2 | {loc}
        if n[1] != "=":
            r = r | {loc}
        return r, w
    if k in ("pre", "post", "ppre", "ppost"):
        r, w = eff_lv(n[2])
        loc = lv_loc(n[2])
        if loc in w:
            raise UB("unsequenced")
        return r | {loc}, w | {loc}
    if k == "call":
        r, w = _E, _E
        for a in n[2:]:
            ra, wa = eff(a)
            conflict(r, w, ra, wa)
            r, w = r | ra, w | wa
        fr, fw = FUN_EFF[n[1]]
        return r | fr, w | fw
    raise AssertionError(k)


def eff_lv(v):
    k = v[0]
    if k == "paren":
        return eff_lv(v[1])
    if k in ("var", "pvar"):
        return _E, _E
    if k == "fld":
        return frozenset([v[1]]), _E
    if k == "deref":
        return eff(v[1])
    if k == "idx":
        return unseq(v[1], v[2])
    raise AssertionError(v)


COMMUTE = {"cnt"}  # locations whose updates by calls commute


def conflict(r1, w1, r2, w2):
    if (w1 & (r2 | w2) - COMMUTE) or (w2 & (r1 | w1) - COMMUTE):
        raise UB("unsequenced")


def unseq(a, b):
    r1, w1 = eff(a)
    r2, w2 = eff(b)
    conflict(r1, w1, r2, w2)
    return r1 | r2, w1 | w2


class Env:
    """vars: name -> [type, value]; ptrs: name -> offset into MEM (ints of type mt)."""
    __slots__ = ("v", "p", "mem", "mt", "base", "steps", "ptrsize", "fields", "funs")

    def __init__(self, v, p, mem, mt="i", base=0, fields=None, funs=None):
        self.v, self.p, self.mem, self.mt, self.base = v, p, mem, mt, base
        self.steps = 0
        self.fields = fields or {}
        self.funs = funs or {}

    def copy(self):
        e = Env({k: list(x) for k, x in self.v.items()}, dict(self.p), list(self.mem), self.mt, self.base,
                self.fields, self.funs)
        return e

    def key(self):
        return (tuple((k, x[1]) for k, x in sorted(self.v.items())), tuple(sorted(self.p.items())), tuple(self.mem))


def resolve(v, env):
    """Evaluate an lvalue to a location: ('v', name) | ('m', index) | ('p', name)."""
    k = v[0]
    env.steps += 1
    if k == "paren":
        return resolve(v[1], env)
    if k == "var":
        return ("v", v[1])
    if k == "pvar":
        return ("p", v[1])
    if k == "deref":
        i = evp(v[1], env)
    elif k == "idx":
        i = evp(v[1], env)
        t, x = ev(v[2], env)
        i = i + x
    elif k == "fld":
        i = env.p[v[1]] + env.fields[v[2]]
    else:
        raise AssertionError(v)
    if not 0 <= i < len(env.mem):
        raise UB("oob")
    return ("m", i)


def load(loc, env):
    if loc[0] == "v":
        t, x = env.v[loc[1]]
        if x is None:
            raise UB("uninit")
        return t, x
    x = env.mem[loc[1]]
    if x is None:
        raise UB("uninit")
    return env.mt, x


def store(loc, t, x, env):
    if loc[0] == "v":
        cell = env.v[loc[1]]
        cell[1] = wrap(cell[0], x)
        return cell[0], cell[1]
    env.mem[loc[1]] = wrap(env.mt, x)
    return env.mt, env.mem[loc[1]]


def binop(op, t1, a, t2, b):
    if op in ("<<", ">>"):
        t1, a = promote(t1, a)
        t2, b = promote(t2, b)
        if not 0 <= b < TYPES[t1][0] - 1:
            raise UB("shift")
        if op == "<<":
            if TYPES[t1][1] and (a < 0 or not fits(t1, a << b)):
                raise UB("shift")
            return t1, wrap(t1, a << b)
        return t1, a >> b
    t1, a = promote(t1, a)
    t2, b = promote(t2, b)
    t = usual(t1, t2)
    a, b = wrap(t, a), wrap(t, b)
    if op == "+":
        return t, arith(t, a + b)
    if op == "-":
        return t, arith(t, a - b)
    if op == "*":
        return t, arith(t, a * b)
    if op == "/":
        if b == 0:
            raise UB("div0")
        return t, arith(t, tdiv(a, b))
    if op == "%":
        if b == 0:
            raise UB("div0")
        arith(t, tdiv(a, b))
        return t, a - b * tdiv(a, b)
    if op == "&":
        return t, a & b
    if op == "|":
        return t, a | b
    if op == "^":
        return t, wrap(t, a ^ b)
    r = {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    return "i", int(r)


def ev(n, env):
    """Evaluate an integer expression to (type, value)."""
    k = n[0]
    env.steps += 1
    if k == "int":
        return n[2], n[3]
    if k == "paren":
        return ev(n[1], env)
    if k == "var":
        return load(("v", n[1]), env)
    if k in ("idx", "deref", "fld"):
        return load(resolve(n, env), env)
    if k == "un":
        t, a = ev(n[2], env)
        if n[1] == "!":
            return "i", int(a == 0)
        t, a = promote(t, a)
        if n[1] == "-":
            return t, arith(t, -a)
        if n[1] == "~":
            return t, wrap(t, ~a)
        return t, a
    if k == "bin":
        t1, a = ev(n[2], env)
        t2, b = ev(n[3], env)
        return binop(n[1], t1, a, t2, b)
    if k == "and":
        if ev(n[1], env)[1] == 0:
            return "i", 0
        return "i", int(ev(n[2], env)[1] != 0)
    if k == "or":
        if ev(n[1], env)[1] != 0:
            return "i", 1
        return "i", int(ev(n[2], env)[1] != 0)
    if k == "cond":
        c = ev(n[1], env)[1] != 0
        t, x = ev(n[2] if c else n[3], env)
        ot = typeof(n[3] if c else n[2], env)
        t, x = promote(t, x)
        ot, _ = promote(ot, 0)
        u = usual(t, ot)
        return u, wrap(u, x)
    if k == "asg":
        loc = resolve(n[2], env)
        t, x = ev(n[3], env)
        if n[1] != "=":
            t1, a = load(loc, env)
            t, x = binop(n[1][:-1], t1, a, t, x)
        return store(loc, t, x, env)
    if k in ("pre", "post"):
        loc = resolve(n[2], env)
        t, a = load(loc, env)
        t2, x = binop("+" if n[1] == "++" else "-", t, a, "i", 1)
        r = store(loc, t2, x, env)
        return r if k == "pre" else (t, a)
    if k == "call":
        args = [ev(a, env)[1] for a in n[2:]]
        return env.funs[n[1]](env, *args)
    if k == "cast":
        t, x = ev(n[2], env)
        return n[1], wrap(n[1], x)
    if k == "comma":
        if n[1][0] in PTRK:
            evp(n[1], env)
        else:
            ev(n[1], env)
        return ev(n[2], env)
    if k == "pdiff":
        return "i", evp(n[1], env) - evp(n[2], env)
    if k == "pcmp":
        a, b = evp(n[2], env), evp(n[3], env)
        return "i", int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[n[1]])
    raise AssertionError(n)


PTRK = {"pvar", "arr", "padd", "addp", "psub", "ppre", "ppost", "pasg", "addr", "pcond"}


def typeof(n, env):
    """Static type of an integer expression."""
    k = n[0]
    if k == "int":
        return n[2]
    if k == "paren":
        return typeof(n[1], env)
    if k == "var":
        return env.v[n[1]][0]
    if k in ("idx", "deref", "fld"):
        return env.mt
    if k == "un":
        return "i" if n[1] == "!" else promote(typeof(n[2], env), 0)[0]
    if k == "bin":
        if n[1] in ("<", ">", "<=", ">=", "==", "!="):
            return "i"
        a = promote(typeof(n[2], env), 0)[0]
        if n[1] in ("<<", ">>"):
            return a
        return usual(a, promote(typeof(n[3], env), 0)[0])
    if k in ("and", "or", "pdiff", "pcmp", "call"):
        return "i"
    if k == "cond":
        return usual(promote(typeof(n[2], env), 0)[0], promote(typeof(n[3], env), 0)[0])
    if k in ("asg", "pre", "post"):
        return typeof(n[2], env)
    if k == "cast":
        return n[1]
    if k == "comma":
        return typeof(n[2], env)
    raise AssertionError(n)


def evp(n, env):
    """Evaluate a pointer expression to an offset into MEM."""
    k = n[0]
    env.steps += 1
    if k == "paren":
        return evp(n[1], env)
    if k == "arr":
        return 0
    if k == "pvar":
        return env.p[n[1]]
    if k == "padd":
        r = evp(n[1], env) + ev(n[2], env)[1]
    elif k == "addp":
        x = ev(n[1], env)[1]
        r = x + evp(n[2], env)
    elif k == "psub":
        r = evp(n[1], env) - ev(n[2], env)[1]
    elif k in ("ppre", "ppost"):
        name = n[2][1] if n[2][0] != "paren" else n[2][1][1]
        old = env.p[name]
        env.p[name] = old + (1 if n[1] == "++" else -1)
        r = env.p[name]
        if not 0 <= r <= len(env.mem):
            raise UB("ptr")
        return r if k == "ppre" else old
    elif k == "pasg":
        name = n[2][1] if n[2][0] != "paren" else n[2][1][1]
        if n[1] == "=":
            r = evp(n[3], env)
        else:
            x = ev(n[3], env)[1]
            r = env.p[name] + (x if n[1] == "+=" else -x)
        env.p[name] = r
    elif k == "addr":
        r = resolve(n[1], env)[1]
    elif k == "pcond":
        r = evp(n[2] if ev(n[1], env)[1] != 0 else n[3], env)
    else:
        raise AssertionError(n)
    if not 0 <= r <= len(env.mem):
        raise UB("ptr")
    return r


def size(n):
    return 1 + sum(size(n[i]) for i in kids(n))


def any_node(n, pred):
    return pred(n) or any(any_node(n[i], pred) for i in kids(n))
