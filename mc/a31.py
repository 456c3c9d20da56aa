"""Shell memory: every small expression over pointers to ints, to structs and to pointers, on a
heap of an array, an array of pointers and a ring of structs."""
import itertools
from core import *
from batch import *

PRE = """
struct S { int v; int w; struct S *n; int *ip; };
int ga[6]; int *pa[3]; struct S *sa[3]; struct S *nd[3];
int *p; struct S *o; int i; int made;
void ps(int v) { printf("%d ", v); }
void nl() { printf("\\n"); }
int *fi(int *x) { return x; }
struct S *fs(struct S *x) { return x; }
int ei(int *x) {
  int k;
  if (x == 0) return 99;
  for (k = 0; k < 6; k++) if (x == ga + k) return k;
  for (k = 0; k < 3; k++) { if (x == &nd[k]->v) return 10 + k; if (x == &nd[k]->w) return 20 + k; }
  return 98;
}
int es(struct S *x) {
  int k;
  for (k = 0; k < 3; k++) if (x == nd[k]) return k;
  return 98;
}
void dump(int *lp, struct S *lo, int li) {
  int k;
  ps(ei(lp)); ps(es(lo)); ps(li); ps(ei(p)); ps(es(o));
  for (k = 0; k < 6; k++) ps(ga[k]);
  for (k = 0; k < 3; k++) { ps(ei(pa[k])); ps(es(sa[k])); ps(nd[k]->v); ps(nd[k]->w); ps(es(nd[k]->n)); ps(ei(nd[k]->ip)); }
}
void rs(int s) {
  int k;
  for (k = 0; k < 3; k++) if (made < 3) { nd[k] = malloc(sizeof(struct S)); made++; }
  for (k = 0; k < 6; k++) ga[k] = 2 * k + 3;
  for (k = 0; k < 3; k++) {
    nd[k]->v = 40 + k; nd[k]->w = 50 - k; nd[k]->n = nd[(k + 1) % 3]; nd[k]->ip = &ga[2 * k];
    pa[k] = ga + (4 - k); sa[k] = nd[2 - k];
  }
  if (s == 1) { pa[1] = &nd[2]->w; nd[0]->ip = &nd[1]->v; sa[1] = nd[0]; nd[2]->n = nd[2]; }
}
"""
IDX = (("k", 1), ("i",), ("k", 0))
PLACES = {"global": ("p", "o", "i"), "param": ("lp", "lo", "li"), "local": ("lp", "lo", "li"), "mixed": ("p", "lo", "i")}
# start: (state of rs, p, o, i)
STARTS = ((0, 2, 0, 1), (1, 1, 1, 0), (1, 12, 2, 2))
CONTEXT = ("argument", "assigned", "tested", "returned", "statement", "negated", "loop")


class UB(Exception):
    pass


def gen(t, n, memo={}):
    """Expressions of a type with n operators."""
    if (t, n) in memo:
        return memo[t, n]
    o = []
    if t == "ILV" and n > 0:
        o += [("*", x) for x in gen("IP", n - 1)]
        o += [("[", x, j) for x in gen("IP", n - 1) for j in IDX]
        o += [("->", x, m) for x in gen("SP", n - 1) for m in "vw"]
    elif t == "IPLV":
        if n == 0:
            o = [("p",)]
        else:
            o += [("->", x, "ip") for x in gen("SP", n - 1)]
            o += [("*", x) for x in gen("IPP", n - 1)]
            o += [("[", x, j) for x in gen("IPP", n - 1) for j in IDX]
    elif t == "SPLV":
        if n == 0:
            o = [("o",)]
        else:
            o += [("->", x, "n") for x in gen("SP", n - 1)]
            if n == 1:
                o += [("[", ("sa",), j) for j in IDX]
    elif t == "IPP":
        if n == 0:
            o = [("pa",)]
        else:
            o += [("&", x) for x in gen("IPLV", n - 1) if x != ("p",) or n > 9]
            o += [("+", x, IDX[0]) for x in gen("IPP", n - 1)]
    elif t == "IP":
        o += gen("IPLV", n)
        if n == 0:
            o.append(("ga",))
        else:
            o += [("&", x) for x in gen("ILV", n - 1)]
            o += [(b, x, j) for x in gen("IP", n - 1) for b in "+-" for j in IDX[:2]]
            o += [("r+", x, j) for x in gen("IP", n - 1) for j in IDX[1:2]]
            o += [("f", "i", x) for x in gen("IP", n - 1)]
            o += [("cast", "int *", x) for x in gen("IP", n - 1)]
            o += [(b, x) for x in gen("IPLV", n - 1) for b in ("++x", "--x", "x++", "x--")]
            o += [(b, x, j) for x in gen("IPLV", n - 1) for b in ("+=", "-=") for j in IDX[:2]]
            for a in range(n):
                o += [("=", x, y) for x in gen("IPLV", a) for y in gen("IP", n - 1 - a)]
            o += [("?", ("i",), x, y) for a in range(n) for x in gen("IP", a) for y in gen("IP", n - 1 - a)] if n < 3 else []
    elif t == "SP":
        o += gen("SPLV", n)
        if n > 0:
            o += [("f", "s", x) for x in gen("SP", n - 1)]
            o += [("cast", "struct S *", x) for x in gen("SP", n - 1)]
            for a in range(n):
                o += [("=", x, y) for x in gen("SPLV", a) for y in gen("SP", n - 1 - a)]
            o += [("?", ("i",), x, y) for a in range(n) for x in gen("SP", a) for y in gen("SP", n - 1 - a)] if n < 3 else []
    elif t == "INT":
        o += gen("ILV", n)
        if n > 0:
            o += [(b, x) for x in gen("ILV", n - 1) for b in ("++x", "--x", "x++", "x--", "neg", "par")]
            o += [(b, x, ("k", 7)) for x in gen("ILV", n - 1) for b in ("+=", "-=", "=", "<<=")]
            for a in range(1, n):
                o += [(b, x, y) for x in gen("ILV", a) for y in gen("ILV", n - 1 - a) for b in ("=", "+=")]
                o += [("bin", x, y) for x in gen("ILV", a) for y in gen("ILV", n - 1 - a)]
            for a in range(n):
                o += [(b, x, y) for x in gen("IP", a) for y in gen("IP", n - 1 - a) if len(x) * len(y) < 5 for b in ("==", "d", "<")]
                o += [(b, x, y) for x in gen("SP", a) for y in gen("SP", n - 1 - a) if len(x) * len(y) < 5 for b in ("==", "!=")]
            o += [("!", x) for x in gen("SP", n - 1)]
            o += [("[c", x) for x in gen("ILV", n - 1)]
    memo[t, n] = o = list(dict.fromkeys(o))
    return o


class M:
    def __init__(self, start):
        r, p, o, i = start
        c = {("ga", k): 2 * k + 3 for k in range(6)}
        for k in range(3):
            c[("n", k, "v")], c[("n", k, "w")], c[("n", k, "n")], c[("n", k, "ip")] = 40 + k, 50 - k, ("s", (k + 1) % 3), ("ga", 2 * k)
            c[("pa", k)], c[("sa", k)] = ("ga", 4 - k), ("s", 2 - k)
        if r == 1:
            c[("pa", 1)], c[("n", 0, "ip")], c[("sa", 1)], c[("n", 2, "n")] = ("n", 2, "w"), ("n", 1, "v"), ("s", 0), ("s", 2)
        c[("p",)] = ("ga", p) if p < 10 else ("n", p - 10, "v")
        c[("o",)], c[("i",)] = ("s", o), i
        self.c, self.log, self.eff = c, [], []

    def rd(self, l):
        if l not in self.c:
            raise UB
        self.log.append(l)
        return self.c[l]

    def wr(self, l, v, start):
        if l not in self.c:
            raise UB
        self.log.append(l)
        self.c[l] = v
        self.eff.append((l, start, len(self.log)))
        return v

    def add(self, a, n):
        if n == 0:
            return a
        if a[0] in ("ga", "pa", "sa") and 0 <= a[1] + n <= (5 if a[0] == "ga" else 2):
            return (a[0], a[1] + n)
        raise UB

    def addr(self, e):
        """Location that an lvalue designates."""
        k = e[0]
        if k in ("p", "o", "i"):
            return (k,)
        if k == "*":
            return self.ev(e[1])
        if k == "[":
            return self.add(self.ev(e[1]), self.ev(e[2]))
        if k == "->":
            return ("n", self.ev(e[1])[1], e[2])
        raise AssertionError(e)

    def ev(self, e):
        k = e[0]
        at = len(self.log)
        if k == "k":
            return e[1]
        if k in ("ga", "pa", "sa"):
            return (k, 0)
        if k in ("p", "o", "i", "*", "[", "->"):
            return self.rd(self.addr(e))
        if k == "&":
            a = self.addr(e[1])
            if a not in self.c:
                raise UB
            return a
        if k in ("+", "r+"):
            if k == "r+":
                return self.add(self.ev(e[1]), self.ev(e[2]))
            return self.add(self.ev(e[1]), self.ev(e[2]))
        if k == "-":
            return self.add(self.ev(e[1]), -self.ev(e[2]))
        if k in ("f", "cast"):
            return self.ev(e[2])
        if k in ("++x", "--x", "x++", "x--"):
            l = self.addr(e[1])
            old = self.rd(l)
            d = 1 if "+" in k else -1
            new = old + d if isinstance(old, int) else self.add(old, d)
            self.wr(l, new, at)
            return new if k[2] == "x" else old
        if k in ("+=", "-=", "<<="):
            l = self.addr(e[1])
            v = self.ev(e[2])
            old = self.rd(l)
            if k == "<<=":
                new = old << v
            else:
                d = v if k == "+=" else -v
                new = old + d if isinstance(old, int) else self.add(old, d)
            return self.wr(l, new, at)
        if k == "=":
            l = self.addr(e[1])
            return self.wr(l, self.ev(e[2]), at)
        if k == "?":
            return self.ev(e[2] if self.ev(e[1]) else e[3])
        if k == "neg":
            return -self.ev(e[1])
        if k == "par":
            return self.ev(e[1])
        if k == "[c":
            return ("ga", 0) and self.rd(self.add(("ga", 0), self.ev(e[1]) & 3))
        if k == "bin":
            return self.ev(e[1]) * 2 - self.ev(e[2])
        if k == "!":
            self.ev(e[1])
            return 0
        a, b = self.ev(e[1]), self.ev(e[2])
        if k == "==":
            return int(a == b)
        if k == "!=":
            return int(a != b)
        if a[0] != "ga" or b[0] != "ga":
            raise UB
        return a[1] - b[1] if k == "d" else int(a[1] < b[1])

    def run(self, e):
        v = self.ev(e)
        for l, a, b in self.eff:
            if any(x == l for x in self.log[:a] + self.log[b:]):
                raise UB
        # a second effect on the same object within the first one's range
        for (l, a, b), (l2, a2, b2) in itertools.combinations(self.eff, 2):
            if l == l2:
                raise UB
        return v


def enc(v):
    if isinstance(v, int):
        return v
    if v[0] == "ga":
        return v[1]
    if v[0] == "s":
        return v[1]
    return (10 if v[2] == "v" else 20) + v[1]


PREC = {"k": 9, "ga": 9, "pa": 9, "sa": 9, "p": 9, "o": 9, "i": 9, "[": 8, "->": 8, "f": 8, "x++": 8, "x--": 8, "par": 9, "*": 7, "&": 7, "++x": 7, "--x": 7, "cast": 7, "neg": 7, "!": 7, "+": 5, "-": 5, "r+": 5, "d": 5, "bin": 5,
        "<": 4, "==": 3, "!=": 3, "?": 1, "=": 0, "+=": 0, "-=": 0, "<<=": 0, "[c": 8}


def text(e, nm):
    k = e[0]
    def t(x, lev):
        s = text(x, nm)
        return s if PREC[x[0]] >= lev else "(" + s + ")"
    if k in nm:
        return nm[k]
    if k == "k":
        return str(e[1])
    if k in ("ga", "pa", "sa"):
        return k
    if k == "*":
        return "*" + t(e[1], 7)
    if k == "[":
        return "%s[%s]" % (t(e[1], 8), text(e[2], nm))
    if k == "[c":
        return "ga[3 & %s]" % t(e[1], 4)
    if k == "->":
        return "%s->%s" % (t(e[1], 8), e[2])
    if k == "&":
        return "&" + t(e[1], 7)
    if k in ("+", "-"):
        return "%s %s %s" % (t(e[1], 5), k, t(e[2], 6))
    if k == "r+":
        return "%s + %s" % (t(e[2], 5), t(e[1], 6))
    if k == "f":
        return "f%s(%s)" % (e[1], text(e[2], nm))
    if k == "cast":
        return "(%s) %s" % (e[1], t(e[2], 7))
    if k in ("++x", "--x"):
        return k[:2] + t(e[1], 7)
    if k in ("x++", "x--"):
        return t(e[1], 8) + k[1:]
    if k in ("=", "+=", "-=", "<<="):
        return "%s %s %s" % (t(e[1], 7), k, t(e[2], 0))
    if k == "?":
        return "%s ? %s : %s" % (t(e[1], 2), t(e[2], 1), t(e[3], 1))
    if k == "neg":
        return "-" + t(e[1], 8)
    if k == "par":
        return "(" + text(e[1], nm) + ")"
    if k == "!":
        return "!" + t(e[1], 7)
    if k == "bin":
        return "%s * 2 - %s" % (t(e[1], 6), t(e[2], 6))
    if k == "d":
        return "%s - %s" % (t(e[1], 5), t(e[2], 6))
    return "%s %s %s" % (t(e[1], 5), k, t(e[2], 5))


def kind(e):
    """Type of the value: int, pointer to int, pointer to a struct."""
    k = e[0]
    if k in ("++x", "--x", "x++", "x--", "=", "+=", "-=", "cast", "f", "?", "<<="):
        return kind(e[2] if k in ("cast", "f", "?") else e[1])
    if k in ("p", "ga", "&", "+", "-", "r+"):
        return "P"
    if k == "o":
        return "S"
    if k == "->":
        return {"v": "I", "w": "I", "n": "S", "ip": "P"}[e[2]]
    if k in ("*", "["):
        return {"P": "I", "Q": "P", "T": "S"}[kind2(e[1])]
    return "I"


def kind2(e):
    if e[0] == "pa":
        return "Q"
    if e[0] == "sa":
        return "T"
    if e[0] == "&":
        return {"I": "P", "P": "Q"}[kind(e[1])]
    if e[0] in ("+", "-"):
        return kind2(e[1])
    return kind(e)


def callarm(e):
    """A call in an arm of ?:, which pnut rejects."""
    return e[0] == "?" and "'f'" in str(e[2:]) or any(callarm(x) for x in e[1:] if isinstance(x, tuple))


def case(st, id, pl):
    e, place, ctx = pl
    nm = dict(zip("poi", PLACES[place]))
    ki = kind(e)
    calls, exp = [], []
    for s in STARTS:
        m = M(s)
        try:
            v = m.run(e)
        except UB:
            continue
        p0 = ("ga", s[1]) if s[1] < 10 else ("n", s[1] - 10, "v")
        c = m.c
        st.nstates += 1
        st.transitions += len(m.log)
        st.outcomes.add((enc(v), tuple(m.log[:6])))
        show = {"I": [v], "P": [enc(v)], "S": [enc(v)]}[ki]
        if ctx == "tested":
            show = [int(bool(v) if ki == "I" else True)]
        elif ctx == "statement":
            show = []
        elif ctx == "negated":
            show = [int(not v) if ki == "I" else 0]
        elif ctx == "loop":
            show = [1 if (v if ki == "I" else 1) else 0]
        # globals that are not used keep what rs and the caller gave them
        gp, go = (enc(c[("p",)]) if nm["p"] == "p" else 5), (enc(c[("o",)]) if nm["o"] == "o" else 1)
        lp, lo, li = (5 if nm["p"] == "p" else enc(c[("p",)])), (1 if nm["o"] == "o" else enc(c[("o",)])), (4 if nm["i"] == "i" else c[("i",)])
        out = [lp, lo, li, gp, go] + [c[("ga", k)] for k in range(6)]
        for k in range(3):
            out += [enc(c[("pa", k)]), enc(c[("sa", k)]), c[("n", k, "v")], c[("n", k, "w")], enc(c[("n", k, "n")]), enc(c[("n", k, "ip")])]
        exp += show + out
        pv = "ga + %d" % s[1] if s[1] < 10 else "&nd[%d]->v" % (s[1] - 10)
        ov, iv = "nd[%d]" % s[2], str(s[3])
        g = ["ga + 5", "nd[1]", "4"]
        l = ["ga + 5", "nd[1]", "4"]
        for j, (n, x) in enumerate(zip(PLACES[place], (pv, ov, iv))):
            (g if n in ("p", "o", "i") else l)[j] = x
        calls.append("rs(%d); p = %s; o = %s; i = %s; c%d(%s, %s, %s);" % (s[0], g[0], g[1], g[2], id, l[0], l[1], l[2]))
    if not calls:
        return None
    tx = text(e, nm)
    w = {"I": "ps(%s);", "P": "ps(ei(%s));", "S": "ps(es(%s));"}[ki]
    head, tail = "int *lp, struct S *lo, int li", ""
    decl = ""
    if place == "local":
        head, decl = "int *ap, struct S *ao, int ai", "int *lp = ap; struct S *lo = ao; int li = ai; "
    d = "dump(lp, lo, li);"
    ty = {"I": "int ", "P": "int *", "S": "struct S *"}[ki]
    if ctx == "argument":
        b = w % tx + " " + d
    elif ctx == "assigned":
        decl += ty + "r; "
        b = "r = %s; %s %s" % (tx, w % "r", d)
    elif ctx == "tested":
        b = "if (%s) ps(1); else ps(0); %s" % (tx, d)
    elif ctx == "negated":
        b = "ps(!(%s)); %s" % (tx, d)
    elif ctx == "statement":
        b = "%s; %s" % (tx, d)
    elif ctx == "loop":
        decl += "int z = 0; "
        b = "while (%s) { z++; break; } ps(z); %s" % (tx, d)
    elif ctx == "returned":
        if nm["p"] == "p" and nm["o"] == "o":
            tail = "%sr%d(int li) { return %s; }\n" % (ty, id, tx)
            b = w % ("r%d(%s)" % (id, "li")) + " " + d
        else:
            b = w % tx + " " + d
    fun = "%svoid c%d(%s) { %s%s }" % (tail, id, head, decl, b)
    return Case(id, fun, ["ps(%d);" % id] + calls + ["nl();"], [(" ".join(map(str, [id] + exp)) + " ").encode()], "%s (%s, %s)" % (tx, place, ctx))


def main(chk):
    q = chk.quick
    chk.assumptions = ["pointers stay in their array; no object is changed and used without a sequence point", "addresses of locals and arithmetic on struct pointers and calls in arms of ?: are not supported in shell output"]
    es = []
    for n in range(0, 4):
        for t in ("INT", "IP", "SP"):
            l = gen(t, n)
            es += l if n < 3 or not q else l[::29]
    es = [e for e in dict.fromkeys(es) if e[0] not in ("k", "ga") and not callarm(e)]
    places, plan = list(PLACES), []
    for j, e in enumerate(es):
        n = 3 if len(str(e)) < 60 else 1
        for k in range(n if q else len(CONTEXT)):
            plan.append((e, places[(j + k) % 4], CONTEXT[(j // 4 + 3 * k) % 7]))
    chk.extra["expressions"] = len(es)
    pre = '#include <stdio.h>\n#include <stdlib.h>\n' + PRE
    rs = [(Runner("sh", "dash", pre, batch=120, timeout=60), None)]
    for j, s in enumerate(("bash", "ksh", "mksh", "yash", "zsh")):
        rs.append((Runner("sh", s, pre, batch=100, timeout=90), (lambda c, j=j: c.id % 20 == j) if q else (lambda c, j=j: c.id % 8 == j)))
    rs.append((Runner("sh-release", "dash", pre, batch=120, timeout=60), lambda c: c.id % 10 == 7))
    sweep(chk, plan, case, rs)
    for p in plan[:: max(1, len(plan) // 4)][:4]:
        chk.sample(text(p[0], {"p": "p", "o": "o", "i": "i"}) + " " + repr(p[1:]))
