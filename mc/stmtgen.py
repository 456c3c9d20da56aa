"""Statement trees: exhaustive enumeration by size, C text, and an interpreter
that explores every sequence of branch decisions up to a depth."""
from functools import lru_cache

# statements (tuples):
# ('t',) trace action      ('d',) declaration of a block local that updates x
# ('e',) empty statement   ('b',) break  ('c',) continue  ('r',) return
# ('blk', stmts)           ('if', S) ('ife', S, S) ('wh', S) ('do', S)
# ('for', S)  for (T; c; T) S      ('fe', S)  for (;;) S    ('fc', S) for (; c;) S
# ('sw', ((labels, stmts), ...))   labels: tuple over 0,1,2,'d'
# ('goto', n) ('lab', n, S)

SW_SHAPES = [((0,),), (("d",),), ((0,), (1,)), ((0,), ("d",)), (("d",), (0,)), ((0, 1), ("d",)), ((0, "d"), (1,)), (("d", 1), (0,))]
SW_SHAPES3 = [((0,), ("d",), (1,)), ((0,), (1,), ("d",)), (("d",), (0,), (2,))]


class Gen:
    def __init__(self, leaves="tbcr", compounds=("if", "ife", "wh", "do", "for", "fe", "sw"), blocks=True, shapes=SW_SHAPES,
                 gotos=0, clause_end=None, labs=0):
        self.leaves, self.compounds, self.blocks, self.shapes = leaves, compounds, blocks, shapes
        self.gotos, self.labs = gotos, labs
        self.clause_end = clause_end  # e.g. "br": every clause ends with break or return
        self.stmt = lru_cache(None)(self._stmt)
        self.lists = lru_cache(None)(self._lists)

    def _stmt(self, n, loop, sw):
        """Statements of size n; loop: inside a loop, sw: inside a switch."""
        out = []
        if n == 1:
            for l in self.leaves:
                if l == "b" and not (loop or sw) or l == "c" and not loop:
                    continue
                out.append((l,))
            for g in range(self.gotos):
                out.append(("goto", g))
            return out
        for k in self.compounds:
            if k == "if":
                out += [("if", s) for s in self.body(n - 1, loop, sw)]
            elif k == "ife":
                for i in range(1, n - 1):
                    out += [("ife", a, b) for a in self.body(i, loop, sw) for b in self.body(n - 1 - i, loop, sw)]
            elif k == "du":
                out += [("du", s) for s in self.body(n - 1, loop, True)]
            elif k == "sw":
                for sh in self.shapes:
                    out += [("sw", tuple(zip(sh, cl))) for cl in self.clauses(len(sh), n - 1, loop)]
            else:
                out += [(k, s) for s in self.body(n - 1, True, sw)]
        for g in range(self.labs):
            if sw:
                out += [("lab", 10 + g, s) for s in self.stmt(n - 1, loop, sw)]
        for g in range(self.gotos):
            out += [("lab", g, s) for s in self.stmt(n - 1, loop, sw)]
        return out

    def body(self, n, loop, sw):
        """A statement, or a block of at least two statements, of total size n."""
        out = list(self.stmt(n, loop, sw))
        if self.blocks and n > 1:
            out += [("blk", l) for l in self.lists(n, loop, sw) if len(l) > 1]
        return out

    def _lists(self, n, loop, sw):
        """Non-empty statement lists of total size n."""
        out = []
        for i in range(1, n + 1):
            for s in self.stmt(i, loop, sw):
                if i == n:
                    out.append((s,))
                else:
                    out += [(s,) + r for r in self.lists(n - i, loop, sw)]
        return out

    def clauses(self, k, n, loop):
        if n < k:
            return
        if k == 0:
            if n == 0:
                yield ()
            return
        for i in range(1, n + 1):
            for l in self.lists(i, loop, True):
                if self.clause_end and l[-1][0] not in self.clause_end:
                    continue
                for r in self.clauses(k - 1, n - i, loop):
                    yield (l,) + r


COND_STYLES = [("c",), ("and", "not", "or", "eq", "c")]


class Fn:
    """One generated function: numbering of trace ids, condition forms."""

    def __init__(self, stmts, style=0, tail=True):
        self.stmts, self.tail = stmts, tail
        self.style = COND_STYLES[style]
        self.n = 0
        self.nc = 0
        self.tree = tuple(self.num(s) for s in stmts)

    def num(self, s):
        k = s[0]
        if k in "tdrv":
            self.n += 1
            return (k, self.n)
        if k in ("e", "b", "c"):
            return s
        if k == "goto":
            return s
        if k == "lab":
            return (k, s[1], self.num(s[2]))
        if k == "blk":
            return (k, tuple(self.num(x) for x in s[1]))
        if k == "sw":
            return (k, tuple((ls, tuple(self.num(x) for x in b)) for ls, b in s[1]))
        if k in ("fe", "du"):
            return (k, self.num(s[1]))
        cond = self.style[self.nc % len(self.style)]
        self.nc += 1
        if k == "for":
            a, b = self.n + 1, self.n + 2
            self.n += 2
            return (k, cond, a, b, self.num(s[1]))
        if k == "ife":
            return (k, cond, self.num(s[1]), self.num(s[2]))
        return (k, cond, self.num(s[1]))


CTEXT = {"c": "c()", "and": "c() && c()", "not": "!c()", "or": "c() || c()", "eq": "c() == 1"}


def sub(s, sfx):
    """Text of a statement in a position where a declaration cannot stand."""
    return text(("d", s[1]) if s[0] == "v" else s, sfx)


def marked(s, every, n):
    """The statement with labels that nothing jumps to on its parts (n: list used as a counter)."""
    def rec(x):
        return marked(x, every, n)
    k = s[0]
    if k in ("blk",):
        s = (k, tuple(rec(x) for x in s[1]))
    elif k == "sw":
        s = (k, tuple((ls, tuple(rec(x) for x in b)) for ls, b in s[1]))
    elif k in ("fe", "du"):
        s = (k, rec(s[1]))
    elif k in ("if", "wh", "fc", "do"):
        s = (k, s[1], rec(s[2])) + s[3:]
    elif k == "ife":
        s = (k, s[1], rec(s[2]), rec(s[3]))
    elif k == "for":
        s = s[:4] + (rec(s[4]),)
    n[0] += 1
    if k == "v" or n[0] % every:
        return s
    return ("ml", n[0], s)


def text(s, sfx=""):
    k = s[0]
    if k == "t":
        return "T(%d);" % s[1]
    if k == "d":
        return "{ int z%d = x + %d; x = z%d; T(x); }" % (s[1], s[1], s[1])
    if k == "v":
        return "int z%d = x + %d; x = z%d; T(x);" % (s[1], s[1], s[1])
    if k == "e":
        return ";"
    if k == "b":
        return "break;"
    if k == "c":
        return "continue;"
    if k == "r":
        return "return x + %d;" % (s[1] * 100)
    if k == "goto":
        return "goto L%d%s;" % (s[1], sfx)
    if k == "du":
        return "switch (s()) " + sub(s[1], sfx)
    if k == "lab" and s[1] >= 10:
        return ("default: " if s[1] == 12 else "case %d: " % (s[1] - 10)) + sub(s[2], sfx)
    if k == "lab":
        return "L%d%s: %s" % (s[1], sfx, sub(s[2], sfx))
    if k == "ml":
        return "M%d%s: %s" % (s[1], sfx, sub(s[2], sfx))
    if k == "blk":
        return "{ " + " ".join(text(x, sfx) for x in s[1]) + " }"
    if k == "sw":
        out = []
        for ls, b in s[1]:
            out.append(" ".join("default:" if l == "d" else "case %d:" % l for l in ls) + (" ; " if b[0][0] == "v" else " ") + " ".join(text(x, sfx) for x in b))
        return "switch (s()) { " + " ".join(out) + " }"
    if k == "fe":
        return "for (;;) " + sub(s[1], sfx)
    if k == "if":
        return "if (%s) %s" % (CTEXT[s[1]], sub(s[2], sfx))
    if k == "ife":
        a = sub(s[2], sfx)
        if dangling(s[2]):
            a = "{ " + a + " }"
        return "if (%s) %s else %s" % (CTEXT[s[1]], a, sub(s[3], sfx))
    if k == "wh":
        return "while (%s) %s" % (CTEXT[s[1]], sub(s[2], sfx))
    if k == "fc":
        return "for (; %s; ) %s" % (CTEXT[s[1]], sub(s[2], sfx))
    if k == "do":
        return "do %s while (%s);" % (sub(s[2], sfx), CTEXT[s[1]])
    if k == "for":
        return "for (T(%d); %s; T(%d)) %s" % (s[2], CTEXT[s[1]], s[3], sub(s[4], sfx))
    raise AssertionError(s)


def dangling(s):
    k = s[0]
    if k == "if":
        return True
    if k == "ife":
        return dangling(s[3])
    if k == "ml":
        return dangling(s[2])
    if k in ("wh", "fc"):
        return dangling(s[2])
    if k == "for":
        return dangling(s[4])
    if k in ("fe", "du"):
        return dangling(s[1])
    if k == "lab":
        return dangling(s[2])
    return False


class Diverge(Exception):
    pass


class More(Exception):
    pass


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    pass


class Goto(Exception):
    def __init__(self, n):
        self.n = n


PRELUDE = """
int tr; int ch;
void T(int i) { tr = (tr * 7 + i) % 100003; }
int c() { int b; b = ch % 2; ch = ch / 2; return b; }
int s() { int b; b = ch % 4; ch = ch / 4; return b; }
void put(int id, int r, int x) { printf("%d %d %d %d %d\\n", id, r, x, tr, ch); }
"""


class Machine:
    """C abstract machine for these statements under a fixed decision string."""

    def __init__(self, bits, nbits, maxsteps):
        self.ch, self.avail, self.maxsteps = bits, nbits, maxsteps
        self.used = 0
        self.tr = 0
        self.x = 5
        self.steps = 0
        self.cover = set()

    def step(self, what):
        self.steps += 1
        self.cover.add(what)
        if self.steps > self.maxsteps:
            raise Diverge()

    def T(self, i):
        self.tr = (self.tr * 7 + i) % 100003

    def c(self):
        self.used += 1
        b = self.ch & 1
        self.ch >>= 1
        return b

    def s(self):
        self.used += 2
        b = self.ch & 3
        self.ch >>= 2
        return b

    def cond(self, k):
        self.step("?")
        if k == "c" or k == "eq":
            return self.c() == 1
        if k == "not":
            return not self.c()
        if k == "and":
            return self.c() and self.c()
        return self.c() or self.c()

    def list(self, l, entry=None):
        """Run a statement list, from the statement containing label `entry`."""
        start = 0
        while True:
            try:
                if entry is not None:
                    start = next((i for i, s in enumerate(l) if has_label(s, entry)), None)
                    if start is None:
                        raise Goto(entry)
                for i in range(start, len(l)):
                    e, entry = entry, None
                    self.run(l[i], e)
                return
            except Goto as g:
                if any(has_label(s, g.n) for s in l):
                    entry = g.n
                    continue
                raise

    def run(self, s, entry=None):
        k = s[0]
        self.step(s[:2] if k in "tdrv" else k)
        if k == "t":
            self.T(s[1])
        elif k in "dv":
            self.x += s[1]
            self.T(self.x)
        elif k == "e":
            pass
        elif k == "b":
            raise Break()
        elif k == "c":
            raise Continue()
        elif k == "r":
            raise Return(self.x + s[1] * 100)
        elif k == "goto":
            raise Goto(s[1])
        elif k == "lab":
            if entry == s[1]:
                entry = None
            self.one(s[2], entry)
        elif k == "blk":
            self.list(s[1], entry)
        elif k in ("if", "ife"):
            if entry is not None:
                if has_label(s[2], entry):
                    self.one(s[2], entry)
                else:
                    self.one(s[3], entry)
            elif self.cond(s[1]):
                self.one(s[2])
            elif k == "ife":
                self.one(s[3])
        elif k == "du":
            if entry is None:
                v = 10 + self.s()
                if v >= 12 or not has_label(s[1], v):
                    v = 12
                if not has_label(s[1], v):
                    return
                entry = v
            try:
                self.one(s[1], entry)
            except Break:
                pass
        elif k == "sw":
            flat, start, dflt, pos = [], None, None, 0
            if entry is None:
                v = self.s()
            for ls, b in s[1]:
                for l in ls:
                    if entry is None and l == v:
                        start = len(flat)
                    if l == "d":
                        dflt = len(flat)
                flat += list(b)
            try:
                if entry is not None:
                    self.list(flat, entry)
                else:
                    if start is None:
                        start = dflt
                    if start is None:
                        return
                    try:
                        self.list(flat[start:])
                    except Goto as g:
                        if any(has_label(x, g.n) for x in flat):
                            self.list(flat, g.n)
                        else:
                            raise
            except Break:
                pass
        else:
            # loops
            if k == "for":
                body, cnd = s[4], s[1]
            elif k == "fe":
                body, cnd = s[1], None
            else:
                body, cnd = s[2], s[1]
            if k == "for" and entry is None:
                self.T(s[2])
            first = True
            while True:
                self.step(k)
                if entry is None and not (first and k == "do"):
                    if cnd is not None and not self.cond(cnd):
                        break
                first = False
                try:
                    e, entry = entry, None
                    self.one(body, e)
                except Break:
                    break
                except Continue:
                    pass
                if k == "for":
                    self.T(s[3])

    def one(self, s, entry=None):
        while True:
            try:
                return self.run(s, entry)
            except Goto as g:
                if has_label(s, g.n):
                    entry = g.n
                    continue
                raise


def has_label(s, n):
    k = s[0]
    if k == "lab":
        return s[1] == n or has_label(s[2], n)
    if k == "blk":
        return any(has_label(x, n) for x in s[1])
    if k == "sw":
        return any(has_label(x, n) for _, b in s[1] for x in b)
    if k == "du" and n >= 10:
        return False
    if k in ("fe", "du"):
        return has_label(s[1], n)
    if k in ("if", "wh", "do", "fc"):
        return has_label(s[2], n)
    if k == "ife":
        return has_label(s[2], n) or has_label(s[3], n)
    if k == "for":
        return has_label(s[4], n)
    return False


def labels(s):
    """All label numbers defined in s, with repetition."""
    k = s[0]
    if k == "lab":
        return [s[1]] + labels(s[2])
    if k == "goto":
        return []
    out = []
    for x in s[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out += labels(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out += labels(y)
                    elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple):
                        for z in y[1]:
                            out += labels(z)
    return out


def gotos(s):
    k = s[0]
    if k == "goto":
        return [s[1]]
    if k in ("t", "d", "v", "e", "b", "c", "r"):
        return []
    if k == "lab":
        return gotos(s[2])
    out = []
    for x in s[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                out += gotos(x)
            else:
                for y in x:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        out += gotos(y)
                    elif isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple):
                        for z in y[1]:
                            out += gotos(z)
    return out


def paths(fn, depth, maxsteps=60):
    """Every execution of fn under every decision string of at most `depth`
    decisions (further decisions are 0). Yields (bits, ret, machine)."""
    stack = [(0, 0)]
    while stack:
        bits, n = stack.pop()
        m = Machine(bits, n, maxsteps)
        try:
            m.list(fn.tree)
            m.T(9)
            ret = 77
        except Return as r:
            ret = r.args[0]
        except Diverge:
            ret = None
        if ret is not None:
            yield bits, ret, m
        # branch on the decisions consumed beyond the prefix
        for i in range(n, min(m.used, depth)):
            stack.append((bits | (1 << i), i + 1))
