"""Histories of heap operations and pointer moves against an explicit model of objects."""
import itertools
from core import *
from batch import *

SHIO = 'void pd(int v) { printf("%d ", v); }\nvoid nl() { putchar(10); }\n'
NATIO = NATIVE_IO.replace("void pd(int v)", "void pd0(int v)").replace("void ps(int v) { pd(v); oc(' '); }", "void pd(int v) { pd0(v); oc(' '); }").replace("on_ = on_ - 1; oc(10)", "oc(10)")
COMMON = """
struct N { int v; struct N *next; char c; struct N *other; };
int *p0; int *p1; int *p2; int *q; int **r;
struct N *n0; struct N *n1; struct N *n2;
int arr[4];
int g;
int *mk(int n, int v) { int *p; int i; p = malloc(n * sizeof(int)); for (i = 0; i < n; i++) p[i] = v + i; return p; }
struct N *node(int v, struct N *next) { struct N *n; n = malloc(sizeof(struct N)); n->v = v; n->next = next; n->c = v + 1; n->other = n; return n; }
void dump(int *p, int n) { int i; for (i = 0; i < n; i++) pd(p[i]); pd(-1); }
void list(struct N *n, int max) { while (n != 0 && max > 0) { pd(n->v); pd(n->c); pd(n->other->v); n = n->next; max -= 1; } pd(-1); }
"""


class H:
    """Arrays of ints: objects oid -> list; pointers name -> None or (oid, offset)."""

    def __init__(self):
        self.objs, self.ptr, self.n, self.k = {"arr": [90, 91, 92, 93]}, {"p0": None, "p1": None, "q": None}, 0, 10
        self.code, self.out = ["arr[0] = 90; arr[1] = 91; arr[2] = 92; arr[3] = 93; p0 = 0; p1 = 0; q = 0;"], []

    def copy(self):
        h = H.__new__(H)
        h.objs = {k: list(v) for k, v in self.objs.items()}
        h.ptr, h.n, h.k = dict(self.ptr), self.n, self.k
        h.code, h.out = list(self.code), list(self.out)
        return h

    def live(self, name, k=0):
        p = self.ptr[name]
        return p and p[0] in self.objs and 0 <= p[1] + k < len(self.objs[p[0]])

    def ops(self):
        out = []
        for n in ("p0", "p1"):
            p = self.ptr[n]
            if p is None or p[0] not in self.objs or self.shared(n):
                out += [("M", n, 1), ("M", n, 3)]
            if p and p[0] in self.objs and p[1] == 0 and p[0] != "arr":
                out.append(("F", n))
            if self.live(n):
                out += [("S", n, 0)]
            if self.live(n, 2):
                out += [("S", n, 2)]
            if p and p[0] in self.objs:
                out += [("q", n, 0)]
                if len(self.objs[p[0]]) >= p[1] + 2:
                    out += [("q", n, 2)]
        if self.ptr["p0"] is None:
            out.append(("arr", "p0"))
        p = self.ptr["q"]
        if p and p[0] in self.objs:
            size = len(self.objs[p[0]])
            if p[1] < size:
                out += [("*q++",), ("++*q",), ("q+=1",), ("p1=q",)]
            if p[1] > 0:
                out += [("*--q",), ("q-=1",), ("q[-1]",)]
            if self.ptr["p0"] and self.ptr["p0"][0] == p[0]:
                out.append(("cmp",))
        if self.ptr["p0"] and self.ptr["p1"] and self.ptr["p0"] != self.ptr["p1"]:
            out.append(("swap",))
        return out

    def shared(self, n):
        """Overwriting pointer n does not lose its object."""
        return any(m != n and p and p[0] == self.ptr[n][0] for m, p in self.ptr.items())

    def do(self, op):
        h = self.copy()
        k, c, o = op[0], h.code, h.out
        h.k += 10
        if k == "M":
            h.n += 1
            h.objs[h.n] = [h.k + i for i in range(op[2])]
            h.ptr[op[1]] = (h.n, 0)
            c.append("%s = mk(%d, %d);" % (op[1], op[2], h.k))
        elif k == "F":
            del h.objs[h.ptr[op[1]][0]]
            c.append("free(%s);" % op[1])
        elif k == "arr":
            h.ptr["p0"] = ("arr", 0)
            c.append("p0 = arr;")
        elif k == "S":
            p = h.ptr[op[1]]
            h.objs[p[0]][p[1] + op[2]] = h.k
            c.append("%s[%d] = %d;" % (op[1], op[2], h.k) if op[2] else "*%s = %d;" % (op[1], h.k))
        elif k == "q":
            p = h.ptr[op[1]]
            h.ptr["q"] = (p[0], p[1] + op[2])
            c.append("q = %s + %d;" % (op[1], op[2]) if op[2] else "q = %s;" % op[1])
        elif k == "swap":
            h.ptr["p0"], h.ptr["p1"] = h.ptr["p1"], h.ptr["p0"]
            c.append("{ int *t; t = p0; p0 = p1; p1 = t; }")
        elif k == "p1=q":
            h.ptr["p1"] = h.ptr["q"]
            c.append("p1 = q;")
        elif k == "cmp":
            a, b = h.ptr["p0"][1], h.ptr["q"][1]
            o += [int(a == b), int(a < b), b - a]
            c.append("pd(p0 == q); pd(p0 < q); pd(q - p0);")
        else:
            oid, i = h.ptr["q"]
            if k == "*q++":
                h.objs[oid][i] = h.k
                h.ptr["q"] = (oid, i + 1)
                c.append("*q++ = %d;" % h.k)
            elif k == "++*q":
                h.objs[oid][i] += 1
                o.append(h.objs[oid][i])
                c.append("pd(++*q);")
            elif k == "q+=1":
                h.ptr["q"] = (oid, i + 1)
                c.append("q += 1;")
            elif k == "q-=1":
                h.ptr["q"] = (oid, i - 1)
                c.append("q -= 1;")
            elif k == "*--q":
                h.ptr["q"] = (oid, i - 1)
                o.append(h.objs[oid][i - 1])
                c.append("pd(*--q);")
            elif k == "q[-1]":
                h.objs[oid][i - 1] += h.objs[oid][0]
                c.append("q[-1] += q[%d];" % -i if i else "q[-1] += *q;")
        return h

    def finish(self):
        for n, p in self.ptr.items():
            if p and p[0] in self.objs:
                d = self.objs[p[0]]
                self.code.append("dump(%s - %d, %d);" % (n, p[1], len(d)) if p[1] else "dump(%s, %d);" % (n, len(d)))
                self.out += d + [-1]
        self.code.append("dump(arr, 4);")
        self.out += self.objs["arr"] + [-1]
        return self.code, self.out

    def key(self):
        return repr((sorted((str(k), v) for k, v in self.objs.items()), self.ptr))


class L:
    """Nodes: id -> [v, next, c, other]."""

    def __init__(self):
        self.nodes, self.ptr, self.n, self.k = {}, {"n0": None, "n1": None}, 0, 10
        self.code, self.out = ["n0 = 0; n1 = 0;"], []

    def copy(self):
        h = L.__new__(L)
        h.nodes = {k: list(v) for k, v in self.nodes.items()}
        h.ptr, h.n, h.k = dict(self.ptr), self.n, self.k
        h.code, h.out = list(self.code), list(self.out)
        return h

    def reach(self, i):
        seen = []
        while i is not None and i not in seen:
            seen.append(i)
            i = self.nodes[i][1]
        return seen

    def ops(self):
        out = []
        for a, b in (("n0", "n1"), ("n1", "n0")):
            out.append(("push", a))
            p = self.ptr[a]
            if p is None:
                if self.ptr[b] is not None:
                    out.append(("copy", a, b))
                continue
            nx = self.nodes[p][1]
            out += [("v+=", a), ("other", a, b)]
            if nx is not None:
                out += [("next", a), ("n.n.v", a), ("skip", a)]
            if self.ptr[b] is not None and self.ptr[b] != p:
                out += [("link", a, b)]
            if nx is not None or self.ptr[b] is not None:
                # pop frees: no other pointer may refer to the node
                if not any(x[1] == p or x[3] == p for i, x in self.nodes.items() if i != p) and self.ptr[b] != p:
                    out.append(("pop", a))
        return out

    def do(self, op):
        h = self.copy()
        k, c, o = op[0], h.code, h.out
        a = op[1]
        h.k += 7
        p = h.ptr[a]
        if k == "push":
            h.n += 1
            h.nodes[h.n] = [h.k, p, h.k + 1, h.n]
            h.ptr[a] = h.n
            c.append("%s = node(%d, %s);" % (a, h.k, a))
        elif k == "copy":
            h.ptr[a] = h.ptr[op[2]]
            c.append("%s = %s;" % (a, op[2]))
        elif k == "v+=":
            h.nodes[p][0] += h.nodes[h.nodes[p][3]][0]
            c.append("%s->v += %s->other->v;" % (a, a))
            if h.nodes[p][0] > 100000:
                h.nodes[p][0] = 5
                c.append("%s->v = 5;" % a)
        elif k == "other":
            t = h.ptr[op[2]]
            if t is None:
                h.nodes[p][3] = p
                c.append("%s->other = %s;" % (a, a))
            else:
                h.nodes[p][3] = t
                c.append("%s->other = %s;" % (a, op[2]))
        elif k == "next":
            h.ptr[a] = h.nodes[p][1]
            c.append("%s = %s->next;" % (a, a))
        elif k == "n.n.v":
            h.nodes[h.nodes[p][1]][0] = h.k
            h.nodes[h.nodes[p][1]][2] = h.k % 100
            c.append("%s->next->v = %d; %s->next->c = %d;" % (a, h.k, a, h.k % 100))
        elif k == "skip":
            nx = h.nodes[p][1]
            h.nodes[p][1] = h.nodes[nx][1]
            c.append("%s->next = %s->next->next;" % (a, a))
        elif k == "link":
            h.nodes[p][1] = h.ptr[op[2]]
            c.append("%s->next = %s;" % (a, op[2]))
        elif k == "pop":
            h.ptr[a] = h.nodes[p][1]
            o.append(h.nodes[p][0])
            del h.nodes[p]
            c.append("{ struct N *t; t = %s->next; pd(%s->v); free(%s); %s = t; }" % (a, a, a, a))
        return h

    def finish(self):
        for n, i in self.ptr.items():
            self.code.append("list(%s, 6);" % n)
            k = 0
            while i is not None and k < 6:
                x = self.nodes[i]
                self.out += [x[0], x[2], self.nodes[x[3]][0]]
                i, k = x[1], k + 1
            self.out.append(-1)
        return self.code, self.out

    def key(self):
        return repr((sorted(self.nodes.items()), self.ptr))


def explore(start, depth):
    """Breadth-first; one history for every reachable (state, last two operations)."""
    out, front, seen = [], [(start, ())], set()
    trans = 0
    for d in range(depth):
        nxt = []
        for h, hist in front:
            for op in h.ops():
                trans += 1
                n = h.do(op)
                k = (n.key(), tuple(hist[-1:]) + (op,), d)
                if k in seen:
                    continue
                seen.add(k)
                nxt.append((n, hist + (op,)))
        out += nxt
        front = nxt
    return out, trans


def case(st, id, p):
    h, hist = p
    h = h.copy()
    code, res = h.finish()
    st.nstates += 1
    st.outcomes.add(tuple(res))
    return Case(id, "void k%d() {\n%s\n}" % (id, "\n".join(code)), ["k%d(); nl();" % id], ["".join("%d " % v for v in res).encode()],
                " ".join("%s(%s)" % (o[0], ",".join(map(str, o[1:]))) for o in hist))


def main(chk):
    chk.assumptions = ["only initialized memory of live objects is read", "distinct objects are told apart by the values stored in them"]
    a, ta = explore(H(), 5 if chk.quick else 6)
    b, tb = explore(L(), 5 if chk.quick else 6)
    # every history that is not a proper prefix of another one is enough, but all states are dumped
    plan = a + b
    chk.transitions = ta + tb
    chk.extra["array_histories"], chk.extra["node_histories"] = len(a), len(b)
    S, N = SHIO + COMMON, NATIO + COMMON
    if chk.quick:
        runs = [(Runner("sh", "dash", S, batch=200), None), (Runner("sh-nofree", "bash", S, batch=200), lambda c: c.id % 60 == 1),
                (Runner("i386", None, N, batch=400), None), (Runner("x86_64", None, N, batch=400), None)]
    else:
        runs = [(Runner("sh", s, S, batch=200, timeout=240), None) for s in SHELLS]
        runs += [(Runner(v, None, N, batch=400), None) for v in ("i386", "x86_64")]
        runs += [(Runner("sh-nofree", "dash", S, batch=200), None), (Runner("sh-set", "dash", S, batch=200), None), (Runner("sh-release", "dash", S, batch=200), None)]
    sweep(chk, plan, case, runs)
    for h, hist in plan[:: max(1, len(plan) // 5)][:5]:
        chk.sample(" ".join("%s(%s)" % (o[0], ",".join(map(str, o[1:]))) for o in hist))
