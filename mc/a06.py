"""Histories of file operations against an explicit model of files and descriptors."""
import itertools
from core import *
from batch import *

SHIO = """
void pd(int v) { printf("%d ", v); }
void nl() { putchar(10); }
"""
NATIO = NATIVE_IO.replace("void pd(int v)", "void pd0(int v)").replace("void ps(int v) { pd(v); oc(' '); }", "void pd(int v) { pd0(v); oc(' '); }").replace("on_ = on_ - 1; oc(10)", "oc(10)")
COMMON = """
char buf[3000];
int v0; int v1; int v2;
%(F)s
char *h0; int *h1;
void pread(int fd, int n) {
  int k; int i;
  for (i = 0; i < n + 2; i++) buf[i] = 7;
  k = read(fd, buf + 1, n);
  pd(k);
  if (n < 50) { for (i = 0; i < n + 2; i++) pd(buf[i] & 255); }
  else {
    int s = 0;
    for (i = 0; i < n + 2; i++) s = (s * 5 + (buf[i] & 255)) %% 9973;
    pd(s);
  }
}
void mk(char *name, char *data, int n) {
  int fd = open(name, W, 511);
  write(fd, data, n);
  close(fd);
}
void mkline(char *name, int a, int b, int e) {
  int fd = open(name, W, 511); int i;
  for (i = 0; i < a; i++) buf[i] = 33 + i %% 90;
  buf[a] = 10;
  for (i = 0; i < b; i++) buf[a + 1 + i] = 122 - i %% 85;
  buf[a + 1 + b] = 10;
  write(fd, buf, a + 1 + b + e);
  close(fd);
}
void heap() { h0 = malloc(5); h0[0] = 'q'; h0[1] = 'w'; h0[2] = 0; h0[4] = 'z'; h1 = malloc(3 * sizeof(int)); h1[0] = 5; h1[2] = 6; }
void hcheck() { pd(h0[0] == 'q' && h0[1] == 'w' && h0[2] == 0 && h0[4] == 'z' && h1[0] == 5 && h1[2] == 6); free(h0); free(h1); nl(); }
"""


def prelude(native):
    w, a = (577, 1089) if native else (1, 2)
    # pnut's native FILE is a descriptor; in shell output fopen returns a pointer
    return (NATIO if native else SHIO) + "#ifdef GCC_REF\n#include <fcntl.h>\n#define W 577\n#define A 1089\n#else\n#define W %d\n#define A %d\n#endif\n" % (w, a) + \
        COMMON % {"F": "#ifndef GCC_REF\n#define FILE %s\n#endif\nFILE *p0; FILE *p1; FILE *p2;" % ("int" if native else "char")}


CONTENTS = [("", b""), ("a", b"a"), ("ab\\n", b"ab\n"), ("\\n", b"\n"), ("x\\\\y\\n z", b"x\\y\n z"), ("\\n\\nq", b"\n\nq"), ("l1\\nl2\\n", b"l1\nl2\n")]
WRITES = [("w", b"w"), ("u\\nv", b"u\nv"), ("\\n", b"\n"), ("%\\\\", b"%\\")]
FILES = ("A", "B")


class FS:
    """files: name -> bytes; slots: index -> (kind, name, mode, pos, fd)"""

    def __init__(self, files, slots=()):
        self.files, self.slots = files, slots

    def free_fd(self):
        used = {s[4] for s in self.slots if s}
        fd = 3
        while fd in used:
            fd += 1
        return fd

    def enabled(self, alpha):
        out = []
        for op in alpha:
            k = op[0]
            if k == "O":
                if None in self.slots:
                    i = self.slots.index(None)
                    if op[1] in self.files if op[2] == "r" else op[2] == "a" or not any(s and s[1] == op[1] for s in self.slots):
                        out.append(("O", i) + op[1:])
            elif k == "F":
                if None in self.slots:
                    i = self.slots.index(None)
                    if op[1] in self.files:
                        out.append(("F", i) + op[1:])
            else:
                for i, s in enumerate(self.slots):
                    if not s:
                        continue
                    if k == "C" or k == "R" and s[0] == "O" and s[2] == "r" or k == "G" and s[0] == "F" or k == "W" and s[2] in "wa":
                        out.append((k, i) + op[1:])
        return out

    def do(self, op, id):
        """Returns (C statement, printed integers, new state)."""
        k, i = op[0], op[1]
        files, slots = dict(self.files), list(self.slots)
        nm = lambda f: '"F%d%s"' % (id, f)
        if k == "O":
            fd = self.free_fd()
            f, m = op[2], op[3]
            if m == "w":
                files[f] = b""
            elif m == "a":
                files.setdefault(f, b"")
            slots[i] = ("O", f, m, 0, fd)
            return "v%d = open(%s, %s, 511); pd(v%d);" % (i, nm(f), {"r": "0", "w": "W", "a": "A"}[m], i), [fd], FS(files, slots)
        if k == "F":
            slots[i] = ("F", op[2], "r", 0, self.free_fd())
            return 'p%d = fopen(%s, "r"); pd(p%d != 0);' % (i, nm(op[2]), i), [1], FS(files, slots)
        s = slots[i]
        if k == "C":
            slots[i] = None
            return ("pd(close(v%d));" if s[0] == "O" else "pd(fclose(p%d));") % i, [0], FS(files, slots)
        if k == "R":
            n = op[2]
            d = files[s[1]][s[3]:s[3] + n]
            slots[i] = s[:3] + (s[3] + len(d), s[4])
            b = [7] + list(d) + [7] * (n - len(d)) + [7]
            if n >= 50:
                h = 0
                for c in b:
                    h = (h * 5 + c) % 9973
                b = [h]
            return "pread(v%d, %d);" % (i, n), [len(d)] + b, FS(files, slots)
        if k == "G":
            d = files[s[1]]
            if s[3] < len(d):
                slots[i] = s[:3] + (s[3] + 1, s[4])
                return "pd(fgetc(p%d));" % i, [d[s[3]]], FS(files, slots)
            return "pd(fgetc(p%d));" % i, [-1], FS(files, slots)
        if k == "W":
            t, d = WRITES[op[2]]
            old = files[s[1]]
            if s[2] == "a":
                files[s[1]] = old + d
            else:
                old = old.ljust(s[3], b"\0")
                files[s[1]] = old[:s[3]] + d + old[s[3] + len(d):]
                slots[i] = s[:3] + (s[3] + len(d), s[4])
            return 'pd(write(v%d, "%s", %d));' % (i, t, len(d)), [len(d)], FS(files, slots)

    def key(self):
        return tuple(sorted(self.files.items())), tuple(self.slots)


def histories(fs, alpha, depth, maxw=9):
    """All maximal histories: every prefix is covered by one of them."""
    ops = fs.enabled(alpha) if depth else []
    if not ops:
        yield []
        return
    for op in ops:
        # the text of the history is id-independent; the id is put in later
        _, _, nx = fs.do(op, 0)
        for h in histories(nx, alpha, depth - 1):
            yield [op] + h


def case(st, id, p):
    init, hist, nslots = p
    body, lines = ["heap();"], []
    files = {}
    for f, c in zip(FILES, init):
        if c is None:
            continue
        if isinstance(c, tuple):
            a, b, e = c
            body.append('mkline("F%d%s", %d, %d, %d);' % (id, f, a, b, e))
            files[f] = (bytes(33 + i % 90 for i in range(a)) + b"\n" + bytes(122 - i % 85 for i in range(b)) + b"\n")[:a + 1 + b + e]
        else:
            body.append('mk("F%d%s", "%s", %d);' % (id, f, CONTENTS[c][0], len(CONTENTS[c][1])))
            files[f] = CONTENTS[c][1]
    fs = FS(files, [None] * nslots)
    desc = []
    out = []

    def step(op):
        nonlocal fs
        s, o, fs = fs.do(op, id)
        body.append(s)
        out.extend(o)
        desc.append("%s%d%s" % (op[0], op[1], ",".join(str(x) for x in op[2:])))
        st.transitions += 1
        st.nstates += 1
    for op in hist:
        step(op)
    for i, s in enumerate(fs.slots):
        if s:
            step(("C", i))
    # read everything back
    for f in sorted(fs.files):
        step(("O", 0, f, "r"))
        step(("R", 0, max(len(fs.files[f]) + 1, 9)))
        step(("C", 0))
    st.outcomes.add(tuple(out))
    line = "".join("%d " % o for o in out) + "1 "
    body.append("hcheck();")
    c = Case(id, "void k%d() {\n%s\n}" % (id, "\n".join(body)), ["k%d();" % id], [line.encode()], "files %r: %s" % (init, " ".join(desc)))
    c.ctx = any(op[0] == "F" for op in hist)
    c.level = len(hist)
    return c


def plans(chk):
    out = []
    q = chk.quick
    O = lambda f, m: ("O", f, m)
    # one file, one slot, read-only: contents x read sizes
    for c in range(len(CONTENTS)):
        for h in histories(FS({"A": CONTENTS[c][1]}, [None]), [O("A", "r"), ("R", 1), ("R", 2), ("R", 5), ("C",)], 4 if q else 5):
            out.append(((c,), h, 1))
        for h in histories(FS({"A": CONTENTS[c][1]}, [None]), [("F", "A"), ("G",), ("C",)], 6 if q else 8):
            out.append(((c,), h, 1))
    # writing: truncation, appending, two slots on one or two files
    for init in ((None,), (2,)):
        files = {"A": CONTENTS[init[0]][1]} if init[0] is not None else {}
        for h in histories(FS(files, [None] * 2), [O("A", "r"), O("A", "w"), O("A", "a"), ("R", 2), ("W", 0), ("W", 1), ("C",)], 4 if q else 5):
            out.append((init, h, 2))
    for h in histories(FS({"A": b"ab\n", "B": b"x\\y\n z"}, [None] * 2), [O("A", "r"), O("B", "r"), O("B", "w"), O("A", "a"), ("R", 3), ("W", 2), ("C",)], 4 if q else 5):
        out.append(((2, 4), h, 2))
    # three descriptors
    for h in histories(FS({"A": b"l1\nl2\n"}, [None] * 3), [O("A", "r"), O("B", "w"), ("R", 1), ("W", 3), ("C",)], 5 if q else 6):
        out.append(((6,), h, 3))
    for h in histories(FS({"A": b"\n\nq", "B": b"ab\n"}, [None] * 3), [("F", "A"), O("B", "r"), O("A", "r"), ("G",), ("R", 2), ("C",)], 4 if q else 5):
        out.append(((5, 2), h, 3))
    # long lines: the buffer of the descriptor is replaced
    L = (0, 15, 16, 17, 255, 256, 257, 996, 997, 998, 999, 1000, 1001, 1400)
    big = [(a, b, e) for a in L for b in L for e in (0, 1) if a + b < 2500]
    for k, c in enumerate(big):
        f = {"A": (bytes(33 + i % 90 for i in range(c[0])) + b"\n" + bytes(122 - i % 85 for i in range(c[1])) + b"\n")[:c[0] + 1 + c[1] + c[2]], "B": b"ab\n"}
        hs = [[("O", 0, "A", "r"), ("R", 0, c[0]), ("O", 1, "B", "r"), ("R", 0, 1), ("R", 1, 1), ("R", 0, c[1] + 2), ("R", 1, 4), ("R", 0, 2)],
              [("F", 0, "A"), ("O", 1, "A", "r"), ("R", 1, c[0] + 2), ("G", 0), ("G", 0), ("R", 1, c[1] + 9), ("C", 1), ("G", 0)]]
        for h in hs if not q or k % 3 == 0 else hs[k % 2:][:1]:
            out.append(((c, 2), h, 2))
    return out


def main(chk):
    chk.assumptions = ["shell: open flags are 0 (read), 1 (truncate), 2 (append), as pnut's own sources use them; native: the operating system's",
                       "existing files are opened for reading (a missing file ends a shell script)", "a file is not truncated while it is open (shells read lines ahead)", "text without null characters in files read by shells"]
    plan = plans(chk)
    seen, uniq = set(), []
    for p in plan:
        k = (p[0], tuple(p[1]), p[2])
        if k not in seen:
            seen.add(k)
            uniq.append(p)
    chk.extra["histories"] = len(uniq)
    big = lambda c: True
    if chk.quick:
        runs = [(Runner("sh", "dash", prelude(False), batch=120), None),
                (Runner("sh-release", "bash", prelude(False), batch=120), lambda c: c.id % 40 == 1 or (c.level == 8 and c.id % 4 == 0)),
                (Runner("i386", None, prelude(True), batch=200), None),
                (Runner("x86_64", None, prelude(True), batch=200), None)]
    else:
        runs = [(Runner("sh", s, prelude(False), batch=120, timeout=240), None) for s in SHELLS]
        runs += [(Runner(v, None, prelude(True), batch=200), None) for v in ("i386", "x86_64")]
        runs += [(Runner("sh-release", "dash", prelude(False), batch=120), None), (Runner("sh-nofree", "dash", prelude(False), batch=120), None),
                 (Runner("sh-compact", "bash", prelude(False), batch=60, timeout=240), lambda c: c.id % 5 == 0)]
    sweep(chk, uniq, case, runs)
    for p in uniq[:: max(1, len(uniq) // 5)][:5]:
        chk.sample("files %r: %r" % (p[0], p[1]))
