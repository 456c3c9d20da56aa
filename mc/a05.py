"""Byte streams: everything read is what was in the input, everything written is what was given."""
import itertools
from core import *
from procs import *
from batch import NATIVE_IO

SHIO = """
void pd(int v) { printf("%d", v); }
void sp() { putchar(' '); }
void nl() { putchar(10); }
void fl() {}
void opc(int c) { putchar(c); }
"""
NATIO = """
char ob[8000]; int on;
void fl() { write(1, ob, on); on = 0; }
void opc(int c) { ob[on] = c; on = on + 1; if (on == 8000) fl(); }
void pd(int v) {
  char t[24]; int n;
  n = 0;
  if (v < 0) opc('-');
  if (v > 0) v = 0 - v;
  while (n == 0 || v < 0) { t[n] = '0' - v % 10; v = v / 10; n = n + 1; }
  while (n > 0) { n = n - 1; opc(t[n]); }
}
void sp() { opc(' '); }
void nl() { opc(10); }
"""


def io(variant):
    return NATIO if is_native(variant) else SHIO


DUMP = """
int main() {
  int c; int n;
  while ((c = getchar()) != -1) { pd(c); nl(); }
  for (n = 0; n < 3; n++) { pd(getchar()); nl(); }
  fl();
  return 0;
}
"""
COPY = """
int main() {
  int c;
  c = getchar();
  while (c >= 0) { putchar(c); c = getchar(); }
  return 0;
}
"""
# words of the input, with the strings and calls of the rest of the program in between
MIXED = """
char word[6000]; int len;
int next(char *to) {
  int c; int n = 0;
  c = getchar();
  while (c != -1 && c != 32 && c != 10) { to[n] = c; n += 1; c = getchar(); }
  to[n] = 0;
  len = n;
  return c;
}
int sum(char *s) { int r = 0; while (*s) { r = (r * 7 + (*s & 255)) % 10007; s += 1; } return r; }
int main() {
  int c; char *s;
  s = "a b";
  c = 0;
  while (c != -1) { c = next(word); pd(len); sp(); pd(sum(word)); sp(); pd(sum("x y")); sp(); pd(s[1]); sp(); pd(c); nl(); }
  fl();
  return 0;
}
"""


def read_prog(n):
    return """
char buf[%d];
int main() {
  int k; int i;
  k = 1;
  while (k > 0) {
    for (i = 0; i < %d; i++) buf[i] = 1;
    k = read(0, buf + 1, %d);
    pd(k); nl();
    for (i = 0; i < %d; i++) { pd(buf[i] & 255); sp(); }
    nl();
  }
  fl();
  return 0;
}
""" % (n + 2, n + 2, n, n + 2)


def exp_dump(s):
    return b"".join(b"%d\n" % c for c in s) + b"-1\n" * 3


def exp_read(s, n):
    out, pos = [], 0
    while True:
        k = s[pos:pos + n]
        pos += len(k)
        out.append(b"%d\n" % len(k))
        b = [1] + list(k) + [1] * (n - len(k)) + [1]
        out.append(b"".join(b"%d " % c for c in b) + b"\n")
        if not k:
            return b"".join(out)


def exp_mixed(s):
    def h(w):
        r = 0
        for c in w:
            r = (r * 7 + c) % 10007
        return r
    out, w = [], []
    for c in list(s) + [-1]:
        if c in (32, 10, -1):
            out.append("%d %d %d %d %d\n" % (len(w), h(w), h(b"x y"), 32, c))
            w = []
        else:
            w.append(c)
    return "".join(out).encode()


def de_bruijn(alpha):
    """A stream in which every ordered pair of the alphabet occurs."""
    out = []
    n = len(alpha)
    for i in range(n):
        for j in range(i, n):
            out += [alpha[i], alpha[j]]
    return bytes(out) + bytes([alpha[0]])


ALPHA = [b"a", b"\n", b"\\", b" ", b"\t", b"$", b"*", b"'", b'"', b"\r", b"`", b"\xff", b"-", b"%", b"\xc3\xa9", b"["]
PAT = bytes(b for b in range(33, 127)) + b"  \t\\\\**??[]"
EDGES = (0, 1, 15, 16, 17, 31, 32, 33, 255, 256, 257, 271, 272, 273, 287, 288, 289, 511, 512, 513, 998, 999, 1000, 1001)


def line(n, k=0):
    return bytes(PAT[(k + i) % len(PAT)] for i in range(n))


def inputs(chk):
    seen = set()

    def add(s, tag):
        if s not in seen:
            seen.add(s)
            out.append((s, tag))
    out = []
    for n in range(4):
        for t in itertools.product(ALPHA, repeat=n):
            add(b"".join(t), "short" if n < 3 else "short3")
    for n in range(4, 6 if chk.quick else 8):
        for t in itertools.product((b"a", b"\n", b"\\"), repeat=n):
            add(b"".join(t), "abc" if n < 6 else "deep")
    for n in range(4, 5 if chk.quick else 6):
        for t in itertools.product((b"a", b"\n", b"\\", b" ", b"\xff", b"*"), repeat=n):
            add(b"".join(t), "deep")
    for n in list(range(0, 300 if chk.quick else 1100)) + list(EDGES):
        for e in (b"", b"\n"):
            add(line(n, n) + e, "len")
    for a, b in itertools.product(EDGES, EDGES):
        for e in (b"", b"\n"):
            if chk.quick and a in EDGES[1::3] and b in EDGES[1::3] and e:
                continue
            add(line(a, b) + b"\n" + line(b, a) + e, "pair")
    for n in (17, 33, 273, 300):
        for p in range(n):
            if chk.quick and min(p % 16, -p % 16) > 1:
                continue
            for c in b"\\*?[\"' \t]!~-\xff":
                s = bytearray(line(n).replace(b"\\", b"k"))
                s[p] = c
                add(bytes(s) + b"\n" + b"z", "pos")
    ascii_ = [b for b in range(1, 128)]
    add(de_bruijn(ascii_), "stream")
    add(bytes(range(32, 127)) * 60 + b"\n" + bytes(range(127, 31, -1)) * 60, "stream")
    for b in range(128, 256):
        add(b"".join(bytes([b, c]) for c in (97, b, 10, b ^ 1, 92, 32, b ^ 64)), "high")
    if not chk.quick:
        every = [b for b in range(1, 256)]
        add(de_bruijn(every), "stream")
        add(de_bruijn(every[::-1]), "stream")
        add(de_bruijn([b for b in range(1, 256) if b != 10])[:6000], "stream")
    return out


def main(chk):
    chk.assumptions = ["input without null characters for the shells (they cannot read them)", "regular file as standard input",
                       "yash: ASCII input (it cannot read other bytes in the C locale)"]
    ins = inputs(chk)
    items = []
    for s, tag in ins:
        chk.nstates += len(s) + 1
        items.append(Item("dump", s, out=exp_dump(s), tag=tag, desc="codes of " + repr(s[:60])))
        if not (chk.quick and len(s) > 9000):
            items.append(Item("copy", s, out=s, tag=tag + "-c", desc="copy of " + repr(s[:60])))
        if tag in ("short", "abc", "len", "pos"):
            items.append(Item("mixed", s, out=exp_mixed(s), tag=tag + "-m", desc="words of " + repr(s[:60])))
        if tag in ("short", "abc", "len", "pair"):
            for n in (1, 2, 7, 300):
                if tag == "len" and n == 1 or tag == "pair" and n != 300 and n != 7 or tag == "short" and n == 300:
                    continue
                items.append(Item("read%d" % n, s, out=exp_read(s, n), tag=tag + "-r", desc="chunks of %d of %r" % (n, s[:60])))
    nul = []
    for t in itertools.product((b"\0", b"a", b"\n", b"\xff"), repeat=4):
        s = b"".join(t)
        nul.append(Item("dump", s, out=exp_dump(s), tag="nul"))
        nul.append(Item("copy", s, out=s, tag="nul"))
        nul.append(Item("read2", s, out=exp_read(s, 2), tag="nul"))
    items += nul
    progs = {"dump": lambda v: io(v) + DUMP, "copy": COPY, "mixed": lambda v: io(v) + MIXED}
    for n in (1, 2, 7, 300):
        progs["read%d" % n] = lambda v, n=n: io(v) + read_prog(n)
    items.sort(key=lambda it: -len(it.stdin))
    chk.transitions = sum(len(i.stdin) + 1 for i in items)
    chk.extra["inputs"] = len(ins)
    base = lambda it: it.tag != "nul"
    asc = lambda it: it.tag != "nul" and not any(c > 127 for c in it.stdin)
    small = lambda it: it.tag in ("short", "len-c", "stream", "stream-c", "pair-r")
    if chk.quick:
        # the rest of the space is run by thorough
        f = lambda it: base(it) and it.tag not in ("short3", "short3-c") or (it.tag == "short3" and len(it.stdin) == 3)
        targets = [("sh", "dash", lambda it: f(it) and it.tag not in ("deep-c", "short3-c", "pos-c", "pos-m")),
                   ("sh-release", "dash", lambda it: base(it) and (small(it) or it.tag == "len") and len(it.stdin) < 2100),
                   ("sh", "bash", lambda it: it.tag == "short" or it.tag == "len-c" and len(it.stdin) < 40),
                   ("i386", None, lambda it: it.tag in ("short", "nul", "abc-r", "len-r", "stream", "short-m")),
                   ("x86_64", None, lambda it: it.tag in ("short", "nul", "abc-r", "len-r", "stream", "short-m"))]
    else:
        targets = [("sh", s, asc if s == "yash" else base) for s in SHELLS if s != "yash"]
        targets += [("sh-release", "dash", base), ("sh-compact", "bash", lambda it: base(it) and len(it.stdin) < 3000 and it.tag in ("short", "abc", "len", "short-c", "abc-r")),
                    ("sh", "yash", asc), ("i386", None, None), ("x86_64", None, None)]
    for i in items[:: max(1, len(items) // 5)][:5]:
        chk.sample("%s: %s" % (i.prog, i.desc[:60]))
    sweep_items(chk, progs, items, targets, timeout=120)
