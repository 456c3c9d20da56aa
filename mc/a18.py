"""Self-hosting: pnut compiled by pnut behaves as pnut compiled by a C compiler."""
import hashlib, itertools, multiprocessing, re
from concurrent.futures import ProcessPoolExecutor
import core, procs
from core import *
from batch import *

SEEDS = {
    "expr": ("both", r'''int g; int *p; int arr[4] = { 1, 2, 3 };
int f(int a, int b) { int c = a * 3 - b / 2 % 7; c += a << 2 | b & 6 ^ 1; c = c > 0x1f ? ~c : -a;
  if (a && !b || c != 012) c -= 'x'; g = a == b; g *= 2; p[a] = p[b]++ + --g; arr[1] >>= 1; return a <= b; }
'''),
    "stmt": ("both", r'''int fact(int n);
int n = 5;
void loop(int k) { int i; for (i = 0; i < k; i += 1) { if (i == 3) continue; else if (i > 7) break; n += i; }
  while (n) { n -= 1; } do { k = k + 1; } while (k < 9);
  switch (k) { case 1: case 2: n = fact(k); break; case 'c': { n = 2; return; } default: n = 0; } ; }
int fact(int n) { if (n <= 1) return 1; return n * fact(n - 1); }
int main(int argc, char **argv) { int r = argc; loop(r); return fact(3) - 6; }
'''),
    "types": ("both", r'''typedef int word; typedef struct Node *link; enum Col { RED, GREEN = 5, BLUE = GREEN1 };
struct Node { int value; char tag; struct Node *next; word w[3]; };
struct Node *head; unsigned char u; const char *names[2]; long q = 0777; char text[6] = "hello";
link mk(int v, word k) { link l = malloc(sizeof(struct Node)); l->value = (int) v; l->next = head; (*l).tag = 'a'; return l; }
static void none(void) { ; }
int use(link a) { return a->next->value + BLUE + *names[0]; }
'''.replace("GREEN1", "9")),
    "cpp": ("both", r'''#include <stdio.h>
#define N 3
#define ADD(a, b) ((a) + (b) * N)
#define CAT(a, b) a ## b
#define STR(x) #x
#define EMPTY
#if defined(N) && N > 2
int xy = ADD(1, N) ; /* c */
#elif N
int CAT(x, z);
#else
#error no
#endif
#undef N
#ifndef N
char *s = STR(xy); EMPTY // end
#endif
int main() { return CAT(x, y) - ADD1 - __LINE__; }
'''.replace("ADD1", "xy")),
    "str": ("both", r'''char *a = "a\n\t\"\\\0b" "c\x41\101";
int c = '\n' + '\'' + '"' + '\\' + '\0';
void out(char *s, int k) { printf("%d %s %c %x %5d%%\n", k, s, c, -1, 2); putchar('x'); puts("z"); printf(s); exit(k); }
int main() { out("q", a[1]); return 0; }
'''),
    "sh": ("sh", r'''int a, b[3], *c; char *d;
int rec(int x, int y) { int t; t = x; if (y > 0 && rec(t, y - 1) || x) { t = rec(x + 1, y); } a = b[t]; return t; }
int main() { char *buf = malloc(10); int fd = open("f", 0); int n = read(fd, buf, 5); write(1, buf, n); free(buf); close(fd); d = buf; return rec(*c, b[a]) ; }
'''),
    "nat": ("native", r'''union U { int i; char c[4]; long long q; } u; struct P { short x; unsigned char y; struct { int z; }; } ps[2] = { { 1, 2 }, { 3 } };
static int counter = 7; int (*fp)(int, char *); extern int ext(int); unsigned long long big = 0xffffffffffULL;
int g(int a, char *b) { static int k; int loc[3] = { 1, 2 }; struct P v = { 5 }; k++; v.x = a, v.z = ~k; goto done; loc[0] = sizeof(struct P) + sizeof a;
done: return fp == 0 ? loc[a] : (*fp)(a, &b[1]) + u.c[2] + (char) big + *&v.x; }
int main(void) { fp = g; return fp(1, "x") & (unsigned) -1 >> 28; }
'''),
}
ALPHA_Q = ["a", "0", "\"s\"", "(", ")", "{", "}", ";", ",", "*", "=", "int", "#define"]
ALPHA_T = ALPHA_Q + ["?", "x1", "'c'", "[", "]", ":", "+", "-", "&", "!", "~", "->", ".", "++", "<<", "&&", "||", "<=", "if", "else", "while", "for", "do", "case", "default", "return", "break", "struct", "enum", "typedef", "char", "void", "unsigned", "long", "static", "sizeof", "const", "#if", "#endif", "#else", "1.", "0x", "0x1u", "\n", "/*", "//", "\\", "@", "...", "##"]


def toks(text):
    return re.findall(r'\s+|/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|0x[0-9a-fA-F]+\w*|\d\w*|->|\+\+|--|<<=|>>=|<<|>>|[-+*/%&|^<>=!]=|&&|\|\||##|.', text, re.S)


def variants(text, quick):
    """Every text at edit distance one in tokens, over the alphabet."""
    ts = toks(text)
    assert "".join(ts) == text
    real = [i for i, t in enumerate(ts) if t.strip()]
    alpha = ALPHA_Q if quick else ALPHA_T
    yield "unchanged", text
    for k, i in enumerate(real):
        at = "token %d (%s): " % (k, ts[i])
        yield at + "deleted", "".join(ts[:i] + ts[i + 1:])
        yield at + "twice", "".join(ts[:i] + [ts[i], " ", ts[i]] + ts[i + 1:])
        yield at + "cut", "".join(ts[:i])
        if k + 1 < len(real):
            j = real[k + 1]
            yield at + "swapped", "".join(ts[:i] + [" ", ts[j]] + ts[i + 1:j] + [ts[i], " "] + ts[j + 1:])
        for a in alpha:
            yield at + "replaced by " + a, "".join(ts[:i] + [a] + ts[i + 1:])
            if not quick:
                yield at + "preceded by " + a, "".join(ts[:i] + [a, " "] + ts[i:])


GEN = {"sh": ["-Dsh", "-DRT_NO_INIT_GLOBALS"], "x86_64": ["-Dtarget_x86_64_linux"], "i386": ["-Dtarget_i386_linux"]}


HOSTS_C = {"gcc": ["gcc", "-O0", "-w"], "gcc-O2": ["gcc", "-O2", "-w"], "clang": ["clang", "-O1", "-w"]}


def c_built(gen, name, d):
    out = os.path.join(d, "%s-by-%s" % (gen, name))
    subprocess.run(HOSTS_C[name] + GEN[gen] + ["-o", out, os.path.join(REPO, "pnut.c")], check=True, stderr=subprocess.DEVNULL)
    return [out]


def pnut_built(gen, host, hostgen, name, d, shell=None):
    """A compiler for gen: pnut.c compiled by host, a compiler generating hostgen. Returns (command, error)."""
    out = os.path.join(d, "%s-by-%s" % (gen, name))
    rc, o, err = core.run(host + GEN[gen] + [os.path.join(REPO, "pnut.c")], timeout=600, unpriv=False)
    if rc != 0:
        return None, "status %r: %r %r" % (rc, o[-300:], err[-300:])
    with open(out, "wb") as f:
        f.write(o)
    os.chmod(out, 0o755)
    return ([SHELLS[shell]] if hostgen == "sh" else []) + [out], None


def agree(r, o):
    """A program that is accepted has one translation; one that is rejected is rejected by all."""
    return o[:2] == r[:2] if r[0] == 0 else o[0] != 0


def seed_part(job):
    kinds, items, comps, slow = job
    d = os.path.join(SCRATCH, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)
    stats = {"accepted": 0, "rejected": 0, "undefined": 0, "runs": 0, "runs of scripts": 0}
    bad, hashes = [], set()
    for n, desc, text, opts in items:
        if text is not None:
            with open(os.path.join(d, "p.c"), "w") as f:
                f.write(text)
        args = list(opts) + ["p.c" if text is not None else os.path.join(REPO, "pnut.c")]
        for gen in kinds:
            ref, *others = comps[gen]
            r = procs.run_fast(ref[1] + args, b"", 2 if text is not None else 60, d)
            stats["runs"] += 1
            if r[0] is None or r[0] < 0 or r[0] > 1:
                stats["undefined"] += 1  # crashed
                continue
            ok = r[0] == 0
            stats["accepted" if ok else "rejected"] += 1
            if ok:
                hashes.add(hashlib.md5(r[1]).digest()[:8])
            for name, cmd in others:
                if "sh-" in name:
                    if text is None or not ok and n % 16 or n % slow:
                        continue
                    stats["runs of scripts"] += 1
                o = procs.run_fast(cmd + args, b"", 120 if "sh-" in name else 20, d)
                stats["runs"] += 1
                if not agree(r, o):
                    if o[0] is None:  # slow machine? once more
                        o = procs.run_fast(cmd + args, b"", 300, d)
                        if agree(r, o):
                            continue
                    if text is not None and core.run(["/usr/bin/gcc", "-std=gnu89", "-w", "-fsyntax-only", os.path.join(d, "p.c")], unpriv=False)[0] != 0:
                        stats["undefined"] += 1  # not a C program
                        continue
                    bad.append((gen, name, desc, text, args, r, o))
    return stats, bad, hashes


OPTIONS = ["", "-DSAFE_MODE", "-DRT_COMPACT", "-DSH_SAVE_VARS_WITH_SET", "-DOPTIMIZE_CONSTANT_PARAM", "-DOPTIMIZE_LONG_LINES", "-DSH_INLINE_CHAR_LITERAL", "-DSUPPORT_LINE_CONTINUATION", "-DSUPPORT_ADDRESS_OF_OP", "-DDEBUG_CPP", "-DDEBUG_PARSER"]
SPECS = ["-Dsh -DRT_NO_INIT_GLOBALS", "-Dsh", "-Dtarget_i386_linux", "-Dtarget_x86_64_linux", "-Dtarget_x86_64_mac", "-DRELEASE_PNUT_SH", "-DRELEASE_PNUT_i386_linux", "-DRELEASE_PNUT_x86_64_linux"]


def main(chk):
    q = chk.quick
    chk.assumptions = ["programs on which the gcc-built pnut crashes are left out", "of rejected programs only the rejection is compared, not the message", "texts that gcc does not accept as C, whose treatment may be undefined, do not count when the compilers differ on them"]
    d = fresh_dir("selfhost")
    os.chmod(d, 0o755)
    procs.build_runner()
    jobs = [(g, h) for g in GEN for h in HOSTS_C if not q or h == "gcc" or h == "gcc-O2" and g == "sh"]
    comps = {g: [] for g in GEN}
    for (g, h), c in zip(jobs, pmap(lambda j: c_built(*j, d), jobs)):
        comps[g].append((h, c))
    shells = [s for s in (("dash",) if q else ("dash", "bash", "ksh", "mksh", "yash", "zsh")) if s in SHELLS]
    hosts = [("x86_64", comps["x86_64"][0][1], "x86_64", None), ("i386", comps["i386"][0][1], "i386", None), ("sh-dash", comps["sh"][0][1], "sh", "dash")]
    jobs = [(g, h) for g in GEN for h in hosts]
    res = pmap(lambda j: pnut_built(j[0], j[1][1], j[1][2], j[1][0], d, j[1][3]), jobs)
    for (g, h), (c, e) in zip(jobs, res):
        if c is None:
            chk.violation("pnut does not compile itself: generator %s by %s" % (g, h[0]), e)
            continue
        if q and h[0] == "i386" and g != "i386":
            continue
        comps[g].append((h[0], c))
        if h[3]:
            for sh in shells[1:]:
                comps[g].append(("sh-" + sh, [SHELLS[sh]] + c[1:]))
    if chk.violations:
        return
    jobs = []
    for name, (k, text) in SEEDS.items():
        kinds = {"both": ["sh", "x86_64", "i386"], "sh": ["sh"], "native": ["x86_64", "i386"]}[k]
        seen, items = set(), []
        for desc, t in variants(text, q):
            if t not in seen:
                seen.add(t)
                items.append((len(items), name + ", " + desc, t, ()))
        chk.sample(items[len(items) // 2][2])
        chk.transitions += len(items) * sum(len(comps[g]) - 1 for g in kinds)
        n = NCPU * 6
        jobs += [(kinds, items[i::n], comps, 13 if q else 5) for i in range(n)]
    own = [(0, "pnut.c with " + s + " " + o, None, tuple(s.split() + ([o] if o else []))) for s in SPECS for o in OPTIONS if not q or o in ("", "-DSAFE_MODE", "-DOPTIMIZE_CONSTANT_PARAM")]
    jobs = [(list(GEN), [x], comps, 1) for x in own] + jobs
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(seed_part, jobs))
    shown = {}
    for st, bad, h in res:
        for k, v in st.items():
            chk.extra[k] = chk.extra.get(k, 0) + v
        for x in h:
            chk.state(x)
        for gen, name, desc, text, args, r, o in bad:
            shown[gen, name] = shown.get((gen, name), 0) + 1
            if shown[gen, name] > 2:
                continue
            chk.violation("pnut for %s built by %s translates differently from pnut built by gcc: %s" % (gen, name, desc),
                          "arguments: %s\nbuilt by gcc: status %r, %d bytes ending %r\nbuilt by %s: status %r, %d bytes ending %r %r" % (" ".join(args), r[0], len(r[1]), r[1][-200:], name, o[0], len(o[1]), o[1][-200:], o[2][-100:]),
                          {"p.c": text} if text is not None else {})
    chk.traces = chk.extra["runs"]
