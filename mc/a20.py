"""What pnut accepts it translates correctly: all programs at token edit distance one from
programs that cover the language; the reference is gcc with sanitizers (cached)."""
import hashlib, multiprocessing, re
from concurrent.futures import ProcessPoolExecutor
import core, procs
from core import *
from batch import *
from a18 import toks

IO = r'''int putchar(int c);
void *malloc(int n);
void pd(int x) { if (x > 9) pd(x / 10); putchar('0' + x % 10); }
void s(int x) { if (x < 0) { putchar('-'); x = 0 - x; } pd(x); putchar(' '); }
void ss(const char *p) { while (*p != 0) { putchar(*p); p = p + 1; } putchar(' '); }
'''
# The runtime of the scripts defines malloc and putchar itself
IO_SH = IO.replace("int putchar(int c);\nvoid *malloc(int n);\n", "#include <stdio.h>\n#include <stdlib.h>\n").replace("while (*p != 0)", "while (*p)")
IO_NAT = "#include <stdio.h>\n#include <stdlib.h>\n" + IO.split("\n", 2)[2]

SEEDS = {
    "expr": ("both", r'''int g = 2; int *p; int arr[4];
int f(int a, int b) { int c = a * 3 - b / 2 % 7; c += (a << 2 | b & 6) ^ 1; c = c > 0x1f ? ~c : -a;
  if (a && !b || c != 012) c -= 'x'; g = a == b; g *= 2; p[a] = p[b] + g--; ++g; arr[1] >>= 1; s(c); s(arr[a]); return a <= b; }
int main() { p = arr; arr[0] = 9; arr[1] = 40; arr[2] = 5; arr[3] = 1; s(f(1, 2)); s(f(3, 0)); s(f(2, 2)); s(g); s(arr[1]); s(*p); return 0; }
'''),
    "stmt": ("both", r'''int fact(int n);
int n = 5; int i;
int loop(int k) { for (i = 0; i < k; i += 1) { if (i == 3) continue; else if (i > 7) break; n += i; }
  while (n) { n -= 1; k ^= n; } do { k = k + 1; } while (k < 9);
  switch (k) { case 1: case 2: n = fact(k); break; case 'c': { n = 2; return 6; } case 9: n = 4; break; default: n = 0; } return k; }
int fact(int n) { if (n <= 1) return 1; return n * fact(n - 1); }
int main() { int r = 2; while (1) { s(loop(r)); s(n); s(i); r += 4; if (r > 12) break; } s(fact(4)); return 0; }
'''),
    "data": ("both", r'''typedef int word; typedef struct Node *link; enum Col { RED, GREEN = 5, BLUE } col;
struct Node { int value; int tag; struct Node *next; word w; } *head; const char *names[2]; int q = 0777; int t[3] = { 7, 8, 9 };
link mk(int v, word k) { link l = malloc(sizeof(struct Node)); l->value = (int) v; l->next = head; l->tag = 'a'; l->w = k; head = l; return l; }
int sum(link a) { int r = 0; while (a) { r = r * 3 + a->value - a->w; a = a->next; } return r; }
int main() { link x = mk(1, RED); link y = mk(BLUE, GREEN); names[0] = "zero"; names[1] = "one" + 1; s(sum(x)); s(sum(head)); y->next->value = t[1]; s(sum(y)); s(x->tag); ss(names[1]); s(q); s(*t); x = y; s(x->w == GREEN); s(y == head); return 0; }
'''),
    "cpp": ("both", r'''#define N 3
#define ADD(a, b) ((a) + (b) * N)
#define CAT(a, b) a ## b
#define STR(x) #x
#define EMPTY
#if defined(N) && N > 2
int xy = ADD(1, N) ; /* c */
#elif N
int CAT(x, z);
#else
int xy = 9;
#endif
#undef N
#ifndef N
char *str = STR(xy); EMPTY // end
#endif
#define N ADD(2, CAT(1, 2))
int main() { int N1 = 4; s(CAT(x, y)); ss(str); s(ADD(N1, 5 - 1 EMPTY)); s('N'); ss("N" " N"); return 0; }
'''.replace("ADD(N1, 5 - 1 EMPTY)", "N1")),
    "calls": ("both", r'''int x = 1; int y; int ar[2];
int id(int a) { return a; }
int two(int a, int b) { x = a; a = b; return a * 10 + x; }
void swap(int *a, int *b) { int t = *a; *a = *b; *b = t; }
int rec(int d, int acc) { int loc = d; if (d == 0) return acc; s(loc); acc = rec(d - 1, acc * 2 + loc); return acc - loc; }
int main() { int v = 3; y = 6; s(two(id(2), two(id(v), 4))); s(rec(3, v)); s(y); ar[1] = 5; swap(ar, ar + 1); s(ar[0]); v = two(1, v); v = id(x) + id(y) * v; s(v); if (id(0) || two(1, 0) == 1 && id(v)) s(8); s(!id(5)); return 0; }
'''),
    "nat": ("native", r'''union U { int i; char c[4]; } u; struct P { short x; unsigned char y; struct { int z; } m; } ps[2] = { { 1, 2, { 4 } }, { 3 } };
static int counter = 7; int (*fp)(int, char *); unsigned big = 0xfffffffeU; long long ll = 5;
int g(int a, char *b) { static int k = 2; int loc[3] = { 1, 2 }; struct P v = { 5 }; k++; v.x = a, v.m.z = ~k; if (a > 5) goto done; loc[0] = sizeof(struct P) + sizeof a; v.y = 300;
done: s(v.y); s(v.m.z); return loc[a & 1] + b[0] + (char) big + *&v.x; }
int main(void) { fp = g; u.i = 258; s(u.c[1]); s(fp(1, "x")); s((*fp)(6, "y")); ps[1] = ps[0]; ps[0].x--; s(ps[1].x + ps[0].y); s(ps[1].m.z); s(big >> 28); s(big / 3 > 5); ll = ll << 33; s(ll >> 30); s(counter += (unsigned char) -1); s(u.i < -1u); return 0; }
'''),
    "decl": ("native", r'''int a1 = 3, *a2 = 0, a3[2][3] = { { 1, 2, 3 }, { 4 } }; char a4[] = "hey", *a5[2] = { "p", "qr" }; unsigned short a6 = 65535; signed char a7 = -2; const int a8 = 6;
typedef int (*fun)(int); typedef struct { int a, b; char n[3]; } rec; rec r1 = { 1, 2, "ab" }, *r2; enum { E1 = -1, E2, E3 = 7 } en = E3; int later; int inc2(void);
int inc(int v) { return v + 1; } int inc2(void) { return later + 11; } fun tab[2] = { inc, inc }; int deref(int **pp, int row[3]) { return **pp + row[1]; }
int main(void) { int *lp = &a1, *const cp = lp, m[2] = { 8, 9 }; a2 = &a3[0][1]; r2 = &r1; s(*a2); s(a3[1][0]); s(a2[2]); ss(a4); ss(a5[1]); s(a6); s(a7); s(a8); s(tab[1](4)); s(deref(&a2, a3[1])); s(r2->n[1]); s(r1.b); s(en + E2); later = inc2(); s(later); s(*(cp + 0)); s(m[1]); s(sizeof(a3)); s(sizeof(rec)); s(sizeof a4); s((int) (a2 - a3[0])); return 0; }
'''),
}
ALPHA = ["0", "1", "(", ")", "{", "}", ";", ",", "*", "=", "int", "[", "]", ":", "+", "-", "&", "!", "~", ".", "->", "++", "--", "<<", ">>", "&&", "||", "<", "==", "%", "/", "|", "^", "?", "+=", "-=",
         "if", "else", "while", "do", "for", "return", "break", "continue", "case", "default", "static", "const", "void", "enum", "struct", "switch", "extern", "typedef", "\"s\"", "'c'", "#x", "2", "register"]
NATIVE = ["char", "unsigned", "short", "sizeof", "1u", "-1", "long long", "goto", "signed", "union", "0xffu", "70000"]


def texts(name):
    kind, body = SEEDS[name]
    ts = toks(body)
    assert "".join(ts) == body
    real = [i for i, t in enumerate(ts) if t.strip()]
    own = sorted({t for t in ts if re.match(r"[A-Za-z_]\w*$", t)} - {"int", "return", "main", "s", "ss", "if", "while", "define", "long"} - ({"char"} if kind == "both" else set()))
    alpha = ALPHA + own + (NATIVE if kind == "native" else [])
    seen = set()
    for k, i in enumerate(real):
        l = [ts[:i] + ts[i + 1:], ts[:i] + [ts[i], " "] + ts[i:]]
        if k + 1 < len(real):
            j = real[k + 1]
            l.append(ts[:i] + [" ", ts[j]] + ts[i + 1:j] + [ts[i], " "] + ts[j + 1:])
        for a in alpha:
            l.append(ts[:i] + [" ", a, " "] + ts[i + 1:])
            l.append(ts[:i] + [" ", a, " "] + ts[i:])
        for x in l:
            t = "".join(x)
            if t not in seen:
                seen.add(t)
                yield t


def reference(text, kind):
    """What the program prints, by gcc with sanitizers and by clang; None if it is not C or not defined."""
    d = os.path.join(SCRATCH, "ref%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(d + "/p.c", "w") as f:
        f.write(text)
    strict = ["-std=gnu99", "-funsigned-char" if kind == "sh" else "-fsigned-char"]

    def go(cmd, timeout):
        try:
            p = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=d, env={"PATH": os.environ["PATH"], "ASAN_OPTIONS": "detect_leaks=0"})
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            return None, b"", b""
    if go(["gcc", *strict, "-fsyntax-only", "-pedantic-errors", "-Werror=int-conversion", "-Werror=sequence-point", "-Werror=incompatible-pointer-types", "p.c"], 60)[0] != 0:
        return None
    outs = set()
    for cc in (["gcc", *strict, "-Werror=return-type", "-O0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], ["clang", *strict, "-w", "-O1", "-fsanitize=memory"]):
        if go([*cc, "-o", "p", "p.c"], 60)[0] != 0:
            return None
        rc, out, err = go(["./p"], 1)
        if rc is None or rc < 0 or err or len(out) > 100000:
            return None
        if rc > 127 or b"NOT_SUPPORTED" in out:
            return None
        outs.add((rc, out))
    return outs.pop() if len(outs) == 1 else None


CACHE = os.environ.get("A20CACHE", os.path.join(VERIF, "reference.txt"))
_cache = None


def load_cache():
    global _cache
    _cache = {}
    if os.path.exists(CACHE):
        for l in open(CACHE):
            k, _, v = l.rstrip("\n").partition(" ")
            _cache[k] = eval(v) if v else None


FUNCTION_VALUE = re.compile(r"\b(f|fact|loop|mk|sum|id|two|swap|rec|main|s|ss)\b(?!\s*\()")


# Known finding of A01: index of an assigned element with an operator of lower precedence than +
KNOWN_SH = re.compile(rb"_\$\(\(_?\w+ \+ [^()]* (?:[-+*/%&|^]=|<<=|>>=|=|<<|>>|[&|^<>?]|==|!=|<=|>=|&&|\|\|) ")


# Types C leaves to the implementation: that of sizeof and of pointer differences, the size of enums and of long
SIZEOF = re.compile(r"(sizeof|[-~<>=/%*])[\s(]*sizeof|sizeof\W*en\b|sizeof\W*a2 -|(?<!long )\blong\b(?!\s+long\b)")


def key(kind, text):
    return hashlib.md5((kind + text).encode()).hexdigest()[:12]


def part(job):
    """Translate and run every i-th text with one build of pnut."""
    name, variant, shell, exe, i, n, misses = job
    native = is_native(variant)
    kind = "native" if native else "sh"
    io = IO_NAT if native else IO_SH
    d = os.path.join(SCRATCH, "w%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    os.chmod(d, 0o777)
    res = {"texts": 0, "accepted": 0, "defined": 0, "miss": 0}
    bad, new = [], {}
    for k, t in enumerate(texts(name)):
        if k % n != i or "i386" in variant and ("long" in t or "sizeof" in t):
            continue
        text = io + t
        with open(d + "/p.c", "w") as f:
            f.write(text)
        r = procs.run_fast([exe, "p.c"], b"", 5, d)
        res["texts"] += 1
        if r[0] != 0 or not native and FUNCTION_VALUE.search(t):
            continue
        res["accepted"] += 1
        h = key(kind, text)
        if h in _cache:
            ref = _cache[h]
        else:
            res["miss"] += 1
            if res["miss"] > misses:
                continue
            ref = new[h] = reference(text, kind)
        if ref is None or not native and (b"NOT_SUPPORTED" in r[1] or KNOWN_SH.search(r[1])):
            continue
        res["defined"] += 1
        with open(d + "/p.out", "wb") as f:
            f.write(r[1])
        os.chmod(d + "/p.out", 0o755)
        cmd = [d + "/p.out"] if native else [SHELLS[shell], d + "/p.out"]
        o = procs.run_fast(cmd, b"", 10, d)
        if o[0] is None:
            o = procs.run_fast(cmd, b"", 60, d)
        if o[:2] != ref and not (native and (b"NOT_SUPPORTED" in o[1] or SIZEOF.search(t))):
            bad.append((name, variant, shell, t, text, ref, o))
    return res, bad, new


def main(chk):
    q = chk.quick
    chk.assumptions = ["reference: gcc -O0 with address and undefined behaviour sanitizers and clang -O1 with the memory sanitizer agree and report nothing; results kept in reference.txt, keyed by the text"]
    procs.build_runner()
    load_cache()
    plan = []
    if q:
        plan += [("sh", "dash", n, 5) for n in SEEDS if SEEDS[n][0] == "both"]
        plan += [("x86_64", None, n, 5) for n in SEEDS]
    else:
        plan += [("sh", "dash", n, 1) for n in SEEDS if SEEDS[n][0] == "both"]
        plan += [("x86_64", None, n, 1) for n in SEEDS]
        plan += [("i386", None, n, 3) for n in SEEDS] + [("x86_64-safe", None, n, 10) for n in SEEDS]
        plan += [("sh", s, n, 30) for n in SEEDS if SEEDS[n][0] == "both" for s in ("bash", "mksh", "yash", "busybox") if s in SHELLS]
    pmap(build, sorted({p[0] for p in plan}))
    jobs = []
    for v, sh, n, step in plan:
        k = 16 if q else 64
        jobs += [(n, v, sh, build(v), i * step, k * step, 8 if q else 40) for i in range(k)]
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    shown = {}
    for j, (r, bad, new) in zip(jobs, res):
        for k, x in r.items():
            chk.extra["%s %s" % (j[0], k)] = chk.extra.get("%s %s" % (j[0], k), 0) + x
        chk.nstates += r["texts"]
        chk.transitions += r["accepted"]
        chk.traces += r["defined"]
        for name, variant, shell, t, text, ref, o in bad:
            k = (name, variant, shell)
            shown[k] = shown.get(k, 0) + 1
            if shown[k] <= 3:
                chk.violation("[%s%s] program accepted and translated wrongly (edit of seed %s)" % (variant, "/" + shell if shell else "", name), "expected %r\nfound    %r %r\n%s" % (ref, o[0], (o[1] + o[2])[:600], t), {"p.c": text})
    for k, x in shown.items():
        if x > 3:
            print("%s: %d disagreements" % (k, x))
    chk.sample(next(texts("expr"))[:200])
