"""Lexical structure: tokens, comments, white space, line splicing."""
import itertools, re
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
from core import *
from batch import *
import core

PUNCT = ["<<=", ">>=", "...", "->", "++", "--", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "*=", "/=", "%=", "+=", "-=", "&=", "^=", "|=", "##",
         "[", "]", "(", ")", "{", "}", ".", "&", "*", "+", "-", "~", "!", "/", "%", "<", ">", "^", "|", "?", ":", ";", "=", ",", "#"]


class Bad(Exception):
    pass


def lex(s, splice=False):
    """C's translation phases 2 and 3 for the characters of the alphabets; Bad
    where C gives no valid token sequence (or one pnut does not claim to have)."""
    if splice:
        s = s.replace("\\\n", "")
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c in " \t\n\r\f\v":
            i += 1
        elif s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise Bad
            i = j + 2
        elif s.startswith("//", i):
            j = s.find("\n", i)
            if j < 0:
                raise Bad
            i = j
        elif c in "\"'":
            j = i + 1
            while True:
                if j >= n or s[j] == "\n":
                    raise Bad
                if s[j] == c:
                    break
                if s[j] == "\\":
                    if j + 1 >= n or s[j + 1] not in "nabfrtv\\'\"01":
                        raise Bad
                    j += 1
                j += 1
            body = s[i + 1:j]
            if c == "'" and not re.fullmatch(r"[^\\]|\\[nabfrtv\\'\"]|\\[01]{1,3}", body):
                raise Bad
            out.append(s[i:j + 1])
            i = j + 1
        elif c.isalpha() or c == "_":
            m = re.compile(r"\w+").match(s, i)
            if m.end() < n and s[m.end()] in "\"'" and m[0] in ("L", "u", "U", "u8"):
                raise Bad
            out.append(m[0])
            i = m.end()
        elif c.isdigit() or c == "." and i + 1 < n and s[i + 1].isdigit():
            m = re.compile(r"\.?\d(?:[eEpP][+-]|\w|\.)*").match(s, i)
            if not re.fullmatch(r"([1-9]\d*|0[0-7]*|0[xX][0-9a-fA-F]+)([uU]|[uU]?[lL]{1,2})?", m[0]):
                raise Bad
            out.append(m[0])
            i = m.end()
        elif c == "\\":
            raise Bad
        else:
            for p in PUNCT:
                if s.startswith(p, i):
                    break
            else:
                raise Bad
            if p == "." and s.startswith("..", i):
                raise Bad
            out.append(p)
            i += len(p)
    return out


# pnut's white space only part: "\" newline between tokens in builds without the option
def lex_default(s):
    """As lex for builds that only splice lines between tokens; Bad elsewhere."""
    if "\\\n" not in s:
        return lex(s)
    full = lex(s, True)
    t = lex(s.replace("\\\n", " "))
    if t != full or re.search(r"//[^\n]*\\\n", s):
        raise Bad
    return full


class Tok:
    """Compares the token sequence pnut reads from a text with that of its
    canonical spelling (one space between tokens), many texts per run."""

    limit = 5

    def __init__(self, extra, splice):
        self.extra, self.splice = extra, splice
        self.exe = core.build("tokenizer", extra)
        self.fail = []

    def text(self, cases):
        return "".join("\nZm%d %s\n\nZn%d %s\n" % (i, a, i, b) for i, (a, b) in enumerate(cases)) + "\nZm%d\n" % len(cases)

    def run(self, cases):
        d = fresh_dir("tok")
        try:
            src = os.path.join(d, "p.c")
            with open(src, "wb") as f:
                f.write(self.text(cases).encode("latin1"))
            rc, o, e = run([self.exe, src], unpriv=False, timeout=120)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return rc, o.replace(b"\n", b"")

    def check(self, cases):
        if len(self.fail) > self.limit or not cases:
            return 0
        rc, o = self.run(cases)
        parts = re.split(rb"(?:(?<= )|^)(Z[mn]\d+) ", o)
        bad = rc != 0
        if not bad:
            names = parts[1::2]
            want = [x for i in range(len(cases)) for x in (b"Zm%d" % i, b"Zn%d" % i)] + [b"Zm%d" % len(cases)]
            bad = names != want
        if not bad:
            seg = parts[2::2]
            for i in range(len(cases)):
                if seg[2 * i] != seg[2 * i + 1]:
                    bad = True
        if bad:
            if len(cases) == 1:
                self.fail.append((cases[0], "status %s, tokens %r" % (rc, o[:300])))
                return 0
            m = len(cases) // 2
            return self.check(cases[:m]) + self.check(cases[m:])
        return len(cases)


def words(alpha, n):
    for k in range(1, n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def tok_part(a):
    alpha, n, extra, splice, part, parts = a
    t = Tok(extra, splice)
    batch, total, valid, done = [], 0, 0, 0
    kinds = set()
    for i, w in enumerate(words(alpha, n)):
        if i % parts != part:
            continue
        total += 1
        # the case ends with a newline
        try:
            toks = lex(w + "\n", True) if splice else lex_default(w + "\n")
        except Bad:
            continue
        if re.search(r"(^|\n)[ ]*#", w) or any("\n" in x for x in toks):
            continue
        valid += 1
        kinds.add(" ".join(toks)[:12])
        batch.append((w, " ".join(toks)))
        if len(batch) == 3000:
            done += t.check(batch)
            batch = []
    done += t.check(batch)
    return total, valid, done, kinds, t.fail


PROGS = {}
PROGS["common"] = r"""
#include <stdio.h>
#define ADD(x, y) ((x) + (y))
#define K 12
#ifdef K
typedef int T;
#else
typedef char T;
#endif
#if K > 3 && ! defined ( NOPE )
enum E { A, B = 0x10, C };
#endif
struct S { int a; struct S *next; };
int g = 017, *p, arr[10];
char *str = "a/*b*/\"\\ //c" "d" ;
int f(int a, char *b) {
  int i, r = 0;
  for (i = 0; i < a; i++) { r += b[i]; r -= 'a'; r *= 2; r %= 1000; }
  while (r >= 5 || !a) { r /= 2; if (r == 9) break; else if (r != 4) continue; }
  do { r--; } while (r > 0 && a <= 3);
  switch (r) { case 1: r = 5; break; case 2: case 3: r = 6; break; default: r = ~r; }
  r &= 255; r |= 1; r ^= 6; r <<= 2; r >>= 1;
  return r ? r - -1 : + r;
}
int main() {
  struct S *q;
  T x = (int) 5;
  q = malloc(sizeof(int) * 2);
  q->a = ADD(x, K); q->next = 0;
  p = arr; *p = 3; p++; *p = '\''; --p;
  arr[x & 3] = x << 1 | x >> 1 ^ 7 % 4;
  printf("%d %s\n", f(3, "xyz") * 2, str);
  return 0;
}
"""
PROGS["native"] = r"""
#define CAT(a, b) a ## b
#define STR(a) #a
#define NOARG() 5
union U { char c; short s[2]; };
struct P { unsigned int x, y; union U u; } v = {1, 2, {3}};
static int (*fp)(int, ...);
const int ext = 4;
void put(int fd, const char *s, unsigned long n) ;
int h(register int a, ...) { goto end; a = 1; end: ; return a; }
int main(int argc, char **argv) {
  struct P a, *b = &a; int CAT(x, 1) = 5;
  long long big = 0x7fffULL;
  unsigned char c = 10u, *s = STR(hello);
  a = v; (*b).x = a.y, b->u.s[1] = 0;
  fp = &h; x1 = (*fp)(x1, 3) + NOARG();
  for (;;) { if (a.x ? 0 : 1) break; a.x = 0; }
  volatile int q = sizeof x1 + sizeof(struct P);
  return !x1 ? 0 : x1 & ~ x1;
}
"""
PROGS["pp"] = r"""
#define A B
#define B A + 1
#define F(x, y) x * (y)
#define G F
#define E
#undef NOT
#define LONG(a) a + \
   2 * a
#if defined A && !defined(C) || 0
int one = G(2, (3, 4)) E;
#elif 1
int two;
#else
int three;
#endif
#ifndef A
int four;
#endif
#ifdef __PNUT__
#endif
int main() { int A = 1; return LONG(1) - F(1, ) 2; }
"""
PROGS["pp"] = PROGS["pp"].replace("int one = G(2, (3, 4)) E;", "int one = G(2, (3 - 4)) E;").replace("int A = 1; return LONG(1) - F(1, ) 2;", "int b = 1; return LONG(b) - F(1, 2) E E;").replace("#define B A + 1", "#define B 1")

FILL = [" ", "\t", "\n", "\r\n", "\f\v", "/**/", "/*/ * // \" ' */", "/***/", " /* \n\n#else\n */ ", "// c\n", "// /* \" '\n", "//\n//*/\n", "\\\n", " \\\n ", "", "/* a */ // b\n\t"]


def segments(text):
    """[(line is a directive, tokens)] ; macro name and '(' of a function-like definition form one token"""
    out = []
    for l in text.replace("\\\n", " ").split("\n"):
        if not l.strip():
            continue
        t = lex_line(l)
        if t[0] == "#":
            if t[1] == "define" and re.match(r"#define \w+\(", l.strip()):
                t[2:4] = [t[2] + t[3]]
            if t[1] == "include":
                t = [l.strip()]
            out.append((True, t))
        elif out and not out[-1][0]:
            out[-1] = (False, out[-1][1] + t)
        else:
            out.append((False, t))
    return out


def lex_line(l):
    if l.lstrip().startswith("#include"):
        return ["#", "include", l]
    return lex(l + "\n")


def glue(a, b):
    try:
        return lex(a + b + "\n") == lex(a + " " + b + "\n")
    except Bad:
        return False


def build_text(segs, at=None, fill=None):
    out, k = [], 0
    for d, toks in segs:
        s = []
        for i, t in enumerate(toks):
            s.append(t)
            if i + 1 < len(toks):
                s.append(fill if k == at else " ")
                k += 1
        if not d:
            # after the last token of a text segment, before the newline
            if k == at:
                s.append(fill)
            k += 1
        else:
            if k == at:
                s.append(fill)
            k += 1
        out.append("".join(s) + "\n")
    return "".join(out), k


def gap_plan(name, quick):
    segs = segments(PROGS[name])
    base, n = build_text(segs)
    gaps = []
    for d, toks in segs:
        for i in range(len(toks)):
            gaps.append((d, toks[i], toks[i + 1] if i + 1 < len(toks) else None))
    out = []
    for k, (d, a, b) in enumerate(gaps):
        for f in FILL:
            if f == "" and (b is None or not glue(a.split("(")[0] if d and "(" in a and len(a) > 1 else a, b)):
                continue
            if d and a.startswith("#include"):
                continue
            if d and "\n" in f.replace("\\\n", "") and (b is not None or not f.startswith("//")) and not (f.startswith(" /*") and b is None):
                continue
            if d and f.startswith(" /*"):
                continue
            if d and b is None and "\\\n" in f:
                f = " \\\n\n"
            if d and f in ("\f\v",):
                continue
            out.append((name, k, f))
    return out


def every_splice(name):
    """Positions of a line splice in the text: everywhere"""
    base, _ = build_text(segments(PROGS[name]))
    return [(name, -i, "\\\n") for i in range(1, len(base))]


def gap_text(p):
    name, k, f = p
    segs = segments(PROGS[name])
    if k < 0:
        base, _ = build_text(segs)
        return base[:-k] + f + base[-k:]
    return build_text(segs, k, f)[0]


def gap_part(a):
    plan, variant, extra, part, parts = a
    exe = core.build(variant, extra)
    fail, n = [], 0
    d = fresh_dir("gap")
    src = os.path.join(d, "p.c")
    base = {}

    def comp(text):
        with open(src, "wb") as f:
            f.write(text.encode("latin1"))
        return run([exe, src], unpriv=False, timeout=30)[:2]
    for p in plan[part::parts]:
        if p[0] not in base:
            base[p[0]] = comp(build_text(segments(PROGS[p[0]]))[0])
            if base[p[0]][0] != 0:
                fail.append((p, "the program itself is rejected: %r" % base[p[0]][1][-300:]))
                break
        r = comp(gap_text(p))
        n += 1
        if r != base[p[0]]:
            fail.append((p, "status %s, output %s" % (r[0], "differs" if r[0] == 0 else repr(r[1][-200:]))))
            if len(fail) > 5:
                break
    shutil.rmtree(d, ignore_errors=True)
    return n, fail


# -------------------------------------------------------------- integer literals

def numerals(native):
    vals = sorted({v for b in (8, 10, 16) for k in range(0, 12) for v in (b ** k - 1, b ** k, b ** k + 1, b ** k * 7 % 0x80000000)} | set(range(0, 70)) | {0x12345678, 0x7fffffff, 0x7ffffffe, 0xabcdef, 0xABCDEF, 1234567890, 123456789})
    out = []
    for v in vals:
        if not 0 <= v <= 0x7fffffff:
            continue
        forms = ["%d" % v, "0%o" % v, "0x%x" % v, "0X%X" % v, "00%o" % v, "0x00%x" % v, "0x%s" % "".join(c.upper() if i % 2 else c for i, c in enumerate("%x" % v))]
        if native:
            forms += [f + s for f in forms[:4] for s in ("u", "U", "l", "L", "ul", "UL", "lu", "LU", "Lu", "ll", "LL", "ull", "ULL", "llu", "LLU")]
        out += [(f, v) for f in dict.fromkeys(forms)]
    return out


def num_make(st, id, p):
    f, v = p
    st.nstates += 1
    return Case(id, "int n%d = %s; void k%d() { s(%s); s(-%s); s(n%d); s(%s == %d); nl(); }" % (id, f, id, f, f, id, f, v), ["k%d();" % id],
                [b"%d %d %d 1 " % (v, -v, v)], "literal " + f)


def main(chk):
    chk.assumptions = ["texts over the stated alphabets that form valid token sequences in C; prefixes of character and string literals (L) and floating literals are outside the language pnut claims",
                       "line splices inside tokens and comments only in builds with SUPPORT_LINE_CONTINUATION"]
    core.VARIANTS["tokenizer"] = ["-DDEBUG_CPP"]
    lc = ("-DSUPPORT_LINE_CONTINUATION",)
    q = chk.quick
    build_all(["sh", "i386", "x86_64", "tokenizer"])
    for v in ("sh", "x86_64", "tokenizer"):
        core.build(v, lc)
    jobs = []
    A1 = ["/", "*", '"', "'", "\\", "n", " ", "\n", "a", "1"]
    A2 = ["<", ">", "=", "&", "|", "+", "-", "*", "/", "!", "%", "^", ".", ",", "(", "#", "~", "?", ":", "x", "0", " "]
    A3 = ["\\", "\n", "/", "*", "a", '"', "+"]
    A4 = ["/*", "*/", "//", "\n", "a", '"', "'", "\\", "**", "/"]
    A5 = ["0", "1", "7", "x", "X", "a", "F", "_", "+", " ", "."]
    for alpha, n, extra in ((A1, 6 if q else 7, ()), (A2, 4 if q else 5, ()), (A3, 6 if q else 8, lc), (A3, 5 if q else 8, ()), (A4, 6 if q else 7, ()), (A5, 5 if q else 6, ())):
        for k in range(NCPU):
            jobs.append((alpha, n, extra, bool(extra), k, NCPU))
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(tok_part, jobs))
        for total, valid, done, kinds, fail in res:
            chk.transitions += total
            chk.nstates += valid
            chk.traces += done
            chk.outcomes |= kinds
        chk.extra["texts"] = sum(r[0] for r in res)
        chk.extra["valid texts compared"] = sum(r[2] for r in res)
        nf = 0
        for (alpha, n, extra, sp, k, _), r in zip(jobs, res):
            for (w, c), obs in r[4]:
                if nf < 8:
                    nf += 1
                    chk.violation("[tokenizer%s] %r is read as other tokens than %r" % (" ".join(("",) + extra), w, c), obs + "\ncompile p.c and q.c with pnut built with -DDEBUG_CPP %s; the outputs must show the same tokens" % " ".join(extra),
                                  {"p.c": "m " + w + "\n", "q.c": "m " + c + "\n"})
        plan = []
        for name in PROGS:
            g = gap_plan(name, q)
            s = every_splice(name)
            for variant in ("sh", "x86_64") + (() if q else ("i386", "sh-release")):
                if name == "native" and variant != "x86_64":  # it uses long long
                    continue
                plan.append((g, variant, ()))
                if variant in ("sh", "x86_64"):
                    plan.append((s, variant, lc))
                    if not q:
                        plan.append(([x for x in g if x[2] != "\\\n"], variant, lc))  # a mere splice would join the tokens
        jobs = [(g, v, x, k, NCPU) for g, v, x in plan for k in range(NCPU)]
        for v, x in {(v, x) for _, v, x in plan}:
            core.build(v, x)
        with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex2:
            res = list(ex2.map(gap_part, jobs))
        chk.extra["respelled programs"] = sum(r[0] for r in res)
        nf = 0
        for (g, v, x, k, _), (n, fail) in zip(jobs, res):
            chk.traces += n
            chk.transitions += n
            for p, obs in fail:
                if nf < 8:
                    nf += 1
                    chk.violation("[%s] program %s with %r at gap %d compiles to something else" % (" ".join((v,) + x), p[0], p[2], p[1]), obs + "\ncompile p.c and q.c with pnut built with %s; the outputs must be equal" % " ".join(VARIANTS[v] + list(x)),
                                  {"p.c": gap_text(p), "q.c": build_text(segments(PROGS[p[0]]))[0]})
    if chk.violations:
        return
    from a10 import SHP, NATP
    for v, sh, pre in (("x86_64", None, NATP), ("i386", None, NATP), ("sh", "dash", SHP)) + ((("sh", "ksh", SHP), ("sh-release", "zsh", SHP)) if not q else ()):
        r = Runner(v, sh, pre, batch=300)
        p = [(f, x) for f, x in numerals(is_native(v)) if not (v == "i386" and "ll" in f.lower())]
        sweep(chk, p, num_make, [(r, None)])
    chk.sample({"texts": [repr(w) for w in list(itertools.islice(words(A1, 3), 200, 210))]})
    chk.sample({"gaps": [repr(x) for x in gap_plan("common", q)[100:106]]})
