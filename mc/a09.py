"""Identifiers: every name works in every role, and names never interfere."""
import itertools, multiprocessing, re
from concurrent.futures import ProcessPoolExecutor
from core import *
from batch import *
import a10
SHP, NATP = a10.SHP, '#define GOTO\n' + a10.NATP

ROLES = ["Y", "E", "G", "A", "C", "F", "P", "L", "V", "T", "U", "M", "B"]
BASE = """typedef int {Y};
enum {U} {{ {E} = 5, en@ }};
struct {T} {{ int fs@; {Y} {M}; }};
int {G};
int {A}[3];
char *{C} = "str";
int {F}(int {P}) {{ int {L} = {P} * 2; int lc@ = 0; while (lc@ < 2) {{ lc@ += 1; {L} += 1; }} if ({P} > 0) {L} = {L} + {F}({P} - 1); if ({L} == 'q') return 'z'; return {L} * 10 + {P}; }}
void mm@() {{
  struct {T} *qq@;
  int {V};
  int ww@ = 0;
  int r2@;
  qq@ = malloc(sizeof(struct {T}));
  {V} = 3;
  {G} = 4;
  {A}[0] = 0;
  {A}[1] = 6;
  qq@->{M} = 7;
  qq@->fs@ = 8;
#ifdef GOTO
{B}:
  ww@ += 1;
  if (ww@ < 3) goto {B};
#else
  ww@ = 3;
#endif
  r2@ = {F}(2) + {F}(1);
  s(r2@); s({V}); s({G}++); s({G}); s({A}[1] + {A}[0]); s(qq@->{M}); s(qq@->fs@ + qq@->{M} * 2); s({E}); s(en@); s({C}[1]); s(ww@); s('a' + 'b');
  r2@ = {V} + {G};
  s(r2@); s(sizeof(struct {T}) > 1);
  nl();
}}
"""
EXPECT = None
ORD, TAG, BLK = ["Y", "E", "G", "A", "C", "F"], ["T", "U"], ["P", "L", "V"]

# Names that some shell, or the runtime of the generated scripts, could treat specially
SHELL = """IFS PATH HOME PWD OLDPWD ENV PS1 PS2 PS3 PS4 LANG LC_ALL LC_CTYPE LC_NUMERIC LC_COLLATE LINENO RANDOM SECONDS OPTIND OPTARG OPTERR PPID UID EUID GID EGID SHELL
SHELLOPTS BASHOPTS BASH BASHPID BASH_VERSION FUNCNAME GROUPS DIRSTACK HOSTNAME HOSTTYPE MACHTYPE OSTYPE COLUMNS LINES EPOCHSECONDS EPOCHREALTIME SRANDOM REPLY MAPFILE COPROC
CDPATH FPATH MAIL MAILPATH MAILCHECK HISTFILE HISTSIZE HISTCMD HISTCHARS TMOUT TERM TMPDIR VISUAL EDITOR FCEDIT PIPESTATUS POSIXLY_CORRECT YASH_VERSION KSH_VERSION ZSH_VERSION ZSH_NAME ARGC
USER USERNAME LOGNAME TTYIDLE SHLVL VENDOR CPUTYPE ERRNO PROMPT PROMPT2 RPROMPT SPROMPT WATCH NULLCMD READNULLCMD KEYTIMEOUT LISTMAX DIRSTACKSIZE STTY TIMEFMT WORDCHARS ZDOTDIR ZLS_COLORS
KSHEGID KSHGID KSHUID USER_ID PGRP EXECSHELL PATHSEP CHILD_MAX
path status argv argv_ options functions aliases commands history prompt watch mailpath cdpath fpath manpath module_path psvar signals pipestatus words cursor buffers parameters builtins modules dirstack
histchars galiases saliases jobdirs jobstates jobtexts nameddirs userdirs reswords patchars errnos sysparams zsh_eval_context funcstack funcfiletrace keymaps widgets termcap terminfo mapfile langinfo fignore zsh_scheduled_events
then fi elif done in esac function select time coproc let endlet local typeset declare readonly export integer nameref eval exec exit set unset shift trap test echo print printf_ read_ true false cd pwd alias jobs kill wait umask times getopts command type ulimit source hash fc bg fg
name code e f n x y z i j ch fd buf len str res tmp arg args ptr head tail cursor_ fmt
malloc free puts putstr open close write fopen fgetc fclose getchar putchar exit_ main_ register_ auto_""".split()
CORE = """a b x t t1 t2 t10 __x x1 X xX A A_ str_0 str_1 sizeof__S x_y x__y x_ a__ a_b__ IFS1 argv argc main_x int_ int1 If WHILE structs struct_ ALLOC code main NULL_ e1 o0 """.split() + ["L" * 60, "L" * 59 + "M", "v" * 300]
UNDER = ["_x", "_A", "_t1", "__t1", "_0", "_if", "_main", "_malloc", "__str_0"]


def roles_ok(rs):
    rs = set(rs)
    if len(rs & set(ORD)) > 1 or len(rs & set(TAG)) > 1 or len(rs & set(BLK)) > 1:
        return False
    if "V" in rs and rs & set(ORD):
        return False
    if "F" in rs and rs & {"P", "L"}:
        return False
    return True


ALL = [rs for n in range(1, 6) for rs in itertools.combinations(ROLES, n) if roles_ok(rs)]
ONE = [(r,) for r in ROLES]


def runtime_names(chk):
    """Every identifier in the text of scripts that use the whole runtime, stripped of the prefixes pnut adds."""
    src = open(os.path.join(REPO, "sh-runtime.c"), errors="replace").read() + open(os.path.join(REPO, "sh.c"), errors="replace").read()
    out = set()
    for m in re.finditer(r"(?<![A-Za-z0-9_])_*[A-Za-z][A-Za-z0-9_]*", "\n".join(re.findall(r'"((?:\\.|[^"\\])*)"', src))):
        out.add(m[0].lstrip("_"))
    return sorted(x for x in out if re.fullmatch(r"[A-Za-z]\w*", x) and len(x) < 40)


KEY = set("""auto break case char const continue default do double else enum extern float for goto if inline int long register return short signed sizeof static struct switch typedef union unsigned void volatile while
main s nl printf putchar malloc stdio h ob on oc pd define include GOTO""".split())
LIB = set("malloc free puts putstr open close write read fopen fgetc fclose getchar exit argv_ IFS".split())
PAIR = "x X t1 str_0 x_y sizeof__nm NUL__ c len _x __x x__y state_fd0 a__ tmp ALLOC".split()
VARS = {"G", "A", "C", "P", "L", "V"}


def name_ok(n, r):
    if n in KEY or n in LIB and r not in "TUMB":
        return False
    if r in VARS and (n.startswith("_") or re.fullmatch(r"._", n)):
        return False  # rejected by the shell backend
    return not (r in "YEF" and n.startswith("_"))  # reserved at file scope


def plan(names, rolesets):
    """Lists of entries, an entry being {role: name}; the names of a list are distinct."""
    for rs in rolesets:
        # a name of a type can not be declared again as something else: not supported
        if "Y" in rs and set(rs) & {"M", "P", "L", "V", "B"}:
            continue
        yield [dict.fromkeys(rs, n) for n in names if all(name_ok(n, r) for r in rs)]


def pairs(names):
    """Two different names in two different roles."""
    for r1, r2 in itertools.combinations(ROLES, 2):
        for k in range(1, len(names)):
            l = [{r1: n, r2: names[(i + k) % len(names)]} for i, n in enumerate(names)]
            l = [e for e in l if all(name_ok(n, r) for r, n in e.items())]
            a, b = [], []
            for e in l:  # the same name may not be used twice in one program
                used = {n for x in a for n in x.values()}
                (b if used & set(e.values()) else a).append(e)
            yield a
            for e in b:
                yield [e]


def expect():
    def f(p):
        l = p * 2 + 2
        if p > 0:
            l += f(p - 1)
        return 'z' if l == ord('q') else l * 10 + p
    v = [f(2) + f(1), 3, 4, 5, 6, 7, 22, 5, 6, ord("t"), 3, 195, 8, 1]
    return "".join("%d " % x for x in v).encode()


def make(id, e):
    names = {r: "nm%s%d" % (r, id) for r in ROLES}
    names.update(e)
    text = BASE.replace("@", str(id)).format(**names)
    short = lambda n: n if len(n) < 30 else n[:10] + "..."
    return Case(id, text, ["mm%d();" % id], [expect()], "names " + ", ".join("%s as %s" % (short(n), r) for r, n in e.items()))


KNOWN = os.path.join(VERIF, "known-names.txt")


def load_names():
    """{shell: names} of local variables and parameters that are special in that shell."""
    out = {}
    for l in open(KNOWN):
        if l.strip() and not l.startswith("#"):
            sh, *names = l.split()
            out[sh] = set(names)
    return out


def part(job):
    v, sh, lists = job
    r = Runner(v, sh, NATP if is_native(v) else SHP, timeout=60)
    for n, l in enumerate(lists):
        r.check([make(n * 1000 + i + 1, e) for i, e in enumerate(l)])
    return r.ran, r.fail


def main(chk):
    q = chk.quick
    known = load_names()
    rt = [n for n in runtime_names(chk) if n not in SHELL]
    jobs = []
    shells = [s for s in ("dash", "bash", "ksh", "mksh", "yash", "zsh") if s in SHELLS]

    def add(v, sh, lists):
        if sh in known:
            lists = [[e for e in l if not any(n in known[sh] and r in "LPV" for r, n in e.items())] for l in lists]
        out = []
        for l in lists:
            out += [l[i:i + 40] for i in range(0, len(l), 40)]
        chk.transitions += sum(len(l) for l in out)
        out = [l for l in out if l]
        k = max(1, len(out) // 24)
        jobs.extend((v, sh, out[i:i + k]) for i in range(0, len(out), k))
    build_all(["sh", "x86_64", "i386"])
    for sh in shells:
        add("sh", sh, list(plan(SHELL, ONE)))
        add("sh", sh, list(plan(rt, ONE if sh == "dash" or not q else [("G",), ("M",), ("L",)])))
    names = CORE + UNDER
    add("sh", "dash", list(plan(names if not q else CORE[:14] + UNDER[:2], ALL)))
    add("sh", "dash", list(pairs(PAIR if not q else PAIR[:6])))
    for v in ("x86_64",) if q else ("x86_64", "i386"):
        add(v, None, list(plan(SHELL + rt, ONE)))
        add(v, None, list(plan(names if not q else CORE[:14] + UNDER[:2], ALL)))
        if not q:
            add(v, None, list(pairs(PAIR)))
    if not q:
        for sh in shells[1:]:
            add("sh", sh, list(plan(CORE[:14] + UNDER[:2], ALL)))
            add("sh", sh, list(pairs(PAIR[:8])))
    # local variables special to a shell, still failing as recorded
    still = {}
    kn = [(sh, n) for sh in shells for n in sorted(known.get(sh, ()))]

    def one(k):
        r = Runner("sh", k[0], SHP, timeout=10)
        for role in "L", "P":
            r.check([make(1, {role: k[1]})])
        return bool(r.fail)
    for (sh, n), bad in zip(kn, pmap(one, kn)):
        if bad:
            still.setdefault(sh, []).append(n)
    for sh, l in still.items():
        chk.extra["special names " + sh] = len(l)
        print("KNOWN-FINDING: property=A09 local variables and parameters with the name of a special variable of %s do not work there: %s" % (sh, " ".join(l)))
    with ProcessPoolExecutor(NCPU, mp_context=multiprocessing.get_context("fork")) as ex:
        res = list(ex.map(part, jobs))
    runners = {}
    for (v, sh, lists), (ran, fail) in zip(jobs, res):
        r = runners.setdefault((v, sh), Runner(v, sh, NATP if is_native(v) else SHP))
        r.ran += ran
        r.fail += fail
        chk.traces += ran
        for l in lists:
            for e in l:
                chk.state((v, sh, tuple(sorted(e.items()))))
    for (v, sh), r in runners.items():
        chk.extra["%s/%s" % (v, sh) if sh else v] = "%d cases" % r.ran
        r.fail = r.fail[:6]
        report(chk, r)
    chk.sample("names: " + " ".join(SHELL + rt)[:300])
