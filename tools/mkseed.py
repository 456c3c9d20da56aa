#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: reads a JSON/py spec on stdin: dict(edits=[(file, old, new)...], prog=C text,
expected=text, variant=flags, shells=[...] or [] for native, needs=, breaks=, stdin=, args=). Writes seeded/ID."""
import os, subprocess, sys, tempfile, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, prop, edits, prog, expected, needs, breaks, variant="-Dsh -DRT_NO_INIT_GLOBALS", shells="dash", stdin=None, args="", opts="", files={}, demo=None, pre=":"):
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp()
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    for f, old, new in edits:
        p = os.path.join(w, "r", f); s = open(p).read()
        if s.count(old) != 1:
            sys.exit("%s: %d matches in %s: %r" % (id, s.count(old), f, old[:60]))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w + "/r", "diff"], stdout=subprocess.PIPE, check=True).stdout
    shutil.rmtree(w)
    open(d + "/patch.diff", "wb").write(diff)
    if demo is None:
        open(d + "/prog.c", "w", newline="").write(prog)
        open(d + "/expected", "w", newline="").write(expected)
        if stdin is not None: open(d + "/input", "wb").write(stdin)
        run = ('for s in %s; do\n  command -v $s >/dev/null || continue\n  timeout 60 $s "$t/p.out" %s <%s >"$t/out" 2>"$t/err" || true\n  cmp "$t/out" "$d/expected" || { echo "wrong output under $s:"; head -5 "$t/out" "$t/err"; exit 1; }\ndone'
               % (shells, args, '"$d/input"' if stdin is not None else "/dev/null")) if shells else (
               'chmod +x "$t/p.out"\ntimeout 60 "$t/p.out" %s <%s >"$t/out" 2>"$t/err" || true\ncmp "$t/out" "$d/expected" || { echo "wrong output:"; head -5 "$t/out" "$t/err"; exit 1; }'
               % (args, '"$d/input"' if stdin is not None else "/dev/null"))
        demo = '''#!/bin/sh
# cwd: /repo. Builds pnut from the current tree, compiles prog.c, compares its output.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
gcc -w %s -o "$t/pnut" pnut.c || exit 2
cp "$d"/*.c "$t"/
for f in "$d"/*.h; do [ -f "$f" ] && cp "$f" "$t"/; done
cd "$t" || exit 2
%s
timeout 60 ./pnut %s prog.c > p.out || { echo "pnut rejects the program"; tail -3 p.out; exit 1; }
%s
exit 0
''' % (variant, pre, opts, run)
    for n, c in files.items():
        open(os.path.join(d, n), "w", newline="").write(c)
    open(d + "/demo.sh", "w").write(demo); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
