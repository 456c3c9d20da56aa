"""Reference model of C macro expansion (hide sets, as in the algorithm of the
standard's authors). Tokens are (text, hideset) pairs."""
import re


class Err(Exception):
    pass


TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d\w*|##|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%&^|]=|\S')


def toks(s):
    return TOKEN.findall(s)


class Mac:
    def __init__(self, params, body):
        self.params, self.body = params, toks(body) if isinstance(body, str) else body


def expand(ts, macros):
    """ts: list of (text, frozenset)"""
    out = []
    ts = list(ts)
    steps = 0
    while ts:
        steps += 1
        if steps > 5000:
            raise Err("too long")
        t, hs = ts.pop(0)
        m = macros.get(t)
        if m is None or t in hs:
            out.append((t, hs))
            continue
        if m.params is None:
            ts = subst(m, [], hs | {t}, macros) + ts
            continue
        if not ts or ts[0][0] != "(":
            out.append((t, hs))
            continue
        # arguments
        depth, args, cur, i = 1, [], [], 1
        while True:
            if i >= len(ts):
                raise Err("unterminated")
            x = ts[i]
            if x[0] == "(":
                depth += 1
            elif x[0] == ")":
                depth -= 1
                if depth == 0:
                    break
            if x[0] == "," and depth == 1:
                args.append(cur)
                cur = []
            else:
                cur.append(x)
            i += 1
        close = ts[i]
        args.append(cur)
        if len(m.params) == 0 and args == [[]]:
            args = []
        if len(args) != len(m.params):
            raise Err("arity")
        ts = subst(m, args, (hs & close[1]) | {t}, macros) + ts[i + 1:]
    return out


def subst(m, args, hs, macros):
    out = []
    b = m.body
    i = 0
    P = m.params or []
    pend = False
    while i < len(b):
        t = b[i]
        if t == "#" and m.params is not None:
            if i + 1 >= len(b) or b[i + 1] not in P:
                raise Err("#")
            a = args[P.index(b[i + 1])]
            new = [('"%s"' % "".join(x[0] for x in a) if len(a) == 1 else None, frozenset())]
            if len(a) != 1:
                raise Err("stringify of several tokens: spacing is not modelled")
            i += 2
        elif t in P:
            a = args[P.index(t)]
            if pend or i + 1 < len(b) and b[i + 1] == "##":
                new = list(a)
            else:
                new = expand(a, macros)
            i += 1
        else:
            new = [(t, frozenset())]
            i += 1
        nxt = i < len(b) and b[i] == "##"
        if (pend or nxt) and not new:
            new = [("", frozenset())]  # placemarker
        if pend:
            l = out.pop()
            g = l[0] + new[0][0]
            if g and toks(g) != [g]:
                raise Err("paste")
            if g and l[0] and new[0][0] and g[0].isdigit() and (not g.isdigit() or g[0] == "0" or new[0][0][0] == "0" != new[0][0]):
                raise Err("paste of a preprocessing number that is no token, or of octal numbers")
            new = [(g, l[1] & new[0][1])] + new[1:]
            pend = False
        if nxt:
            pend = True
            i += 1
        out += new
    return [(x[0], x[1] | hs) for x in out if x[0]]


def run(lines):
    """lines: ('def', name, params or None, body) / ('undef', name) / ('text', s): the tokens of the texts."""
    macros, out = {}, []
    buf = []
    for l in lines:
        if l[0] == "text":
            buf += [(t, frozenset()) for t in toks(l[1])]
        else:
            if buf:
                out += expand(buf, macros)
                buf = []
            if l[0] == "def":
                macros[l[1]] = Mac(l[2], l[3])
            else:
                macros.pop(l[1], None)
    if buf:
        out += expand(buf, macros)
    return [t for t, _ in out]
