"""Mechanical extraction of functions from Rust source text. Nothing here knows enumset; it finds
impl blocks, functions, consts and macro bodies by token matching and hands out their text."""
import re

TOKEN = re.compile(r"""
  (?P<ws>\s+)
 |(?P<com>//[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)
 |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<str>b?"(?:\\.|[^"\\])*")
 |(?P<life>'[A-Za-z_]\w*(?!'))
 |(?P<chr>b?'(?:\\.[^']*|[^'\\])')
 |(?P<num>\d[\w]*(?:\.\d[\w]*)?)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<op><<=|>>=|\.\.=|\.\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.)
 |(?P<p>.)
""", re.X | re.S)
OPEN, CLOSE = "([{", ")]}"


class Lost(Exception):
    """An anchor the contracts rely on is not in the source."""


def lex(text):
    """-> list of token strings (no whitespace, no comments)."""
    out = []
    for m in TOKEN.finditer(text):
        if m.lastgroup == "h":
            out.append(m.group(0))
        elif m.lastgroup not in ("ws", "com"):
            out.append(m.group(0))
    return out


def match(t, i):
    """Index of the bracket that closes t[i]."""
    d = 0
    for j in range(i, len(t)):
        if t[j] in OPEN:
            d += 1
        elif t[j] in CLOSE:
            d -= 1
            if d == 0:
                return j
    raise Lost("unbalanced brackets")


def norm(x):
    t = lex(x) if isinstance(x, str) else x
    return " ".join(t)


def drop_attrs(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == "#" and i + 1 < len(t) and t[i + 1] == "[":
            i = match(t, i + 1) + 1
        elif t[i] == "#" and i + 2 < len(t) and t[i + 1] == "!" and t[i + 2] == "[":
            i = match(t, i + 2) + 1
        else:
            out.append(t[i])
            i += 1
    return out


def items(t):
    """Top-level items of a token list: (kind, header tokens, body tokens or None)."""
    i, start = 0, 0
    out = []
    while i < len(t):
        if t[i] == "#" and t[i + 1 : i + 2] == ["["]:
            i = match(t, i + 1) + 1
            if i >= len(t):
                break
            if i and start == i:
                pass
            continue
        if t[i] in "([":
            i = match(t, i) + 1
            continue
        if t[i] == "{":
            j = match(t, i)
            out.append((t[start:i], t[i + 1 : j]))
            i = j + 1
            start = i
            continue
        if t[i] == ";":
            out.append((t[start:i], None))
            i += 1
            start = i
            continue
        i += 1
    return out


class Fn:
    def __init__(self, name, sig, body):
        self.name, self.sig, self.body = name, sig, body


def strip_vis(h):
    h = drop_attrs(h)
    while h and h[0] == "pub":
        h = h[1:]
        if h and h[0] == "(":
            h = h[match(h, 0) + 1 :]
    return h


def functions(t):
    """name -> Fn of the functions directly in a block. A body-less trait function has body None."""
    out = {}
    for h, body in items(t):
        h = strip_vis(h)
        if "fn" in h:
            k = h.index("fn")
            if all(x in ("const", "unsafe", "async", "extern", "default", "pub") for x in h[:k]):
                out[h[k + 1]] = Fn(h[k + 1], h, body)
    return out


def consts(t):
    """name -> (type tokens, expression tokens or None) of the consts directly in a block."""
    out, i = {}, 0
    while i < len(t):
        if t[i] == "const" and t[i + 2 : i + 3] == [":"] and (i == 0 or t[i - 1] not in ("<", ",", "(")):
            j, eq = i + 3, None
            while t[j] != ";":
                if t[j] == "=" and eq is None:
                    eq = j
                j = match(t, j) + 1 if t[j] in "([{" else j + 1
            out[t[i + 1]] = (t[i + 3 : eq or j], t[eq + 1 : j] if eq else None)
            i = j + 1
        else:
            i = match(t, i) + 1 if t[i] in "([{" else i + 1
    return out


def blocks(t):
    """normalized impl/trait header -> body tokens (several with one header are concatenated)."""
    out = {}
    for h, body in items(t):
        h = strip_vis(h)
        if h[:1] == ["unsafe"]:
            h = h[1:]
        if body is not None and h and h[0] in ("impl", "trait", "mod"):
            if h[0] == "trait":
                h = h[:2]
            k = norm(h)
            out[k] = out.get(k, []) + list(body)
    return out


def macro_rules(t, name):
    """-> list of (pattern tokens, expansion tokens) of `macro_rules! name`."""
    for i in range(len(t) - 3):
        if t[i] == "macro_rules" and t[i + 1] == "!" and t[i + 2] == name:
            body = t[i + 4 : match(t, i + 3)]
            out, k = [], 0
            while k < len(body):
                e = match(body, k)
                if body[e + 1] != "=>":
                    raise Lost(f"macro {name}")
                f = match(body, e + 2)
                out.append((body[k + 1 : e], body[e + 3 : f]))
                k = f + 1
                if k < len(body) and body[k] == ";":
                    k += 1
            return out
    raise Lost(f"macro {name}")


def calls(t, name):
    """Argument token lists of each `name!(...)`/`name! {...}` invocation."""
    out = []
    for i in range(len(t) - 2):
        if t[i] == name and t[i + 1] == "!" and t[i + 2] in OPEN:
            out.append(t[i + 3 : match(t, i + 2)])
    return out


def split(t, sep=","):
    out, cur, i = [], [], 0
    while i < len(t):
        if t[i] in OPEN:
            j = match(t, i)
            cur += t[i : j + 1]
            i = j + 1
        elif t[i] == sep:
            out.append(cur)
            cur = []
            i += 1
        else:
            cur.append(t[i])
            i += 1
    if cur:
        out.append(cur)
    return out


def subst(t, env):
    """Replaces `$name` by env[name] (token list)."""
    out, i = [], 0
    while i < len(t):
        if t[i] == "$" and i + 1 < len(t) and t[i + 1] in env:
            out += env[t[i + 1]]
            i += 2
        else:
            out.append(t[i])
            i += 1
    return out


KW = {"in", "if", "while", "match", "return", "for", "as", "else", "mut", "let", "=", "=>", "==", "loop", "move", "unsafe"}
RAW = "\0"                     # a token starting with RAW is printed as it is, on lines of its own


def text(t):
    """Tokens back to source text (readable enough for a verifier's error message)."""
    out, ind, depth = [], 0, []
    line = ""

    def flush():
        nonlocal line
        if line.strip():
            out.append("    " * ind + line.strip())
        line = ""

    tight_after = {"(", "[", ".", "::", "!", "&", "$", "#", "'", "*", "-"}
    tight_before = {")", "]", ",", ";", ".", "::", "?", ":"}
    prev, unary = "", False
    for k, x in enumerate(t):
        if x.startswith(RAW):
            flush()
            out += x[1:].split("\n")
            prev = ";"
            continue
        if x == "}":
            flush()
            ind = max(0, ind - 1)
            depth and depth.pop()
            line = "}"
            nxt = t[k + 1] if k + 1 < len(t) else ""
            if nxt not in ("else", ")", ",", ";", ".", "?", "as"):
                flush()
            prev = x
            continue
        word = lambda y: bool(re.match(r"\w", y)) and y not in KW
        glue = not line or x in tight_before or (prev in tight_after and (unary or prev not in "&*-")) or (x in "([" and (word(prev) or prev in ")]>"))
        line += ("" if glue else " ") + x
        unary = x in "&*-" and not (word(prev) or prev in ")]}")
        if x in "([":
            depth.append(x)
        elif x in ")]" and depth:
            depth.pop()
        if x == "{":
            depth.append(x)
            flush()
            ind += 1
        elif x == ";" and (not depth or depth[-1] == "{"):
            flush()
        prev = x
    flush()
    return "\n".join(out)
