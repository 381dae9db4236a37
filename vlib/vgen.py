"""Contracts + extracted bodies -> one Verus file. The templates (verus/*.vrs) hold specifications only;
the text of every function under contract is taken from the repository on each run (see DESIGN.md,
'What the extraction drops')."""
import os, re
from . import rustx
from .rustx import lex, norm, text, Lost, RAW

CONSTS = {"WIDTH", "EMPTY", "PREFERRED_ARRAY_LEN", "ALL_BITS", "BIT_WIDTH", "VARIANT_COUNT", "EMPTY_REPR", "ALL_REPR", "ALL", "CONST_HELPER_INSTANCE"}


# Text inside the derive's quote! templates: paths lose their interpolated crate prefix, the enum's name
# becomes the type parameter T. Other interpolations (`#size`, `#repr`, ..) are rewritten where they are used.
QUOTE = [(lex(a), lex(b)) for a, b in [
    ("#enumset::__internal::", ""), ("#enumset::", ""), ("#internal::", ""), ("#core::prelude::v1::", "")] +
    [(f"#core::{m}::", "") for m in ("convert", "ops", "cmp", "result", "option", "clone")] +
    [(f"#serde::{m}", "") for m in ("ser::", "de::", "")] +
    [("#typed_enumset", "EnumSet<T>"), ("#name", "T")]]


class Func:
    """A function under contract: where its text came from and where it is in the generated file."""
    def __init__(self, name, source, props):
        self.name, self.source, self.props = name, source, props
        self.lo = self.hi = 0
        self.lost = None          # why the text could not be taken from the source
        self.tokens = []          # the text taken from the source
        self.kind = "fn"
        self.has_body = False
        self.soft = []            # ways in which the text no longer has the shape the proof was written for


class Source:
    def __init__(self, root):
        self.root, self.tok, self.blk = root, {}, {}

    def tokens(self, sel):
        """file | file#macro:k (k-th expansion) | file#quote (impl blocks inside quote! templates)"""
        if sel not in self.tok:
            f, _, how = sel.partition("#")
            p = os.path.join(self.root, f)
            try:
                t = rustx.drop_attrs(lex(open(p, encoding="utf-8").read()))
            except OSError:
                raise Lost(f"{f} is gone")
            if how.startswith("macro:"):
                _, name, k = how.split(":")
                t = expand(t, name, int(k))
            elif how.startswith("frag:"):        # the k-th quote! of `let NAME = ..;`
                _, name, k = how.split(":")
                t = self.quoted(f + "#quote", name, int(k), "")
            elif how.startswith("arm:"):         # arm of `let NAME = match .. { PATTERN => .. }`
                _, name, pat = how.split(":", 2)
                _, t = self.arm(self.tokens(f + "#quote"), name, pat)
            elif how == "quote":
                for a, b in QUOTE:
                    t, _ = replace_all(t, a, b)
            self.tok[sel] = t
        return self.tok[sel]

    def blocks(self, sel):
        if sel not in self.blk:
            t = self.tokens(sel)
            self.blk[sel] = all_blocks(t)
        return self.blk[sel]

    def fn(self, sel, header, name, nth=0):
        if header == "-":
            fs = rustx.functions(self.tokens(sel))
            if name in fs:
                return fs[name]
            raise Lost(f"{sel}: fn {name}")
        if header == "*":
            t = self.tokens(sel)
            for i in range(len(t) - 2):
                if t[i] == "fn" and t[i + 1] == name:
                    fs = rustx.functions(t[i:])
                    if name in fs:
                        return fs[name]
            raise Lost(f"{sel}: fn {name}")
        h = head(header)
        hits = [rustx.functions(b) for k, b in self.blocks(sel) if k == h]
        hits = [f[name] for f in hits if name in f]
        if len(hits) <= nth:
            raise Lost(f"{sel}: {header}: fn {name}")
        return hits[nth]

    def const(self, sel, header, name):
        h = head(header)
        for k, b in self.blocks(sel):
            if k == h:
                c = rustx.consts(b)
                if name in c and c[name][1] is not None:
                    return c[name]
        raise Lost(f"{sel}: {header}: const {name}")

    def rules(self, f, name):
        return [(rustx.drop_attrs(a), rustx.drop_attrs(b)) for a, b in rustx.macro_rules(self.tokens(f), name)]

    def let(self, sel, fn, x):
        b = self.fn(sel, "-", fn).body
        i = find(b, ["let", x, "="])
        if i < 0 or find(b, ["let", x, "="], i + 1) >= 0:
            raise Lost(f"{sel}: fn {fn}: let {x}")
        j = i + 3
        while b[j] != ";":
            j = rustx.match(b, j) + 1 if b[j] in "([{" else j + 1
        return b[i + 3 : j]

    def quoted(self, sel, name, k, guard):
        """Contents of the k-th quote! in the statement `let name = ..;` or `let (.., name, ..) = ..;`, which
        must contain the tokens of `guard`: they say which case the k-th fragment is for."""
        t = self.tokens(sel)
        for i in range(len(t)):
            if t[i] != "let":
                continue
            j = i + 1
            while j < len(t) and t[j] not in ("=", ";"):
                j += 1
            if name not in t[i:j]:
                continue
            e = j
            while t[e] != ";":
                e = rustx.match(t, e) + 1 if t[e] in "([{" else e + 1
            st = t[i:e]
            if guard and find(st, lex(guard)) < 0:
                raise Lost(f"{sel}: `{guard}` in the choice of #{name}")
            qs, p = [], 0
            while p < len(st) - 2:
                if st[p] == "quote" and st[p + 1] == "!":
                    q = rustx.match(st, p + 2)
                    qs.append(st[p + 3 : q])
                    p = q
                p += 1
            names = [x for x in t[i + 1 : j] if re.match(r"[a-z_]", x)]     # several names: case k gives each its own
            at = k * len(names) + names.index(name) if t[i + 1] == "(" else k
            if at < len(qs):
                return qs[at]
        raise Lost(f"{sel}: fragment {k} of #{name}")

    def arm(self, t, name, pat):
        """The value of the arm for `pat` in `let name = match .. { .. }` (name may be one of a tuple)."""
        for i in range(len(t)):
            if t[i] != "let":
                continue
            j = i + 1
            while j < len(t) and t[j] not in ("=", ";"):
                j += 1
            if name not in t[i:j] or t[j + 1 : j + 2] != ["match"]:
                continue
            k = j + 2
            while t[k] != "{":
                k = rustx.match(t, k) + 1 if t[k] in "([" else k + 1
            e, a, want = rustx.match(t, k), k + 1, lex(pat)
            while a < e:
                b = a
                while b < e and t[b] != "=>":
                    b = rustx.match(t, b) + 1 if t[b] in "([{" else b + 1
                c = b + 1
                while c < e and t[c] != ",":
                    c = rustx.match(t, c) + 1 if t[c] in "([{" else c + 1
                    if t[c - 1] == "}" and t[b + 1] == "{" and rustx.match(t, b + 1) == c - 1:
                        break
                p = t[a:b]
                at = find(p, want)
                if at >= 0 and p[at + len(want) : at + len(want) + 1] in ([], ["|"]):
                    return t[i + 1 : j], t[b + 1 : c]
                a = c + (t[c : c + 1] == [","])
        raise Lost(f"the arm {pat} of {name}")

    def quoted_arm(self, sel, name, pat):
        """`let (a, b, ..) = match .. { pat => (quote!{..}, quote!{..}, ..), .. }`: what #name stands for in that arm."""
        names, v = self.arm(self.tokens(sel), name, pat)
        names = [x for x in names if x not in ("(", ")", ",")]
        qs, p = [], 0
        while p < len(v) - 2:
            if v[p] == "quote" and v[p + 1] == "!":
                q = rustx.match(v, p + 2)
                qs.append(v[p + 3 : q])
                p = q
            p += 1
        if len(qs) != len(names):
            raise Lost(f"the fragments for {pat}")
        return qs[names.index(name)]

    def item(self, sel, head):
        """Tokens of the item whose header starts with `head`, body included (struct, enum)."""
        h = lex(head)
        for hd, body in rustx.items(self.tokens(sel)):
            hd = rustx.strip_vis(hd)
            if hd[: len(h)] == h:
                return hd + ((["{"] + body + ["}"]) if body is not None else [";"])
        raise Lost(f"{sel}: {head}")


def head(h):
    """Header of an impl block, however its closing angle brackets were put together."""
    return norm(h).replace(">>", "> >")


def all_blocks(t):
    """(normalized header, body) of every impl/trait block at any depth, quote! templates included."""
    out, i = [], 0
    while i < len(t):
        if t[i] in ("impl", "trait") and (i == 0 or t[i - 1] in ("}", "{", ";", "]", "unsafe", "pub", ")")):
            j = i
            while j < len(t) and t[j] not in ("{", ";"):
                j = rustx.match(t, j) + 1 if t[j] in "([" else j + 1
                # `Foo<{ N }>` inside a header
                if j < len(t) and t[j] == "{" and t[j - 1] in ("<", ","):
                    j = rustx.match(t, j) + 1
            if j < len(t) and t[j] == "{":
                e = rustx.match(t, j)
                h = t[i:j]
                if h[0] == "trait":
                    h = h[:2]
                out.append((head(h), t[j + 1 : e]))
                out += all_blocks(t[j + 1 : e])
                i = e + 1
                continue
        i += 1
    return out


def expand(t, name, k):
    """The k-th expansion of macro_rules! name, by mechanical `$x` substitution. Two shapes: a flat
    pattern, and one repetition `$( inner!( .. ); )*` whose items are numbered over the whole call."""
    rules = rustx.macro_rules(t, name)
    if len(rules) != 1:
        raise Lost(f"macro {name} has {len(rules)} rules")
    pat, exp = rules[0]
    args = rustx.calls(t, name)
    if pat[:2] == ["$", "("]:
        inner = pat[2 : rustx.match(pat, 1)]
        rest = pat[rustx.match(pat, 1) + 1 :]
        if rest not in (["*"], [";", "*"], ["+"]):
            raise Lost(f"macro {name}: pattern")
        items = []
        for a in args:
            p = list(inner)
            while a:
                env, used = bind(p, a)
                items.append(env)
                a = a[used:]
        if k >= len(items):
            raise Lost(f"macro {name}: item {k}")
        out, i = [], 0
        while i < len(exp):
            if exp[i] == "$" and exp[i + 1] == "(":
                j = rustx.match(exp, i + 1)
                out += rustx.subst(exp[i + 2 : j], items[k])
                i = j + 1
                if exp[i] in "*+":
                    i += 1
            else:
                out.append(exp[i])
                i += 1
        return rustx.drop_attrs(out)
    if k >= len(args):
        raise Lost(f"macro {name}: call {k}")
    env, _ = bind(pat, args[k])
    return rustx.drop_attrs(rustx.subst(exp, env))


def macro_body(rules, k):
    """The k-th rule's expansion as a function body: the first operand is `first`, the others are the slice
    `rest`, and a repetition `$( let x = ..; )*` over them is a loop that assigns x."""
    if k >= len(rules):
        raise Lost(f"rule {k}")
    t, _ = replace_all(rules[k][1], lex("$crate::"), [])
    while t[:1] == ["{"] and rustx.match(t, 0) == len(t) - 1:
        t = t[1:-1]
    out, i = [], 0
    while i < len(t):
        if t[i] == "$" and t[i + 1] == "(":
            e = rustx.match(t, i + 1)
            b = t[i + 2 : e]
            if t[e + 1] != "*":
                raise Lost("repetition")
            if b == ["$", "rest", ","]:
                out.append("rest")
            else:
                if b[:1] != ["let"] or b[2] != "=" or b[-1] != ";":
                    raise Lost("repetition of something else than a let")
                at = find(out, ["let", b[1], "="])
                if at < 0:
                    raise Lost("repetition rebinds nothing")
                out[at : at + 1] = ["let", "mut"]
                out += lex("let mut k: usize = 0; while k < rest.len() { let item = rest[k];")
                out += rustx.subst(b[1:], {"rest": ["item"]}) + lex("k += 1; }")
            i = e + 2
        else:
            out.append(t[i])
            i += 1
    return rustx.subst(out, {"value": ["first"]})


def bind(pat, a):
    env, i, j = {}, 0, 0
    while i < len(pat):
        if j >= len(a):
            raise Lost("macro arguments")
        if pat[i] == "$" and i + 3 < len(pat) + 1 and pat[i + 2] == ":":
            env[pat[i + 1]] = [a[j]]
            i += 4
            j += 1
        elif pat[i] in "([{" and a[j] == pat[i]:
            i += 1
            j += 1
        elif pat[i] == a[j]:
            i += 1
            j += 1
        else:
            raise Lost(f"macro arguments: {pat[i]} / {a[j]}")
    return env, j


# ---------------------------------------------------------------------------------------- rewriting

def loops(b):
    """(keyword index, index of the body's `{`) of each loop, in text order."""
    out = []
    for i, x in enumerate(b):
        if x in ("for", "while", "loop") and not (x == "for" and i + 1 < len(b) and b[i + 1] == "<"):
            j = i + 1
            while j < len(b) and b[j] != "{":
                j = rustx.match(b, j) + 1 if b[j] in "([" else j + 1
            if j < len(b):
                out.append((i, j))
    return out


def find(t, pat, start=0):
    n = len(pat)
    for i in range(start, len(t) - n + 1):
        if t[i : i + n] == pat:
            return i
    return -1


def replace_all(t, a, b):
    out, i, n = [], 0, 0
    while i < len(t):
        if t[i : i + len(a)] == a:
            out += b
            i += len(a)
            n += 1
        else:
            out.append(t[i])
            i += 1
    return out, n


def call_consts(b, local=()):
    out = []
    for i, x in enumerate(b):
        out.append(x)
        if x in CONSTS and i > 0 and b[i - 1] == "::" and b[i + 1 : i + 2] != ["("]:
            out += ["(", ")"]
    return out


def closures(b):
    """(start, index after parameter list, end) of each closure `|..| body`, in text order. end is the
    index after the body expression."""
    out, i = [], 0
    while i < len(b):
        if b[i] in ("|", "||") and (i == 0 or b[i - 1] in ("(", ",", "=", "move", "{", ";", "return")):
            if b[i] == "||":
                j = i + 1
            else:
                j = i + 1
                while b[j] != "|":
                    j = rustx.match(b, j) + 1 if b[j] in "([" else j + 1
                j += 1
            e = j
            while e < len(b) and b[e] not in (")", ",", "]", "}", ";"):
                e = rustx.match(b, e) + 1 if b[e] in "([{" else e + 1
            out.append((i, j, e))
            i = j
        else:
            i += 1
    return out


def indent(s, n):
    return "\n".join(" " * n + l if l.strip() else l for l in s.rstrip("\n").split("\n"))


def build(fn, sec, opts):
    """Verus text of one function: signature with named result, contract, annotated body."""
    sig, body = list(fn.sig), call_consts(list(fn.body)) if fn.body is not None else None
    sig = call_consts(sig)
    if "noitems" in opts and body is not None:
        body = without_items(body)
    for name, q in sec.get("interp", []):
        if body is not None:
            body, n = replace_all(body, ["#", name], q)
    for a, b in sec.get("rewrite", []):
        may = a[:1] == ["maybe"]
        a = a[may:]
        if a[:1] == ["sig"]:
            sig, n = replace_all(sig, a[1:], b)
            n += may
        elif body is None:
            continue
        elif may:
            body, n = replace_all(body, a, b)
            n = 1
        else:
            body, n = replace_all(body, a, b)
        if n == 0:
            soft(opts, "text to rewrite: " + " ".join(a))
    if opts.get("as"):
        sig[sig.index("fn") + 1] = opts["as"]
    while sig[:1] in (["default"], ["const"]):     # a const fn is checked as a plain fn
        sig = sig[1:]
    # result name
    p = find(sig, ["("], sig.index("fn"))
    if sig[sig.index("fn") + 2] == "<":
        d, p = 0, sig.index("fn") + 2
        while True:
            d += {"<": 1, ">": -1, ">>": -2}.get(sig[p], 0)
            p += 1
            if d <= 0:
                break
    q = rustx.match(sig, p)
    where = sig.index("where") if "where" in sig else len(sig)
    params, ret, wh = sig[p + 1 : q], sig[q + 1 : where], sig[where:]
    muts = []
    ps = rustx.split(params)
    for k, x in enumerate(ps):
        if x[:1] == ["mut"]:
            muts.append(x[1])
            ps[k] = x[1:]
    params = sum(([*x, ","] for x in ps), [])[:-1] if ps else []
    if ret:
        ret = ["->", "(", opts.get("ret", "r"), ":", *ret[1:], ")"]
    hd = sig[: p + 1] + params + [")"] + ret + wh
    out = "".join(f"#[verifier::{a}]\n" for a in opts.get("attr", []))
    out += ("pub " if opts.get("pub") else "") + text(hd)
    if sec.get("spec"):
        out += "\n" + indent(sec["spec"], 4)
    if body is None:
        return out + ";"
    for m in muts:
        n = m + "_"
        body = [n if x == m else x for x in body]
        body = ["let", "mut", n, "=", m, ";"] + body
    body = annotate(body, sec, opts)
    return out + "\n{\n" + indent(text(body), 4) + "\n}"


def tail(b):
    """Index where the tail expression of a block starts."""
    i, last = 0, 0
    while i < len(b):
        if b[i] in "([{":
            j = rustx.match(b, i)
            if b[i] == "{" and j + 1 < len(b) and b[j + 1] not in (".", "else", "?", ")", ",", "as", "==", "!=", "&&", "||", "+", "|", "&"):
                last = j + 1
            i = j + 1
            continue
        if b[i] == ";":
            last = i + 1
        i += 1
    if last < len(b) and b[last] in ("for", "while"):
        last = len(b)            # a loop has no value
    return last


def soft(opts, why):
    """The text no longer has the shape the proof was written for. What is left is still checked: a proof
    that goes through counts, one that does not leaves the function undecided."""
    opts.setdefault("soft", []).append(why)


def same_loop(a, b):
    """Is an invariant written for loop header a at least well-formed for header b?"""
    if a[0] != b[0]:
        return False
    return a[0] != "for" or a[: a.index("in")] == b[: b.index("in")]


def annotate(body, sec, opts):
    ls = loops(body)
    want = dict(sec.get("loops", {}))
    if "nloops" in sec and len(ls) != sec["nloops"] or (want and max(want) >= len(ls)):
        soft(opts, f"{len(ls)} loops")
        want = {k: w for k, w in want.items() if k < len(ls)}
    if not want and ls and not sec.get("anyloops"):
        soft(opts, "a loop without an invariant")
    ins = {}                       # index -> list of raw strings inserted before that token
    for k, w in want.items():
        i, j = ls[k]
        if w["anchor"] and norm(body[i:j]) != norm(w["anchor"]):
            soft(opts, "loop header `" + norm(body[i:j]) + "`")
            if not same_loop(lex(w["anchor"]), body[i:j]):
                continue
        e = rustx.match(body, j)
        if body[i] == "for" and w.get("inv"):
            n = i + 1
            while body[n] != "in":
                n = rustx.match(body, n) + 1 if body[n] in "([" else n + 1
            ins.setdefault(n + 1, []).append(RAW + f" it{k}: ")
        if w.get("inv"):
            ins.setdefault(j, []).append(RAW + indent(w["inv"], 8))
        if w.get("in"):
            ins.setdefault(j + 1, []).append(RAW + indent(w["in"], 8))
        if w.get("out"):
            ins.setdefault(e, []).append(RAW + indent(w["out"], 8))
        if w.get("post"):
            ins.setdefault(e + 1, []).append(RAW + indent(w["post"], 8))
        if w.get("prev"):
            ins.setdefault(i, []).append(RAW + indent(w["prev"], 8))
    for where, anchor, s in sec.get("at", []):
        a = lex(anchor)
        i = find(body, a)
        if i < 0:
            soft(opts, "statement `" + anchor + "`")
            continue
        ins.setdefault(i + (len(a) if where == "after" else 0), []).append(RAW + indent(s, 8))
    if sec.get("tail"):
        ins.setdefault(tail(body), []).append(RAW + indent(sec["tail"], 8))
    if sec.get("result"):
        k = tail(body)
        if k >= len(body):
            raise Lost("no tail expression")
        ins.setdefault(k, []).append(RAW + "let res =")
        ins.setdefault(len(body), []).append(RAW + ";\n" + indent(sec["result"], 8) + "\nres")
    cl = closures(body)
    cw = sec.get("closures", {})
    if cw and max(cw) >= len(cl):
        soft(opts, f"{len(cl)} closures")
    repl, close = {}, {}
    for k, (anchor, new) in cw.items():
        if k >= len(cl):
            continue
        i, j, e = cl[k]
        anchor, _, name = anchor.partition(" as ")
        if norm(body[i:j]) != norm(anchor):
            soft(opts, "closure `" + norm(body[i:j]) + "`")
            continue
        if name:                 # the closure gets a name in front of the tail expression
            b = body[j:e] if body[j] == "{" else ["{"] + body[j:e] + ["}"]
            ins.setdefault(tail(body), [])[:0] = [RAW + f"let {name} = {new}"] + b + [";"]
            repl[i] = (e, name)
            continue
        repl[i] = (j, new)
        if body[j] != "{":
            close[e] = close.get(e, 0) + 1
            repl[i] = (j, new + " {")
        ins.setdefault(-1, [])
    out, i = [], 0
    if sec.get("pre"):
        out.append(RAW + indent(sec["pre"], 8))
    while i <= len(body):
        out += ["}"] * close.get(i, 0)
        out += ins.get(i, [])
        if i == len(body):
            break
        if i in repl:
            j, new = repl[i]
            out.append(RAW + new)
            i = j
        else:
            out.append(body[i])
            i += 1
    return out


# ---------------------------------------------------------------------------------------- templates

def render(template, src, skip=(), false=False):
    """-> (text, [Func]). Functions named in `skip` keep their contract but lose their body."""
    lines = unroll(template.split("\n"))
    out, funcs, seen, auto = [], [], {}, ""
    i = 0

    def emit(s):
        out.extend(s.split("\n"))

    while i < len(lines):
        l = lines[i]
        if not l.startswith("@"):
            out.append(l)
            i += 1
            continue
        kind, _, rest = l[1:].partition(" ")
        args = [x.strip() for x in (rest + " ").split(" | ")]
        if kind == "props":
            props = rest.split()
            i += 1
            continue
        if kind == "auto":           # @auto TEXT : facts put in front of every following function
            auto = rest.strip()
            i += 1
            continue
        if kind == "check":          # @check FILE | tokens : an assumption about the text holds only while they are there
            f = Func("check " + args[1], args[0], props)
            try:
                if find(lex(open(os.path.join(src.root, args[0])).read()), lex(args[1])) < 0:
                    f.lost = "not in the source"
            except OSError:
                f.lost = "file gone"
            f.kind = "check"
            funcs.append(f)
            i += 1
            continue
        if kind == "only":           # @only FILE | HEADER | names : the impl defines no other function
            f = Func("only " + args[1], args[0], props)
            f.kind = "check"
            names = set(args[2].split()) if len(args) > 2 else set()
            h = head(args[1])
            got = set()
            try:
                hits = [b for k, b in src.blocks(args[0]) if k == h]
                if not hits:
                    f.lost = "gone"
                for b in hits:
                    got |= set(rustx.functions(b))
            except Lost as e:
                f.lost = str(e)
            if got - names:
                f.lost = "also defines " + " ".join(sorted(got - names))
            funcs.append(f)
            i += 1
            continue
        if kind == "item":           # @item FILE | head [| A ==> B] : a struct or enum, taken over as written
            try:
                t = src.item(args[0], args[1])
                for x in args[2:]:
                    a, _, b = x.partition("==>")
                    t, n = replace_all(t, lex(a), lex(b))
                    if not n:
                        raise Lost("text to rewrite: " + a)
                emit("pub " + text(pub_fields(t)))
            except Lost as e:
                f = Func("item " + args[1], args[0], props)
                f.lost, f.kind = str(e), "item"
                funcs.append(f)
                raise
            i += 1
            continue
        if kind not in ("fn", "const", "macro", "let"):
            raise SystemExit(f"template: {l}")
        sec, i = section(lines, i + 1)
        if auto:
            sec["pre"] = auto + "\n" + sec.get("pre", "")
        opts = {}
        for x in args[3:]:
            k, _, v = x.partition("=")
            opts.setdefault(k, []).append(v) if k == "attr" else opts.__setitem__(k, v or True)
        if args[1].startswith("impl") and " for " not in args[1] and "nopub" not in opts:
            opts["pub"] = True
        nm = opts.get("as") if kind in ("macro", "let") else opts.get("as") or args[2].split(":")[0]
        full = opts.get("path", "") + nm
        seen[full] = seen.get(full, 0) + 1
        if seen[full] > 1:
            full += f" ({seen[full]})"
        f = Func(full, f"{args[0]}: {args[1]}: {args[2]}", opts["props"].split() if "props" in opts else list(props))
        f.kind = "const" if kind == "const" else "fn"
        funcs.append(f)
        try:
            if kind == "macro":          # @macro FILE | NAME | k : the k-th rule of a macro_rules!, as a function
                fn = rustx.Fn(nm, rustx.strip_vis(lex(sec["sig"])), macro_body(src.rules(args[0], args[1]), int(args[2])))
            elif kind == "let":          # @let FILE | fn | x : the expression of `let x = ..;` in fn, as a function
                fn = rustx.Fn(nm, rustx.strip_vis(lex(sec["sig"])), src.let(args[0], args[1], args[2]))
            elif kind == "fn":
                name, _, nth = args[2].partition(":")
                fn = src.fn(args[0], args[1], name, int(nth or 0))
            else:
                ty, ex = src.const(args[0], args[1], args[2])
                fn = rustx.Fn(args[2], ["fn", args[2], "(", ")", "->", *ty], ex)
                if opts.get("nobody"):
                    fn.body = None
        except Lost as e:
            f.lost = str(e)
            fn = None
        if fn is not None:
            f.has_body = fn.body is not None
            f.tokens = list(fn.sig) + list(fn.body or [])
        try:
            if fn is not None:
                sec["interp"] = [(n, src.quoted_arm(args[0], n, a[0]) if isinstance(a[0], str) else src.quoted(args[0], n, *a)) for n, *a in sec.get("interp", [])]
                for _, q in sec["interp"]:
                    f.tokens += q
        except Lost as e:
            f.lost = str(e)
            fn = None
        if fn is not None and full not in skip:
            if false and fn.body is not None and kind in ("fn", "macro", "let"):
                sec["tail"] = sec.get("tail", "") + "\nassert(false);"
                f.falsified = True
            try:
                s = build(fn, sec, opts)
                f.soft = opts.get("soft", [])
            except Exception as e:
                f.lost = f"{e}" or "shape"
                s = None
        else:
            if full in skip:
                f.lost = skip[full]
            s = None
        if s is None:
            if not sec.get("sig") and (fn is None):
                sigt = None
            s = stub(fn, sec, opts)
        f.lo = len(out) + 1
        emit(s)
        f.hi = len(out)
    return "\n".join(out) + "\n", funcs


def without_items(b):
    """A body without the structs and impls declared in it (their functions are under contract themselves)."""
    out, i = [], 0
    while i < len(b):
        if b[i] in ("struct", "impl") and (not out or out[-1] in (";", "}")):
            while b[i] not in ("{", ";"):
                i = rustx.match(b, i) + 1 if b[i] in "([" else i + 1
            i = rustx.match(b, i) + 1 if b[i] == "{" else i + 1
        else:
            out.append(b[i])
            i += 1
    return out


def pub_fields(t):
    """Visibility plays no part in what a function does: fields are made visible to the contracts."""
    if t[0] != "struct" or "{" not in t:
        return t
    i = t.index("{")
    out = t[: i + 1]
    for x in rustx.split(t[i + 1 : -1]):
        out += ["pub"] + rustx.strip_vis(x) + [","]
    return out + ["}"]


def stub(fn, sec, opts):
    """Contract without the body: what callers may rely on while the function itself is undecided."""
    if sec.get("sig"):
        sig = lex(sec["sig"])
        fn = rustx.Fn("", sig, None)
    if fn is None:
        return "// (function not found)"
    g = rustx.Fn(fn.name, fn.sig, None)
    s = dict(sec)
    try:
        s["rewrite"] = [r for r in sec.get("rewrite", []) if "sig" in r[0][:2]]
        t = build(g, s, opts)
    except Exception:
        return "// (signature not understood)"
    return "#[verifier::external_body]\n" + t.rstrip(";") + "\n{ unimplemented!() }"


def section(lines, i):
    sec, cur, key = {"rewrite": [], "at": [], "closures": {}, "loops": {}}, [], ("spec",)

    def close():
        s = "\n".join(cur).strip("\n")
        if not s.strip() and key[0] != "loop":
            return
        if key[0] in ("spec", "pre", "sig", "tail", "result"):
            sec[key[0]] = (sec[key[0]] + "\n" + s) if key[0] in sec else s
        elif key[0] == "loop":
            sec["loops"].setdefault(key[1], {})["anchor"] = key[2]
            sec["loops"][key[1]]["inv"] = s
        elif key[0] in ("in", "out", "post", "prev"):
            sec["loops"].setdefault(key[1], {"anchor": ""})[key[0]] = s
        elif key[0] in ("before", "after"):
            sec["at"].append((key[0], key[1], s))
        elif key[0] == "closure":
            sec["closures"][key[1]] = (key[2], s)

    while i < len(lines):
        l = lines[i]
        if l.startswith("@"):
            close()
            cur = []
            kind, _, rest = l[1:].partition(" ")
            if kind == "end":
                return sec, i + 1
            if kind in ("spec", "pre", "sig", "tail", "result"):
                key = (kind,)
                if rest.strip():
                    cur = [rest]
            elif kind == "loop":
                k, _, a = rest.partition("|")
                key = ("loop", int(k), a.strip())
            elif kind in ("in", "out", "post", "prev"):
                key = (kind, int(rest))
            elif kind in ("before", "after"):
                key = (kind, rest.strip())
            elif kind == "closure":
                k, _, a = rest.partition(" ")
                key = ("closure", int(k), a.strip())
            elif kind == "rewrite":
                a, _, b = rest.partition("==>")
                # a right side with specification syntax in it is kept verbatim
                sec["rewrite"].append((lex(a), [RAW + b.strip()] if re.search(r"==>|ensures|requires|proof|invariant", b) else lex(b)))
                key = ("none",)
            elif kind == "interp":       # @interp NAME k [| GUARD] : `#NAME` is the k-th quote! of `let NAME = ..;`
                # @interp NAME @ARM : in the arm for ARM of the match that chooses it
                if "@" in rest:
                    n, _, pat = rest.partition("@")
                    sec.setdefault("interp", []).append((n.strip(), pat.strip()))
                    key = ("none",)
                    i += 1
                    continue
                h, _, g = rest.partition("|")
                sec.setdefault("interp", []).append((*h.split()[:1], int(h.split()[1]), g.strip()))
                key = ("none",)
            elif kind == "nloops":
                sec["nloops"] = int(rest)
            elif kind == "anyloops":
                sec["anyloops"] = True
            else:
                raise SystemExit(f"template section: {l}")
        else:
            cur.append(l)
        i += 1
    raise SystemExit("template: missing @end")


def tuples(s):
    """"(a,b) (c,f(x,y))" -> [[a, b], [c, f(x,y)]]"""
    out, d = [], 0
    for c in s:
        if c == "(":
            d += 1
            if d == 1:
                out.append([""])
                continue
        if c == ")":
            d -= 1
            if d == 0:
                continue
        if d == 1 and c == ",":
            out[-1].append("")
        elif d:
            out[-1][-1] += c
    return [[x.strip().replace("~", ",") for x in v] for v in out]      # ~ stands for a comma


def unroll(lines):
    """@for A B in (x,y) (z,w) ... @endfor: textual repetition with %A% and %B% replaced."""
    out, i = [], 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("@for "):
            names, _, vals = l[5:].partition(" in ")
            names = names.split()
            d, j = 1, i + 1
            while d:
                d += lines[j].startswith("@for ")
                d -= lines[j].startswith("@endfor")
                j += 1
            body = lines[i + 1 : j - 1]
            for vs in tuples(vals):
                b = "\n".join(body)
                for n, x in zip(names, vs):
                    b = b.replace(f"%{n}%", x)
                out += unroll(b.split("\n"))
            i = j
        else:
            out.append(l)
            i += 1
    return out
