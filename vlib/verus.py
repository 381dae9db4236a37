"""Verus side: the text of every function under contract is taken from the repository, joined with the
contracts in verus/*.vrs and handed to Verus, which discharges every obligation for every enum type,
every word count and every input. What cannot be decided is reported as undecided, never as an alarm."""
import hashlib, json, re, time
from .common import *
from . import vgen
from .rustx import Lost, lex, norm

TEMPLATES = ["repr", "prim", "iter0", "primimpl", "array", "arrayiter", "set", "conv", "convarr", "setiter", "collect", "fmt", "ordhash", "derived", "derive", "serde"]
BASE = os.path.join(VERIF, "verus", "baseline.json")
LOW = ("enumset/src/repr/",)         # layers whose functions matter to a property through its callers


def template():
    return "\n".join(open(os.path.join(VERIF, "verus", x + ".vrs")).read() for x in TEMPLATES + ["main"])


def digest(f):
    return hashlib.sha256(norm(f.tokens).encode()).hexdigest()[:16]


def vocabulary(f):
    """What a function calls and the operators whose meaning takes more than linear arithmetic."""
    t = f.tokens
    out = {x.rstrip("=") for p, x in zip(t, t[1:]) if x in ("&", "|", "^", "<<", ">>", "%", "/", "*", "&=", "|=", "^=", "<<=", ">>=", "%=", "/=", "*=")
           and re.match(r"[\w)\]]", p) and p not in ("return", "in", "match", "if", "while", "as", "mut", "else")}
    for a, b in zip(t, t[1:]):
        if re.match(r"[A-Za-z_]\w*$", a) and b in ("(", "!") and a not in ("if", "while", "match", "return", "for", "in"):
            out.add(a)
    return sorted(out)


def baseline():
    """-> {function: [digest, vocabulary]}"""
    try:
        return json.load(open(BASE))
    except OSError:
        return {}


SOURCES = ["enumset/src/set.rs", "enumset/src/repr/mod.rs", "enumset/src/repr/array.rs", "enumset/src/repr/primitive.rs",
           "enumset/src/traits.rs", "enumset/src/macros.rs", "enumset_derive/src/lib.rs"]


def defined():
    """how often each function name is defined in each source file"""
    out = {}
    for f in SOURCES:
        try:
            t = lex(open(os.path.join(REPO, f), encoding="utf-8").read())
        except OSError:
            continue
        for a, b in zip(t, t[1:]):
            if a == "fn" and re.match(r"\w+$", b):
                out[f + " " + b] = out.get(f + " " + b, 0) + 1
    return out


def verus(path, extra=(), timeout=400):
    """-> (json report or None, [diagnostic], raw)"""
    cmd = ["verus", os.path.basename(path), "--triggers-mode", "silent", "--multiple-errors", "4", "--output-json", "--time",
           "--error-format=json", "--num-threads", "6", *extra]
    rc, o, e = run(cmd, cwd=os.path.dirname(path), timeout=timeout)
    diags = []
    for l in e.splitlines():
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") == "error" or "panicked" in d.get("message", ""):
                diags.append(d)
    try:
        rep = json.loads(o[o.index("{"):])
    except ValueError:
        rep = None
    return rc, rep, diags, e, " ".join(cmd)


def lines_of(d):
    """Lines a diagnostic points at: primary spans first."""
    sp = sorted(d.get("spans", []), key=lambda s: not s["is_primary"])
    out = [s["line_start"] for s in sp]
    for c in d.get("children", []):
        out += [s["line_start"] for s in c.get("spans", [])]
    return out


def owner(d, funcs):
    """The function whose body an error is about. A failed postcondition points both at the contract clause
    and at the function's end; a failed precondition at the callee's clause and at the call."""
    hit = []
    for n in lines_of(d):
        for f in funcs:
            if f.lo and f.lo <= n <= f.hi and f not in hit:
                hit.append(f)
    return hit


def short(f):
    return f.name.split(":")[-1].split(" ")[0].rstrip("_")


def relevant(pid, funcs):
    """Functions the property rests on: those tagged with it above the representation layer, the
    representation-layer functions these call, by name, directly or through each other, and the iterators
    of that layer, which carry tags of their own."""
    funcs = [f for f in funcs if f.kind != "fn" or f.lost or f.tokens and f.has_body]
    low = [f for f in funcs if f.source.startswith(LOW) and f.kind != "check"]
    top = [f for f in funcs if pid in f.props and not f.source.startswith(LOW)]
    got = list(top)
    # operators on whole representations: & | ^ between values, in the layers above
    ops = {"&": "bitand", "|": "bitor", "^": "bitxor"}
    for sym, nm in ops.items():
        if any(binary(f.tokens, sym) for f in top):
            got += [g for g in low if short(g) == nm]
    if any(short(f) == "not" for f in top):
        got += [g for g in low if short(g) == "not"]
    got += [g for g in low if pid in g.props and len(g.props) <= 3]
    names, todo = {"new"}, list(got)
    while todo:
        f = todo.pop()
        for t in set(f.tokens) - names:
            names.add(t)
            for g in low:
                if short(g) == t and g not in got:
                    got.append(g)
                    todo.append(g)
    return got + [f for f in funcs if f.source.startswith(LOW) and pid in f.props and f.kind == "check"]


def binary(t, sym):
    return any(t[i] == sym and i and (t[i - 1] in (")", "]") or re.match(r"[A-Za-z_0-9]", t[i - 1])) for i in range(len(t)))


PROOF = re.compile(r"not satisfied|assertion failed|assertion safety|possible (arithmetic|division|bit shift|overflow|underflow)|unable to prove|could not prove|"
                   r"may overflow|resource limit|rlimit|timed out|canceled|recommendation not met", re.I)
LIMIT = re.compile(r"resource limit|rlimit|timed out|timeout|canceled", re.I)


def prove(pid):
    r = Result("verus")
    t0 = time.time()
    d = os.path.join(WORK, f"verus-{pid}" + ("" if REPO == "/repo" else "-" + re.sub(r"\W", "_", REPO)))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "enumset.rs")
    t = template()
    base = baseline()
    skip = {}
    rep = None
    for attempt in range(12):
        try:
            text, funcs = vgen.render(t, vgen.Source(REPO), skip=skip)
        except (Lost, IndexError, ValueError, KeyError) as e:
            r.error = f"the declarations the contracts are about are no longer found: {e}"
            return r
        open(path, "w").write(text)
        rc, rep, diags, err, cmd = verus(path)
        r.info["cmd"] = cmd
        res = (rep or {}).get("verification-results")
        wrong = [x for x in diags if not PROOF.search(x["message"]) and not x["message"].startswith("aborting due to")]
        if res is not None and "verified" in res and res.get("verified", 0) + res.get("errors", 0) > 0 and not wrong:
            break
        diags = wrong or diags
        # the text is outside the verifier's subset somewhere: that function becomes undecided
        bad = {}
        for x in diags:
            o = owner(x, funcs)
            if o and not any(f.name in bad for f in o):
                f = o[0]
                if f.name not in skip:
                    bad[f.name] = "not accepted by the verifier: " + x["message"][:200]
        if not bad:
            for f in funcs:
                if f.kind == "fn" and f.name not in skip and f.name in base and base[f.name][0] != digest(f):
                    bad[f.name] = "changed text, and the verifier stopped without naming a place"
        if not bad:
            r.error = "verus gave no answer:\n" + err[-2000:]
            return r
        skip.update(bad)
    else:
        r.error = "verus gave no answer after removing: " + ", ".join(skip)
        return r

    fails = {}
    for x in diags:
        o = owner(x, funcs)
        if not o:
            if x.get("spans"):
                fails.setdefault(None, []).append(x)
            continue
        fails.setdefault(o[0].name if len(o) == 1 else pick(o, x), []).append(x)
    # one retry with more resources and another seed for what failed
    if fails:
        rc2, rep2, diags2, err2, _ = verus(path, ("--rlimit", "60", "-V", "spinoff-all") if THOROUGH else ("--rlimit", "40"))
        res2 = (rep2 or {}).get("verification-results") or {}
        if "verified" in res2:
            again = {}
            for x in diags2:
                o = owner(x, funcs)
                k = None if not o else (o[0].name if len(o) == 1 else pick(o, x))
                again.setdefault(k, []).append(x)
            fails = {k: again[k] for k in fails if k in again}
            rep = rep2
    rel = relevant(pid, funcs)
    names = {f.name for f in rel}
    done = 0
    changed = [f.name for f in rel if f.name in base and base[f.name][0] != digest(f) and f.kind != "check"]
    for f in rel:
        if f.lost:
            r.undecided.append((f"{f.name} ({f.source})", f.lost))
            if f.name.startswith("only "):       # a method no contract covers has appeared
                r.info["look_closer"] = True
        elif f.name not in fails:
            done += 1
    was = base.get("functions defined") or {}
    extra = sorted(k for k, n in defined().items() if n > was.get(k, 0)) if was else []
    if extra:
        # code no contract mentions: nothing is claimed about it here, so look longer for an input that shows it
        r.info["functions_without_contract"] = extra
        r.info["look_closer"] = True
    r.obligations = len(rel)
    r.discharged = done
    for k, ds in fails.items():
        msg = "; ".join(dict.fromkeys(describe(x) for x in ds))
        if k is None:
            r.undecided.append(("a lemma over the contracts", msg[:400]))
            continue
        if k not in names:
            continue
        f = next(x for x in funcs if x.name == k)
        if any(LIMIT.search(x["message"]) for x in ds):
            r.undecided.append((f"{k} ({f.source})", "resource limit: " + msg[:300]))
        elif f.soft:
            r.undecided.append((f"{k} ({f.source})", "the text has another shape (" + "; ".join(f.soft)[:200] + ") and the proof does not carry over: " + msg[:200]))
            r.info["look_closer"] = True
        elif k in base and base[k][0] == digest(f):
            r.undecided.append((f"{k} ({f.source})", "unchanged text, not discharged this time: " + msg[:300]))
        elif k in base and set(vocabulary(f)) - set(base[k][1] or []):
            # it now rests on functions or operators the proof has no lemma for: not shown to be wrong by not being shown to be right
            r.undecided.append((f"{k} ({f.source})", "the text now uses " + " ".join(sorted(set(vocabulary(f)) - set(base[k][1] or [])))[:200] + " and the proof does not carry over: " + msg[:200]))
            r.info["look_closer"] = True
        else:
            r.violations.append(dict(what=f"{k} ({f.source}): {msg[:300]}", confirmed=False, verus=k,
                replay=f"function under contract: {k} ({f.source})\nfailed obligation: {msg}\nverifier: {r.info['cmd']}\n\n" +
                       "\n".join(x.get("rendered") or x["message"] for x in ds) +
                       "\nText taken from the source, with its contract:\n" + "\n".join(text.split("\n")[f.lo - 1:f.hi])))
    tm = (rep or {}).get("times-ms", {})
    r.info.update(functions_under_contract=sorted(f.name for f in rel if not f.lost and f.kind != "check"),
                  functions=sum(1 for f in rel if f.kind != "check"), source_checks=sum(1 for f in rel if f.kind == "check"),
                  items_verified_in_run=rep["verification-results"]["verified"], items_failed_in_run=rep["verification-results"]["errors"],
                  smt_s=round(tm.get("smt", {}).get("total", 0) / 1000, 2), verify_cpu_s=round(tm.get("total-verify", 0) / 1000, 2),
                  differs_from_baseline=changed, assumed_contracts=assumed(text, rel))
    if THOROUGH and not fails and not skip:
        r.info["vacuity"] = vacuity(d, t)
    r.wall = time.time() - t0
    r.info["wall_s"] = round(r.wall, 1)
    return r


ASSUMED = re.compile(r"external_body|assume_specification|\baxiom fn\b|\buninterp spec fn\b")


def assumed(text, rel):
    """What the modules a property rests on take on trust, read off the text given to Verus: items without
    a checked body, assumed specifications of core, axioms and uninterpreted functions."""
    ls = text.split("\n")
    mod, at = None, []
    for l in ls:
        m = re.match(r"pub mod (\w+) \{", l)
        mod = m.group(1) if m else mod
        at.append(mod)
    mods = {at[f.lo - 1] for f in rel if f.lo}
    mods |= {"repr", "base", "bits", "ty", "setdef"}
    out = {}
    for i, l in enumerate(ls):
        if at[i] not in mods or not ASSUMED.search(l):
            continue
        w = " ".join(ls[i:i + 3])
        w = w[w.index(ASSUMED.search(l).group(0)):]
        m = re.search(r"assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]", w)
        n = m.group(1) if m else None
        kind = "assumed specification" if n else "axiom" if "axiom fn" in l else "uninterpreted" if "uninterp" in l else "no checked body"
        if not n:
            m = re.search(r"\b(fn|struct|enum)\s+(\w+)", w)
            n = m.group(2) if m else w[:40]
            if kind == "no checked body" and m and m.group(1) != "fn":
                kind = "opaque type"
            k = i
            while kind != "opaque type" and k >= 0 and at[k] == at[i]:       # the impl around a method
                m = re.match(r"(?:pub )?(?:impl|trait)\b(.*?)\{", ls[k])
                if m and ls[i].startswith((" ", "\t")) or m and k == i:
                    n = " ".join(m.group(1).split())[:60] + ": " + n
                    break
                if ls[k].startswith("}") and k < i or not ls[i].startswith((" ", "\t")):
                    break
                k -= 1
        out.setdefault(f"{at[i]}: {kind}", []).append(n)
    return {k: sorted(set(v)) for k, v in sorted(out.items())}


def pick(o, x):
    """Several functions are pointed at: the one whose text is executed there, not the one whose contract is quoted."""
    m = x["message"]
    if "precondition" in m or "postcondition" in m:
        # Verus's primary span is the call (precondition) or the clause (postcondition, possibly of a trait)
        for s in x.get("spans", []):
            lab = (s.get("label") or "")
            if "at the end of the function body" in lab or "at this exit" in lab:
                for f in o:
                    if f.lo <= s["line_start"] <= f.hi:
                        return f.name
    return o[0].name


def describe(x):
    sp = [s for s in x.get("spans", []) if "failed" in (s.get("label") or "")] or x.get("spans", [])
    clause = " ".join(t["text"].strip() for t in (sp[0].get("text", [])[:3] if sp else []))
    return x["message"] + (f" [{clause[:160]}]" if clause else "")


def vacuity(d, t):
    """assert(false) in front of every result: it must fail everywhere, or the contract says nothing."""
    text, funcs = vgen.render(t, vgen.Source(REPO), false=True)
    p = os.path.join(d, "vacuity.rs")
    open(p, "w").write(text)
    rc, rep, diags, err, _ = verus(p, timeout=900)
    hit = set()
    for x in diags:
        if "assertion failed" in x["message"]:
            for f in owner(x, funcs):
                hit.add(f.name)
    body = [f.name for f in funcs if f.kind == "fn" and not f.lost and getattr(f, "falsified", False)]
    return dict(functions=len(body), reached=len([n for n in body if n in hit]), not_reached=[n for n in body if n not in hit])


def write_baseline():
    text, funcs = vgen.render(template(), vgen.Source(REPO))
    out = {f.name: [digest(f), vocabulary(f)] for f in funcs if f.kind != "check"}
    out["functions defined"] = defined()
    with open(BASE, "w") as o:           # one function per line
        o.write("{" + ",\n".join(json.dumps(k) + ": " + json.dumps(out[k]) for k in sorted(out)) + "}\n")
    return funcs


if __name__ == "__main__":
    write_baseline()
