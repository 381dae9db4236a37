#!/usr/bin/env python3
"""Which tokens of /repo's sources reach the verified text: change each one in turn and see whether the
rendered Verus file differs. Prints the lines with a token that does not reach it. Slow (~10 min)."""
import builtins, hashlib, io, os, re, sys, multiprocessing as mp
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from vlib import vgen, rustx, verus
from vlib.common import REPO
FS = ["enumset/src/repr/array.rs", "enumset/src/repr/primitive.rs", "enumset/src/repr/mod.rs", "enumset/src/set.rs",
      "enumset/src/macros.rs", "enumset/src/traits.rs", "enumset/src/lib.rs", "enumset_derive/src/lib.rs"]
TEXT = {f: open(os.path.join(REPO, f)).read() for f in FS}
T = verus.template()


def rendered(changed):
    def patched(p, *a, **k):
        for f, t in changed.items():
            if p == os.path.join(REPO, f):
                return io.StringIO(t)
        return builtins.open(p, *a, **k)
    vgen.open = patched
    try:
        text, funcs = vgen.render(T, vgen.Source(REPO))
        return hashlib.sha256(repr((text, [(f.name, f.lost, tuple(f.soft)) for f in funcs])).encode()).hexdigest()
    except Exception as e:
        return "rejected: %s" % type(e).__name__


def job(x):
    f, a, b = x
    tok = TEXT[f][a:b]
    new = tok + "_x" if re.match(r"[A-Za-z_]", tok) else "77" if tok[0].isdigit() else "-" if tok == "+" else "+"
    return f, a, tok, rendered({f: TEXT[f][:a] + new + TEXT[f][b:]})


if __name__ == "__main__":
    plain = rendered({})
    jobs = [(f, m.start(), m.end()) for f in FS for m in rustx.TOKEN.finditer(TEXT[f])
            if m.lastgroup not in ("ws", "com") and m.group(0) not in "(){}[],;:."]
    with mp.Pool(4) as p:
        out = p.map(job, jobs, chunksize=20)
    missed = {}
    for f, a, tok, s in out:
        if s == plain:
            missed.setdefault((f, TEXT[f].count("\n", 0, a) + 1), []).append(tok)
    for (f, n), toks in sorted(missed.items()):
        print(f"{f}:{n}: {' '.join(toks)}    | {TEXT[f].splitlines()[n - 1].strip()[:90]}")
    print(f"{len(out)} tokens, {sum(map(len, missed.values()))} do not reach the verified text")
