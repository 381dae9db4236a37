"""Concrete side: builds the harness crate against /repo and runs every contract on generated
inputs; also replays verifier counterexamples."""
import os, re, time
from .common import *

MSG = "a program that uses only the documented API of the crate no longer compiles"


def build(pid, release=False):
    """-> (path of the binary or None, Result). The release build has no debug assertions or overflow
    checks and only those optional features of the crate that the property is about."""
    r = Result("native build")
    t0 = time.time()
    feats = pid.lower() + (",thorough" if THOROUGH else "")
    d, tg = harness_dir(), target("native", pid)
    extra = ["--release", "--no-default-features"] if release else []
    for attempt in range(2):        # a compiler ended from outside is not an answer
        rc, o, e = run(["cargo", "build", *extra, "--features", feats, "--target-dir", tg], cwd=d, timeout=600)
        if rc in (0, None):
            break
    r.wall = time.time() - t0
    if rc == 0:
        return os.path.join(tg, "release" if release else "debug", "native"), r
    if release:
        r.error = "the release build failed:\n" + e[-3000:]
        return None, r
    if rc is None:
        r.error = "native build timed out"
        return None, r
    # Is the crate itself broken, or only its use?
    if not re.search(r"^error(\[E\d+\])?: (?!could not compile|the compiler unexpectedly)", e, re.M):
        r.error = "the native build failed without a compiler diagnostic:\n" + e[-3000:]
        return None, r
    rc2, o2, e2 = run(["cargo", "build", "-p", "enumset", "--target-dir", tg], cwd=d, timeout=600)
    if rc2 != 0:
        r.error = "/repo does not build:\n" + e2[-3000:]
    else:
        r.violations.append(dict(what=MSG, confirmed=True,
            replay=f"cd {HARNESS} && cargo build --features {feats}\n\n" + e[-6000:]))
    return None, r


def search(binary, n, seed, timeout):
    r = Result("native search")
    t0 = time.time()
    rc, o, e = run([binary, "search", str(n), str(seed)], timeout=timeout)
    r.wall = time.time() - t0
    ev = dis = sk = c = 0
    samples, per = [], {}
    for l in o.splitlines():
        f = l.split(" ", 3)
        if f[0] == "RAN":
            d = dict(x.split("=", 1) for x in l.split()[2:])
            ev += int(d["ok"]); sk += int(d["skip"]); dis += int(d["distinct"]); c += 1
            if len(samples) < 6 and d["last"]:
                samples.append({"contract": f[1], "input_words_le_hex": d["last"]})
        elif f[0] == "BAD":
            r.violations.append(dict(what=f"{f[1]}: {f[3]}", contract=f[1], tape=f[2], confirmed=True,
                replay=f"contract: {f[1]}\nfailed obligation: {f[3]}\ninput (little-endian hex, one item per nondeterministic value): {f[2]}\n"))
    r.info = dict(contracts=c, evaluations=ev, skipped=sk, distinct_nontrivial=dis, samples=samples)
    if rc is None:
        r.undecided.append(("native search", "time limit reached; contracts not reached are not counted"))
    elif rc not in (0, 1) or "DONE" not in o:
        r.violations.append(dict(what="the process running the contracts was killed (abort or memory fault)", confirmed=True,
            replay=f"exit status {rc}\nlast contracts run:\n" + "\n".join(o.splitlines()[-3:]) + "\n" + e[-2000:]))
    return r


def bounded(binary):
    """The contracts with no deductive instance in the compiled-code stage, and how many instances of the
    others are searched only."""
    rc, o, e = run([binary, "list"], timeout=60)
    by = {}
    for l in o.splitlines():
        n, _, k = l.split()
        by.setdefault(n.rsplit("::", 1)[0], []).append(k)
    return dict(searched_only=sorted(n for n, k in by.items() if "kani" not in k),
                instances_searched_only={n: k.count("native") for n, k in sorted(by.items()) if "kani" in k and "native" in k})


def replay(binary, contract, tape, timeout=60):
    rc, o, e = run([binary, "replay", contract, tape], timeout=timeout)
    return rc, (o + e).strip()
