"""Kani side: discharges every contract harness of a property over the compiled code in /repo."""
import re, time
from .common import *
from . import native


def plain(name):
    """Harness path -> contract name."""
    return "esv::" + name.replace("::proofs::", "::").replace("::more::", "::")


def parse(out):
    """-> {harness: dict(checks, failed, undetermined, unreachable, covers, covered, ok, lines, time)}"""
    res, cur, th, block = {}, {}, None, None
    for l in out.splitlines():
        m = re.match(r"(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.", l)
        if m:
            cur[m.group(1)] = m.group(2)
            th = m.group(1)
            continue
        m = re.match(r"Thread (\d+): ?$", l)
        if m:
            th = m.group(1)
            continue
        if l.startswith("VERIFICATION RESULT"):
            block = dict(checks=0, failed=0, unreachable=0, undetermined=0, covers=0, covered=0, ok=None, lines=[], time=0.0)
            res[cur[th]] = block
            continue
        if block is None:
            continue
        m = re.match(r" \*\* (\d+) of (\d+) failed(?: \((.*)\))?", l)
        if m:
            block["failed"], block["checks"] = int(m.group(1)), int(m.group(2))
            for k in ("unreachable", "undetermined"):
                x = re.search(r"(\d+) " + k, m.group(3) or "")
                block[k] = int(x.group(1)) if x else 0
            continue
        m = re.match(r" \*\* (\d+) of (\d+) cover properties satisfied", l)
        if m:
            block["covered"], block["covers"] = int(m.group(1)), int(m.group(2))
            continue
        if l.startswith("VERIFICATION:-"):
            block["ok"] = "SUCCESSFUL" in l
        m = re.match(r"Verification Time: ([\d.]+)s", l)
        if m:
            block["time"] = float(m.group(1))
            block = None
            continue
        if l.strip():
            block["lines"].append(l)
    return res


LIMITS = ("unwinding", "not currently supported", "unsupported", "recursion unwinding", "CBMC failed", "timed out", "CBMC timed out")


def prove(pid, budget):
    """All harnesses of the property."""
    r = Result("kani")
    t0 = time.time()
    feats = pid.lower() + (",thorough" if THOROUGH else "")
    cmd = ["cargo", "kani", "--lib", "--target-dir", target("kani", pid), "--features", feats, "-j", "8",
           "--output-format", "terse", "-Z", "unstable-options", "--harness-timeout", f"{1500 if THOROUGH else 300}s"]
    rc, o, e = run(cmd, cwd=harness_dir(), timeout=budget)
    if rc not in (0, None) and not parse(o):          # a compiler ended from outside is not an answer
        rc, o, e = run(cmd, cwd=harness_dir(), timeout=budget)
    r.wall = time.time() - t0
    r.info["cmd"] = " ".join(cmd)
    res = parse(o)
    r.info["harnesses"] = len(res)
    r.info["raw"] = res
    r.info["solver_s"] = round(sum(b["time"] for b in res.values()), 2)
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", o)
    if not m:
        if rc is None:
            r.undecided.append(("kani", f"time limit {budget}s reached after {len(res)} harnesses"))
        elif not res:
            r.error = "kani did not run:\n" + (o + e)[-3000:]
            return r
        else:
            r.undecided.append(("kani", "incomplete run"))
    else:
        r.info["total"] = int(m.group(3))
        if int(m.group(3)) > len(res):
            r.undecided.append(("kani", f"{int(m.group(3)) - len(res)} harnesses gave no result"))
    r.info["failed"] = []
    for h, b in sorted(res.items(), key=lambda x: x[1]["time"]):
        panics = any("one or more panics as expected" in l for l in b["lines"]) or "panics" in h
        if panics:
            # one obligation per must-panic harness beyond its safety checks
            r.obligations += b["covers"]
            if b["ok"] and b["covered"] == 0:
                r.discharged += b["covers"]
            else:
                r.info["failed"].append(h)
        else:
            r.obligations += b["checks"] + b["covers"]
            r.discharged += b["checks"] - b["failed"] - b["undetermined"] + b["covered"]
            if not b["ok"] or b["covered"] < b["covers"]:
                r.info["failed"].append(h)
    return r


def counterexample(pid, harness, timeout):
    """-> list of (label, tape) from Kani's concrete playback."""
    feats = pid.lower() + (",thorough" if THOROUGH else "")
    rc, o, e = run(["cargo", "kani", "--lib", "--target-dir", target("kani", pid), "--features", feats, "--harness", harness, "--exact",
                    "-Z", "concrete-playback", "--concrete-playback=print"], cwd=harness_dir(), timeout=timeout)
    out = []
    for m in re.finditer(r"/// Check for `([^`]*)`: (.*?)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];", o, re.S):
        vals = re.findall(r"vec!\[([\d, ]*)\]", m.group(3))
        tape = ",".join("".join(f"{int(x):02x}" for x in v.split(",") if x.strip()) for v in vals)
        out.append((m.group(1), m.group(2).strip().strip('"'), tape))
    fails = re.findall(r"Failed Checks: .*(?:\n .*)?", o)
    return out, fails, o[-4000:]


def judge(pid, r, binary, deadline):
    """Turns failed harnesses into violations (replayed on the real code), or leaves them undecided."""
    res = r.info["raw"]
    confirmed = 0
    for h in r.info["failed"]:
        b = res[h]
        text = "\n".join(b["lines"])
        left = deadline - time.time()
        if confirmed >= 1 or left < 15:
            r.undecided.append((h, "failed; not examined further after a confirmed violation or for lack of time"))
            continue
        limit = any(k in text for k in LIMITS)
        cx, fails, raw = counterexample(pid, h, min(left, 240))
        done = False
        for kind, label, tape in cx:
            if kind == "cover" and label == "reach":
                continue
            if binary:
                rc, out = native.replay(binary, plain(h), tape)
                if rc == 1 or rc not in (0, 1, 2, None):
                    r.violations.append(dict(what=f"{plain(h)}: {label}", contract=plain(h), tape=tape, confirmed=True,
                        replay=f"contract: {plain(h)}\nfailed obligation: {label}\nverifier: Kani (CBMC) counterexample, replayed on the compiled code: {out}\ninput (little-endian hex, one item per nondeterministic value): {tape}\n"))
                    done = True
                    confirmed += 1
                    break
        if done:
            continue
        if limit or not text.strip() or b["ok"] is None:
            r.undecided.append((h, "verifier limit: " + (text[:300] or "no result")))
        elif b["covered"] < b["covers"] and b["ok"] and "panics" not in h:
            r.undecided.append((h, "a reachability condition of the contract was not met"))
        else:
            r.violations.append(dict(what=f"{plain(h)}: {text[:400]}", contract=plain(h), tape=None, confirmed=False,
                replay=f"contract: {plain(h)}\nfailed obligations:\n{text}\n\nverifier output:\n{raw}\n"))
    return r
