#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current tree. See DESIGN.md."""
import sys, os, json, time, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib.common import *
from vlib import native, kani, derive_cases
try:
    from vlib import verus
except ImportError:
    verus = None

NATIVE_N = {"quick": 4000, "thorough": 60000}


def main(pid):
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    budget = 640 if not THOROUGH else 6 * 3600
    stages = {}
    lock = threading.Lock()

    def stage(name, f):
        def go():
            try:
                x = f()
            except Exception:
                x = Result(name)
                x.error = traceback.format_exc()
            with lock:
                stages[name] = x
        t = threading.Thread(target=go)
        t.start()
        return t

    binary = [None]

    def do_native():
        binary[0], r = native.build(pid)
        if binary[0]:
            b = r.wall
            r = native.search(binary[0], NATIVE_N[TIER], SEED, 200 if not THOROUGH else 3600)
            r.info["build_s"] = round(b, 1)
            r.info["bounded_contracts"] = native.bounded(binary[0])
            if pid == "C12":
                stage("derive_cases", lambda: derive_cases.run_cases(target("native", pid))).join()
        return r

    def do_release():
        b, r = native.build(pid, release=True)
        if b:
            w = r.wall
            r = native.search(b, 5 * NATIVE_N[TIER], SEED + 7, 200 if not THOROUGH else 3600)
            r.info["build_s"] = round(w, 1)
            for v in r.violations:
                v["cargo"] = "--release --no-default-features "
                v["what"] += " (release build)"
        return r

    ts = [stage("native", do_native), stage("release", do_release), stage("kani", lambda: kani.prove(pid, budget))]
    if verus:
        ts.append(stage("verus", lambda: verus.prove(pid)))
    for t in ts:
        t.join()
    nat, kan = stages["native"], stages["kani"]
    if kan.error is None and kan.info.get("failed"):
        kani.judge(pid, kan, binary[0], t0 + (780 if not THOROUGH else 8 * 3600))

    ver = stages.get("verus")
    if ver is not None and not any(v["confirmed"] for r in stages.values() for v in r.violations):
        if (ver.violations or ver.info.get("look_closer")) and binary[0] and nat.error is None:
            # an obligation that no longer goes through: look longer for an input that shows it
            more = native.search(binary[0], 8 * NATIVE_N[TIER], SEED + 1, max(5, min(150, t0 + 800 - time.time())))
            nat.violations += more.violations
            nat.info["second_search"] = dict(evaluations=more.info.get("evaluations"), wall_s=round(more.wall, 1))
        if kan.error is None and not kan.undecided and not kan.info.get("failed"):
            # integer storage is a closed family of five types: Kani decides each of them completely
            for v in [v for v in ver.violations if v["verus"].split(":")[0] in ("u8", "u16", "u32", "u64", "u128")]:
                ver.violations.remove(v)
                ver.undecided.append((v["what"], "the deductive proof does not carry over; decided on every instance by the Kani contracts"))

    violations = [dict(v, stage=s) for s, r in stages.items() for v in r.violations]
    known = load_known(pid)
    errors = {s: r.error for s, r in stages.items() if r.error}
    if violations and "kani" in errors and any(v["what"] == native.MSG for v in violations):
        errors.pop("kani")        # the harness crate does not compile: one finding, reported once
    new, reported = [], []
    for v in sorted(violations, key=lambda v: not v["confirmed"]):
        k = next((k for k in known if k in v["what"]), None)
        if k:
            reported.append(k)
        else:
            new.append(v)
    for k in dict.fromkeys(reported):
        print(f"KNOWN-FINDING: property={pid} {k}")
    write_evidence(pid, stages, new, time.time() - t0)
    if new:
        best = new[0]
        path = os.path.join(VERIF, "evidence", "replay", f"{pid}.txt")
        with open(path, "w") as f:
            f.write(f"property: {pid}\n")
            for i, v in enumerate(new):
                f.write(f"\n=== {v['stage']}: {v['what']}\n{v['replay']}\n")
                if v.get("contract") and v.get("tape") is not None:
                    f.write(f"replay: cd {HARNESS} && cargo run {v.get('cargo', '')}--features {pid.lower()} -- replay {v['contract']} {v['tape']}\n")
        for v in new[:5]:
            print(f"  {v['stage']}: {v['what'][:300]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if best["confirmed"] else " no-failing-input-found"))
        return 1
    if "native" in errors or "kani" in errors:
        for s, e in errors.items():
            print(f"ERROR {s}: {e}", file=sys.stderr)
        return 2
    for s, e in errors.items():
        print(f"note: stage {s} gave no answer (see the evidence file)", file=sys.stderr)
    tot = sum(r.obligations for r in stages.values())
    dis = sum(r.discharged for r in stages.values())
    und = sum(len(r.undecided) for r in stages.values())
    print(f"{pid}: held; {dis}/{tot} obligations discharged, {und} undecided; {nat.info.get('evaluations', 0)} concrete evaluations; {time.time() - t0:.1f}s")
    return 0


def load_known(pid):
    """Lines 'known: property=<id> <text that identifies the failing contract and input>'."""
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        if l.startswith(f"known: property={pid} "):
            out.append(l.split(" ", 2)[2].strip())
    return out


def write_evidence(pid, stages, new, wall):
    meta = json.load(open(os.path.join(VERIF, "vlib", "meta.json")))
    m = meta.get(pid, {})
    k, n = stages["kani"], stages["native"]
    v = stages.get("verus")
    cov = {}
    oblig = dis = 0
    parts = {}
    if v is not None and not v.error:
        oblig += v.obligations
        dis += v.discharged
        parts["verus"] = dict(obligations=v.obligations, discharged=v.discharged, **v.info)
    elif v is not None:
        parts["verus"] = dict(error=v.error[-1500:])
    if not k.error:
        oblig += k.obligations
        dis += k.discharged
        raw = k.info.get("raw", {})
        parts["kani"] = dict(obligations=k.obligations, discharged=k.discharged, harnesses=k.info.get("harnesses"), solver_s=k.info.get("solver_s"),
                             wall_s=round(k.wall, 1), command=k.info.get("cmd"),
                             vacuity_covers_satisfied=sum(b["covered"] for h, b in raw.items() if "panics" not in h),
                             vacuity_covers=sum(b["covers"] for h, b in raw.items() if "panics" not in h),
                             contracts_proved=sorted(kani.plain(h) for h, b in raw.items() if b["ok"]),
                             slowest=sorted(((b["time"], h) for h, b in raw.items()), reverse=True)[:5])
    else:
        parts["kani"] = dict(error=k.error[-1500:])
    parts["native_bounded"] = dict(n.info, error=n.error) if n.error else n.info
    rel = stages.get("release")
    if rel is not None:
        parts["native_release_bounded"] = dict(rel.info, error=rel.error) if rel.error else rel.info
    if "derive_cases" in stages:
        parts["derive_cases_bounded"] = stages["derive_cases"].info
    cov["obligations"] = oblig
    cov["discharged"] = dis
    cov["checker_cmd"] = f"python3 /verif/check.py {pid}  (runs: {k.info.get('cmd', 'cargo kani')}" + (f"; {v.info.get('cmd')}" if v is not None and v.info.get("cmd") else "") + ")"
    cov["trusted_base"] = m.get("trusted", []) + meta["trusted"]
    cov["back_ends"] = parts
    cov["evaluations"] = n.info.get("evaluations", 0) + (rel.info.get("evaluations", 0) if rel is not None else 0)
    cov["distinct_nontrivial"] = n.info.get("distinct_nontrivial", 0)
    cov["rule"] = "concrete stage: each contract is run on edge-biased random inputs from VERIF_SEED; non-trivial = the precondition was met; distinct = distinct input tapes per contract"
    cov["samples"] = n.info.get("samples", [])
    cov["undecided"] = [list(u) for r in stages.values() for u in r.undecided]
    cov["bounded"] = m.get("bounded", [])
    only = n.info.get("bounded_contracts", {}).get("searched_only")
    if only:
        cov["bounded"] = cov["bounded"] + ["contracts run on sampled inputs only: " + ", ".join(only)]
    cov["explanation"] = m.get("explanation", "")
    ev = dict(property=pid, tier=TIER, seed=SEED, level=m.get("level", "proof"), coverage=cov,
              assumptions=m.get("assumptions", []) + meta["assumptions"], wall_s=round(wall, 1), violations=len(new))
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
