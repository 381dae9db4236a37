import os, subprocess, sys, time, json, shutil, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ESV_REPO", "/repo")
WORK = os.path.join(VERIF, ".work")
HARNESS = os.path.join(VERIF, "harness")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


def env(**kw):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    e.update(kw)
    return e


def run(cmd, timeout=None, cwd=None, **kw):
    """(returncode or None on timeout, stdout, stderr); the whole process group ends on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


class Result:
    """What one stage established."""
    def __init__(self, name):
        self.name = name
        self.obligations = 0
        self.discharged = 0
        self.undecided = []        # (what, why): neither proved nor refuted
        self.violations = []       # dicts: what, replay (text), confirmed (bool)
        self.info = {}
        self.error = None          # the stage could not run
        self.wall = 0.0


def harness_dir():
    """The harness crate; retargeted when a scratch copy of the repository is checked (development only)."""
    if REPO == "/repo":
        return HARNESS
    d = os.path.join(WORK, "harness-" + re.sub(r"\W", "_", REPO))
    os.makedirs(d, exist_ok=True)
    shutil.copytree(os.path.join(HARNESS, "src"), os.path.join(d, "src"), dirs_exist_ok=True)
    shutil.copy(os.path.join(HARNESS, "Cargo.lock"), d)
    t = open(os.path.join(HARNESS, "Cargo.toml")).read().replace("/repo/", REPO + "/")
    p = os.path.join(d, "Cargo.toml")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return d


def target(kind, pid):
    suffix = "" if REPO == "/repo" else "-" + re.sub(r"\W", "_", REPO)
    return os.path.join(WORK, f"{kind}-{pid}{suffix}")
