"""Builds the simulators a property needs from /repo's working tree in a
scratch directory and hands them to orch, which explores seeds."""
import atexit, json, os, shutil, signal, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from checks import CHECKS

W = tempfile.mkdtemp(prefix="verif-")
kids = []


def cleanup():
    for k in kids:
        if k.poll() is None:
            try:
                os.killpg(k.pid, signal.SIGKILL)
            except OSError:
                pass
    shutil.rmtree(W, ignore_errors=True)


atexit.register(cleanup)
for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
    signal.signal(s, lambda *a: sys.exit(2))


def sh(cmd, **kw):
    k = subprocess.Popen(cmd, start_new_session=True, **kw)
    kids.append(k)
    out, _ = k.communicate()
    return k.returncode, out


def must(cmd, **kw):
    rc, out = sh(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if rc:
        print(out[-8000:])
        print("check: %s failed" % " ".join(cmd))
        sys.exit(2)
    return out


def runtime_differs():
    """Whether the runtime embedded in the tool is not a copy of /repo/runtime."""
    def files(d):
        m = {}
        for p, ds, fs in os.walk(d):
            if p == d:
                ds[:] = [x for x in ds if x != "test"]
            for f in fs:
                if f.endswith(".go") and not f.endswith("_test.go"):
                    q = os.path.join(p, f)
                    m[os.path.relpath(q, d)] = open(q, "rb").read()
        return m
    return files(REPO + "/runtime") != files(REPO + "/cmd/xgo/asset/runtime_gen")


built = {}


def build(variant):
    if variant not in built:
        d = os.path.join(W, variant)
        kind, _, arg = variant.partition("-")
        must(["bash", os.path.join(HERE, kind, "build.sh"), d] + [a for a in arg.split("-") if a])
        built[variant] = os.path.join(d, "sim")
    return built[variant]


def orch():
    out = os.path.join(W, "orch")
    must(["go", "build", "-o", out, "."], cwd=os.path.join(HERE, "orch"))
    return out


def main():
    if len(sys.argv) < 2:
        sys.exit("usage: check.sh ID [quick|thorough] | replay FILE | setup")
    if sys.argv[1] == "setup":
        orch()
        for v in sorted({s["Variant"] for c in CHECKS.values() for s in c["stages"]}):
            build(v)
            shutil.rmtree(os.path.join(W, v))
        print("ok")
        return
    if sys.argv[1] == "replay":
        f = json.load(open(sys.argv[2]))
        o = orch()
        b = build(f["Variant"])
        rc, _ = sh([o, "replay", b, os.path.abspath(sys.argv[2])], cwd=W)
        sys.exit(rc)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough") or prop not in CHECKS:
        sys.exit(2)
    c = CHECKS[prop]
    stages = []
    differs = None
    for s in c["stages"] + (c.get("more", []) if tier == "thorough" else []):
        stages.append(dict(s))
        if s["Variant"].startswith("rtsim"):
            if differs is None:
                differs = runtime_differs()
            if differs:
                g = dict(s)
                g["Variant"] += "-gen" if "-" in g["Variant"] else "--gen"
                stages.append(g)
    o = orch()
    for s in stages:
        s["Bin"] = build(s["Variant"])
    secs = c.get("secs", 30) if tier == "quick" else c.get("thorough", 1200)
    secs = float(os.environ.get("VERIF_SECS", secs))
    cfg = {"Stages": stages, "Prop": prop, "Tier": tier, "Verif": HERE, "Dir": W,
           "Seed": int(os.environ.get("VERIF_SEED", "1") or 1), "Secs": secs, "Level": "exploration",
           "Meta": c["meta"]}
    p = os.path.join(W, "config.json")
    json.dump(cfg, open(p, "w"))
    rc, _ = sh([o, "check", p], cwd=W)
    sys.exit(rc if rc in (0, 1) else 2)


main()
