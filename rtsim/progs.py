"""Which generated programs can be built, original and instrumented.

valid   leaves out programs that are not valid by themselves
single  after the pipeline failed: finds the programs it fails on
build   compiles the instrumented programs, writes main.go
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

cmd, W = sys.argv[1:3]
state = os.path.join(W, "bad.json")
S = json.load(open(state)) if os.path.exists(state) else {"invalid": [], "bad": {}}
progs = sorted(int(n) for n in os.listdir(W + "/orig/p"))


def save():
    json.dump(S, open(state, "w"))


def usable(bad=False):
    return [n for n in progs if n not in S["invalid"] and (bad or str(n) not in S["bad"])]


def sh(args, **kw):
    return subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def compile(d, mod):
    """Errors by program."""
    errs, skip = {}, set()
    while True:
        pkgs = sh(["go", "list", "-e", "./p/..."], cwd=os.path.join(W, d)).stdout.split()
        pkgs = [p for p in pkgs if int(p.split("/")[3]) not in skip]
        out = sh(["go", "build"] + pkgs, cwd=os.path.join(W, d)).stdout
        cur = None
        load = set()
        for l in out.splitlines():
            m = re.match(r"(# |package )verif\.local/%s/p/(\d+)/" % mod, l)
            if m:
                cur = int(m.group(2))
                if m.group(1) == "package ":
                    load.add(cur)
                continue
            m2 = re.match(r"\s*\.?/?p/(\d+)/", l) or re.match(r"\s*" + re.escape(W) + r"/%s/p/(\d+)/" % d, l)
            n = int(m2.group(1)) if m2 else cur
            if n is None:
                if l.startswith("go: "):
                    continue
                sys.exit("progs: " + out[:3000])
            errs.setdefault(n, re.sub(r"^\s*\S*/p/\d+/", "", l).strip())
        # after these nothing has been compiled
        if not load - skip:
            return errs
        skip |= load


if cmd == "valid":
    gm = W + "/orig/go.mod"
    text = open(gm).read()
    open(gm, "w").write(text + "\nrequire verif.local/pt v0.0.0\n\nreplace verif.local/pt => ../ptv\n")
    # the helpers without the simulator, which does not exist yet
    os.makedirs(W + "/ptv/psys", exist_ok=True)
    shutil.copy(W + "/pt/pt.go", W + "/ptv/pt.go")
    open(W + "/ptv/go.mod", "w").write("module verif.local/pt\n\ngo 1.27\n")
    open(W + "/ptv/psys/sys.go", "w").write("""package psys

type lane struct{ Log []string }

func Lane() *lane { return nil }
func Reset()      {}
func Quiesce()    {}
""")
    errs = compile("orig", "orig")
    for n, e in errs.items():
        print("progs: invalid program %d: %s" % (n, e))
        S["invalid"].append(n)
        for d in "app", "orig":
            shutil.rmtree("%s/%s/p/%d" % (W, d, n))
    open(gm, "w").write(text)
    shutil.rmtree(W + "/ptv")
    save()
    if len(S["invalid"]) > len(progs) // 3:
        sys.exit("progs: too many invalid programs")
elif cmd == "imports":
    print('package main\n\nimport (\n\t"verif.local/pdrv"')
    for n in usable():
        if os.path.isdir("%s/app/p/%d" % (W, n)):
            print('\t_ "verif.local/app/p/%d/a"' % n)
    print(")\n\nfunc main() {\n\tpdrv.Main()\n}")
elif cmd == "single":
    def one(n):
        d = "%s/one-%d" % (W, n)
        os.makedirs(d)
        for x in ("runtime", "simrt", "orig"):
            shutil.copytree("%s/%s.0" % (W, x), d + "/" + x)
        for x in ("pt", "pdrv", "simk"):
            os.symlink(W + "/" + x, d + "/" + x)
        shutil.copytree(W + "/app.0", d + "/app", ignore=lambda p, l: [x for x in l if os.path.basename(p) == "p" and x != str(n)])
        open(d + "/app/main.go", "w").write('package main\n\nimport (\n\t"verif.local/pdrv"\n\t_ "verif.local/app/p/%d/a"\n)\n\nfunc main() {\n\tpdrv.Main()\n}\n' % n)
        r = sh([W + "/gen"], env=dict(os.environ, VERIF_GEN_W=d))
        shutil.rmtree(d)
        return r.returncode, r.stdout
    ns = usable()
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, ns))
    for n, (rc, out) in zip(ns, res):
        if rc:
            l = [x for x in out.splitlines() if x.startswith(("verif gen:", "panic:", "fatal"))]
            S["bad"][str(n)] = "the instrumentation fails: " + (l or out.splitlines() or ["?"])[0].replace(W, "")
    if len(S["bad"]) == len(ns) and len(set(S["bad"].values())) == 1 and "panic" not in str(S["bad"]):
        pass
    save()
    for d in "app.0", "orig.0":
        for n in S["bad"]:
            shutil.rmtree("%s/%s/p/%s" % (W, d, n), ignore_errors=True)
elif cmd == "build":
    for n, e in compile("app", "app").items():
        S["bad"][str(n)] = e
        print("progs: program %d: %s" % (n, e))
    save()
    good = usable()
    s = 'package main\n\nimport (\n\t"verif.local/pdrv"\n\t"verif.local/pt"\n'
    for n in good:
        for d in "app", "orig":
            for p in "a", "b":
                s += '\t%s%s%d "verif.local/%s/p/%d/%s"\n' % (d, p, n, d, n, p)
    s += ")\n\nvar _ pt.Var\n\nfunc main() {\n"
    for n in good:
        c = lambda d: "&pdrv.Copy{Vars: append(append([]pt.Var{}, %sb%d.PtVars...), %sa%d.PtVars...), Entries: %sa%d.PtEntries, Chunks: %sa%d.PtChunks}" % (d, n, d, n, d, n, d, n)
        s += "\tpdrv.Register(%d, %s, %s)\n" % (n, c("orig"), c("app"))
    for n, e in S["bad"].items():
        s += "\tpdrv.Bad(%s, %s)\n" % (n, json.dumps(e))
    s += "\tpdrv.Main()\n}\n"
    open(W + "/app/main.go", "w").write(s)
