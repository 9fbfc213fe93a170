"""mkbug.py ID...  writes /verif/seeded/ID from the definitions in bugs_*.py,
checking that the demonstration passes without and fails with the change, that
the change compiles, and (with TESTS=1) that the existing tests pass."""
import glob, importlib.util, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = HERE + "/tools/bugs"
M = "/tmp/mkbug"
defs = {}
for f in sorted(glob.glob(B + "/*.py")):
    spec = importlib.util.spec_from_file_location("b", f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    defs.update(m.BUGS)


def sh(cmd, cwd=None, quiet=True):
    r = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


ids = sys.argv[1:] or sorted(defs)
for i in ids:
    b = defs[i]
    out = os.path.join(HERE, "seeded", i)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for src in b["files"]:
        shutil.copy(os.path.join(B, src), out)
    if "test" in b:
        open(out + "/demo_test.go.txt", "w").write(b["test"].lstrip())
    if "prog" in b:
        open(out + "/prog.go.txt", "w").write(b["prog"])
    if "lib" in b:
        open(out + "/lib.go.txt", "w").write(b["lib"])
    if "demo" in b:
        open(out + "/demo.sh", "w").write(b["demo"].lstrip())
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    sh("rm -rf %s; cp -a /repo %s && git -C %s checkout -q -- ." % (M, M, M))
    rc, o = sh("bash %s/demo.sh" % out, cwd=M)
    if rc:
        print(i, "demo fails on the unchanged tree\n", o[-3000:])
        continue
    for f, old, new in b["edits"]:
        p = os.path.join(M, f)
        s = open(p).read()
        if s.count(old) < 1:
            print(i, "text not found in", f, repr(old))
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
    rc, o = sh("git -C %s diff" % M)
    open(out + "/patch.diff", "w").write(o)
    rc, o = sh(". /opt/vp/env.sh; cd %s && test -z \"$(gofmt -l $(git diff --name-only | grep go$))\" && for f in $(git diff --name-only); do (cd $(dirname $f) && go vet -unreachable=false -unsafeptr=false .) || exit 1; done" % M)
    if rc:
        print(i, "does not build\n", o[-2000:])
    rc, o = sh("bash %s/demo.sh" % out, cwd=M)
    print(i, "ok" if rc else "DEMO PASSES WITH THE CHANGE", o.strip().splitlines()[-6:] if rc else "")
shutil.rmtree(M, ignore_errors=True)
