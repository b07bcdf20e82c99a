#!/usr/bin/env python3
"""mkseed.py SPEC.py... : makes and validates planted bugs in a scratch worktree. A SPEC defines
id, property, needs, breaks, edits=[(file, old, new)], files={name: text} (demo.sh among them)."""
import json, os, shutil, subprocess, sys
root = os.environ.get("VERIF_ROOT_DIR") or os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
env = dict(os.environ, GOFLAGS="-mod=mod", GOTOOLCHAIN="local", GOPROXY="off", HOME="/root")
def sh(cmd, cwd, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(root, "seeded", g["id"])
    wt = "/tmp/seedwt"
    sh("git -C /repo worktree remove --force %s" % wt, "/")
    r = sh("git -C /repo worktree add --detach %s HEAD" % wt, "/"); assert r.returncode == 0, r.stdout
    try:
        os.makedirs(d, exist_ok=True)
        for n, t in g["files"].items():
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True); open(os.path.join(d, n), "w").write(t)
        json.dump({"property": g["property"], "needs": g["needs"], "what_it_breaks": g["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d, wt)
        for f, old, new in g["edits"]:
            p = os.path.join(wt, f); s = open(p).read()
            assert s.count(old) == 1, (g["id"], f, old, s.count(old))
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", wt).stdout)
        rb = sh("go build $(go list -e -f '{{if or .GoFiles}}{{.ImportPath}}{{end}}' ./... | grep -vxE 'hbuf/pkg/format|hbuf/test/go/parser')", wt)
        rt = sh("go test -vet=off -count=1 . ./pkg/golang", wt)
        r1 = sh("bash %s/demo.sh" % d, wt)
        ok = r0.returncode == 0 and rb.returncode == 0 and rt.returncode == 0 and r1.returncode != 0
        print(g["id"], "OK" if ok else "BAD")
        if not ok:
            print(" unpatched demo:", r0.returncode, r0.stdout[-1500:], "\n build", rb.returncode, rb.stdout[-1500:], "\n tests", rt.returncode, rt.stdout[-800:], "\n patched demo", r1.returncode, r1.stdout[-800:])
    finally:
        sh("git -C /repo worktree remove --force %s" % wt, "/")
