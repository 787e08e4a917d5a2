#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from tools/seeds/<id>.py and confirms each seed in a scratch copy of /repo.
usage: mkseeds.py [id ...]      (no check reads /verif/seeded)
A seed file defines: property, needs, breaks, edits=[(file, old, new)], pkg (directory of the demo test), test (Go test source)."""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
DEMO = '''#!/bin/sh
# exit 0: the property holds on this tree; otherwise it is broken
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
GOFLAGS=-mod=mod go test -count=1 -overlay "$t/overlay.json" -run 'TestDemo' ./%s
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(here + "/seeds") if f.endswith(".py"))
    scratch = tempfile.mkdtemp(prefix="mkseeds", dir="/tmp")
    try:
        sh("cp -a /repo/. %s/r" % scratch)
        r = scratch + "/r"
        sh("git checkout -q -- . && git clean -qfd", cwd=r)
        for id in ids:
            ns = {}
            exec(open("%s/seeds/%s.py" % (here, id)).read(), ns)
            d = "%s/seeded/%s" % (root, id)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            open(d + "/demo_test.go", "w").write(ns["test"])
            open(d + "/demo.sh", "w").write(DEMO % (ns["pkg"], ns["pkg"]))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            msgs = []
            p = sh("sh %s/demo.sh" % d, cwd=r)
            if p.returncode != 0: msgs.append("demo fails on clean tree:\n" + p.stdout[-1500:])
            for f, old, new in ns["edits"]:
                s = open(r + "/" + f).read()
                if s.count(old) != 1: msgs.append("edit of %s matches %d times" % (f, s.count(old)))
                open(r + "/" + f, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=r).stdout)
            p = sh("go build ./sdk/... ./server/... ./client/... ./oidc/... ./api/... 2>&1 | grep -v paseto", cwd=r)
            if ".go:" in p.stdout: msgs.append("build: " + p.stdout[-800:])
            dirs = sorted({os.path.dirname(f) for f, _, _ in ns["edits"]})
            p = sh("go test -count=1 $(go list ./sdk/... ./server/... | grep -v paseto)", cwd=r)
            fails = [l for l in p.stdout.splitlines() if re.match(r"\s*--- FAIL|FAIL", l)]
            if fails: msgs.append("existing tests fail: " + "; ".join(fails[:6]))
            p = sh("sh %s/demo.sh" % d, cwd=r)
            if p.returncode == 0: msgs.append("demo passes with the patch")
            elif ".go:" in p.stdout and "build failed" in p.stdout: msgs.append("demo does not build: " + p.stdout[-800:])
            sh("git checkout -q -- . && git clean -qfd", cwd=r)
            print(id, "ok" if not msgs else "PROBLEM\n  " + "\n  ".join(msgs), flush=True)
    finally:
        shutil.rmtree(scratch)
main()
