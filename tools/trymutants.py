#!/usr/bin/env python3
"""usage: trymutants.py [id ...]: applies each property-breaking edit of tools/mutants.py to a scratch copy of /repo and says
whether it builds, whether the repository's own tests notice it, and whether the check of its property reports it."""
import os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(here); repo = os.environ.get("GOVC_REPO", "/repo")
ns = {}; exec(open(here + "/mutants.py").read(), ns)
for id, prop, edits in ns["M"]:
    if sys.argv[1:] and not any(id == a or id.startswith(a) for a in sys.argv[1:]): continue
    t = tempfile.mkdtemp(prefix="/tmp/trymut.")
    try:
        subprocess.run(["cp", "-a", repo, t + "/repo"], check=True)
        note = ""
        for f, old, new in edits:
            s = open(f"{t}/repo/{f}").read()
            if s.count(old) != 1: note += f" EDIT-MATCHES-{s.count(old)} {f} {old[:40]!r}"
            open(f"{t}/repo/{f}", "w").write(s.replace(old, new, 1))
        r = subprocess.run("go vet $(go list ./... | grep -v paseto) 2>&1 | grep -A2 '^#' | head -3; go test $(go list ./sdk/... ./server/... ./oidc/... ./client/... | grep -v paseto) 2>&1 | grep -E '^(---|FAIL)' | head -3", shell=True, cwd=t + "/repo", capture_output=True, text=True)
        if r.stdout.strip(): note += " TESTS: " + r.stdout.strip().replace("\n", " | ")[:200]
        os.mkdir(t + "/verif")
        for d in ["contracts", "lemmas", "harness", "tools", "known_findings.txt"]:
            subprocess.run(["cp", "-a", f"{verif}/{d}", t + "/verif/"], stderr=subprocess.DEVNULL)
        os.mkdir(t + "/verif/evidence"); os.mkdir(t + "/verif/replay")
        r = subprocess.run([verif + "/bin/govc", "check", prop], env=dict(os.environ, GOVC_REPO=t + "/repo", GOVC_VERIF=t + "/verif"), capture_output=True, text=True)
        os.makedirs("/tmp/t/mut", exist_ok=True); open(f"/tmp/t/mut/{id}.out", "w").write(r.stdout + r.stderr)
        print(id, prop, "caught" if r.returncode == 1 and "VIOLATION" in r.stdout else f"MISSED rc={r.returncode}", note, flush=True)
    finally:
        shutil.rmtree(t)
