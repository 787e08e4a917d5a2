#!/usr/bin/env python3
"""usage: tryrefactors.py [id ...]: applies each behaviour-preserving edit of tools/refactors/ to a scratch copy of /repo,
confirms that it builds and passes the package's tests, and says which of the named checks do not stay quiet."""
import glob, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
repo = os.environ.get("GOVC_REPO", "/repo")
edits = {}
for f in sorted(glob.glob(here + "/refactors/*.py")):
    ns = {}
    exec(open(f).read(), ns)
    for r in ns["R"]:
        edits[r[0]] = r[1:]
ids = sys.argv[1:] or list(edits)
ids = [i for i in edits if any(i == a or i.startswith(a) for a in ids)] if sys.argv[1:] else ids
bad = 0
for i in ids:
    checks, changes = edits[i]
    t = tempfile.mkdtemp(prefix="/tmp/tryref.")
    try:
        subprocess.run(["cp", "-a", repo, t + "/repo"], check=True)
        pkgs = set()
        for f, old, new in changes:
            p = f"{t}/repo/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                print(i, "EDIT DOES NOT APPLY", f, s.count(old), old[:60]); bad += 1; break
            open(p, "w").write(s.replace(old, new))
            pkgs.add("./" + os.path.dirname(f))
        else:
            r = subprocess.run(["go", "test"] + sorted(pkgs), cwd=t + "/repo", capture_output=True, text=True)
            if r.returncode:
                print(i, "DOES NOT BUILD OR PASS", (r.stdout + r.stderr)[-600:]); bad += 1; continue
            os.mkdir(t + "/verif")
            for d in ["contracts", "lemmas", "harness", "tools", "known_findings.txt"]:
                subprocess.run(["cp", "-a", f"{verif}/{d}", t + "/verif/"], stderr=subprocess.DEVNULL)
            os.mkdir(t + "/verif/evidence"); os.mkdir(t + "/verif/replay")
            for c in checks:
                env = dict(os.environ, GOVC_REPO=t + "/repo", GOVC_VERIF=t + "/verif")
                r = subprocess.run([verif + "/bin/govc", "check", c], env=env, capture_output=True, text=True)
                os.makedirs("/tmp/t/ref", exist_ok=True)
                open(f"/tmp/t/ref/{i}.{c}.out", "w").write(r.stdout + r.stderr)
                if os.path.exists(f"{t}/verif/replay/{c}.json"): shutil.copy(f"{t}/verif/replay/{c}.json", f"/tmp/t/ref/{i}.{c}.json")
                if r.returncode or "VIOLATION" in r.stdout:
                    bad += 1
                print(i, c, "quiet" if r.returncode == 0 else f"ALARM rc={r.returncode} " + (r.stdout + r.stderr).strip().splitlines()[-1][:200], flush=True)
    finally:
        shutil.rmtree(t)
sys.exit(bad > 0)
