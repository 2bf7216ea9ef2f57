#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from tools/seeds.py and verifies every planted bug in a scratch copy of /repo.

usage: seed.py [-k] [id...]     (-k: keep going over already verified ones: only (re)make those without meta.json)
"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(__file__))
from seeds import BUGS

OUT = "/verif/seeded"
HEAD = '''#!/bin/bash
# run with cwd /repo; exit 0 when the property's behaviour is right
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
fail() { echo "DEMO FAILED: $*"; exit 1; }
build() { go build -o "$d/gql" . || exit 3; }
'''

def sh(cmd, cwd, timeout=300):
    p = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def one(bug):
    d = os.path.join(OUT, bug["id"])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(HEAD + bug["demo"].strip("\n") + "\nexit 0\n")
    for name, text in bug.get("files", {}).items():
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
    tmp = tempfile.mkdtemp(prefix="seed")
    ok = False
    try:
        repo = tmp + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        rc, out = sh("bash %s/demo.sh" % d, repo)
        if rc != 0:
            return "demo fails on the unchanged tree: " + out
        for fn, old, new in bug["edits"]:
            p = os.path.join(repo, fn)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s matches %d times: %r" % (fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, out = sh("/opt/veriftools/go1.27.3/bin/gofmt -l pkg cmd utils", repo)
        rc, patch = sh("git diff", repo)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        # blame: the changed lines must be of the original
        rc, out = sh(". /opt/vp/env.sh && go build ./... && go vet ./... && go test ./... 2>&1 | tail -20; exit ${PIPESTATUS[0]}", repo)
        rc, out = sh("bash -c '. /opt/vp/env.sh && go build ./... && go test ./...'", repo)
        if rc != 0:
            return "build or tests fail: " + out[-2000:]
        rc, out = sh("bash %s/demo.sh" % d, repo)
        if rc == 0:
            return "demo passes with the patch"
        if rc == 3:
            return "demo broken: " + out
        rc, _ = sh("git -C /repo apply --check %s/patch.diff" % d, repo)
        if rc != 0:
            return "patch does not apply"
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        ok = True
        return "ok (" + out.strip().splitlines()[-1][:120] + ")"
    finally:
        shutil.rmtree(tmp)
        if not ok and os.path.exists(os.path.join(d, "meta.json")):
            os.remove(os.path.join(d, "meta.json"))

args = sys.argv[1:]
keep = "-k" in args
args = [a for a in args if a != "-k"]
bad = 0
for bug in BUGS:
    if args and bug["id"] not in args:
        continue
    if keep and os.path.exists(os.path.join(OUT, bug["id"], "meta.json")):
        continue
    r = one(bug)
    if not r.startswith("ok"):
        bad += 1
    print(bug["id"], r, flush=True)
sys.exit(bad != 0)
