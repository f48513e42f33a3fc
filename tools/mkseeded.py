#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py (development only, no check uses it).

mkseeded.py [id ...]: in a scratch copy of /repo applies the edits, makes the patch, confirms that it
builds, passes the stable tests, that the demo passes without and fails with the change.
"""
import glob, json, os, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks, flags=""):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags)


HELP = open(os.path.join(ROOT, "tools", "seeds", "help.go")).read()

DEMO = """#!/bin/bash
# Runs the demonstration in a package that exists only in an overlay of the repository (cwd).
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
printf '{"Replace":{"%%s/zz_demo/help_test.go":"%%s/help_test.go","%%s/zz_demo/demo_test.go":"%%s/demo_test.go"}}' \\
  "$PWD" "$here" "$PWD" "$here" > "$t/overlay.json"
export DEMO_DIR=$t
go test -c -vet=off %s -overlay "$t/overlay.json" -o "$t/demo" ./zz_demo || exit 3
cd "$t" && timeout -k 5 200 ./demo -test.timeout 150s
"""


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(repo):
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    want = set(x.rsplit("/", 1)[1] for x in stable)
    r = sh(". /opt/vp/env.sh; go build ./... && go vet ./index/... >/dev/null 2>&1; go test -count=1 -timeout 300s -v ./... 2>&1", repo)
    ok = set(l.split()[2] for l in r.stdout.splitlines() if l.startswith("--- PASS"))
    return sorted(want - ok), r.stdout


def main():
    for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
        exec(compile(open(f).read(), f, "exec"), {"seed": seed})
    todo = sys.argv[1:] or list(SEEDS)
    scratch = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    repo = os.path.join(scratch, "repo")
    subprocess.check_call(["git", "clone", "-q", "/repo", repo])
    bad = 0
    try:
        for id in todo:
            s = SEEDS[id]
            sh("git checkout -q -- .", repo)
            for f, old, new in s["edits"]:
                p = os.path.join(repo, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(id, "edit does not match", t.count(old), repr(old)); break
                open(p, "w").write(t.replace(old, new))
            else:
                d = os.path.join(ROOT, "seeded", id)
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                fmt = sh("gofmt -l index distance sort random vector utils builder interfaces cmd", repo).stdout.split()
                diff = sh("git diff", repo).stdout
                open(d + "/patch.diff", "w").write(diff)
                open(d + "/help_test.go", "w").write(HELP)
                open(d + "/demo_test.go", "w").write("package demo\n" + s["demo"])
                open(d + "/demo.sh", "w").write(DEMO % s["flags"])
                os.chmod(d + "/demo.sh", 0o755)
                json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
                missing, out = tests(repo)
                with_ = sh(d + "/demo.sh", repo)
                sh("git checkout -q -- .", repo)
                without = sh(d + "/demo.sh", repo)
                ok = not missing and with_.returncode not in (0, 3) and without.returncode == 0 and "build failed" not in with_.stdout
                bad += not ok
                print(id, s["prop"], "OK" if ok else "BAD", "" if not missing else "tests fail: %s" % missing, "unformatted %s" % fmt if fmt else "")
                if not ok or os.environ.get("SHOW"):
                    print("--- with", with_.returncode); print(with_.stdout[-1500:])
                    print("--- without", without.returncode); print(without.stdout[-1500:])
                    if missing: print(out[-1500:])
                sys.stdout.flush()
    finally:
        shutil.rmtree(scratch)
    sys.exit(bad != 0)


main()
