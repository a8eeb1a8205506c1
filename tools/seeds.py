#!/usr/bin/env python3
"""Makes and verifies the planted bugs in /verif/seeded.

seeds.py make [ID...]     write seeded/<ID>/ from seedspecs*.py
seeds.py verify [ID...]   in a scratch copy: applies, builds, stable tests pass, demo fails; demo passes unpatched
seeds.py check [ID...]    runs the property's check (and CHECKS=C01,C02 others) against a copy with the bug
"""
import glob, importlib, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
SPECS = {}
for f in sorted(glob.glob(os.path.join(HERE, "seedspecs*.py"))):
    SPECS.update(importlib.import_module(os.path.basename(f)[:-3]).SPECS)

DEMO = """#!/bin/bash
# Exit 0: the property's demonstration passes. Nonzero: it fails. Run with cwd at the repository.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R" || exit 2
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
{
  echo '{"Replace":{'
  sep=""
  for f in "$D"/*_test.go; do
    echo "$sep\\"$R/%(pkg)s/$(basename "$f")\\":\\"$f\\""
    sep=","
  done
  echo '}}'
} > "$T/overlay.json"
go test -c -vet=off %(race)s-overlay "$T/overlay.json" -o "$T/demo.test" ./%(pkg)s || exit 3
cd "$T" || exit 2
./demo.test -test.v -test.timeout 250s > "$T/out" 2>&1
rc=$?
grep -E "_test.go|panic|FAIL|PASS" "$T/out" | tail -n 20
exit $rc
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), capture_output=True, text=True, timeout=timeout)


def apply_edits(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f"{f}: {s.count(old)} matches for {old!r}")
        open(p, "w").write(s.replace(old, new))


def make(i):
    s = SPECS[i]
    d = os.path.join(VERIF, "seeded", i)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp(prefix="seedmk")
    sh(["git", "clone", "-q", "/repo", t + "/r"])
    apply_edits(t + "/r", s["edits"])
    sh(f"gofmt -l internal", cwd=t + "/r")
    open(d + "/patch.diff", "w").write(sh(["git", "diff"], cwd=t + "/r").stdout)
    shutil.rmtree(t)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    pkg = s.get("pkg", "internal/demo")
    open(d + "/demo_test.go", "w").write(s["test"].strip() + "\n")
    if s.get("lib", True):
        shutil.copy(HERE + "/seedlib/demolib_test.go", d)
    for n, c in s.get("files", {}).items():
        open(os.path.join(d, n), "w").write(c)
    open(d + "/demo.sh", "w").write(s.get("demo", DEMO % {"pkg": pkg, "race": "-race " if s.get("race") else ""}))
    os.chmod(d + "/demo.sh", 0o755)


def copy_repo():
    t = tempfile.mkdtemp(prefix="seed")
    sh(["cp", "-a", "/repo", t + "/repo"])
    return t


def verify(i):
    d = os.path.join(VERIF, "seeded", i)
    t = copy_repo()
    try:
        r = t + "/repo"
        sd = t + "/laid"
        shutil.copytree(d, sd, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        t0 = time.time()
        a = sh(["bash", sd + "/demo.sh"], cwd=r)
        ta = time.time() - t0
        g = sh(["git", "apply", d + "/patch.diff"], cwd=r)
        if g.returncode:
            return f"{i}: does not apply {g.stderr}"
        b = sh(". /opt/vp/env.sh; go build ./... && GOOS=wasip1 GOARCH=wasm go build -o /dev/null ./cmd/fastly-monitor && go vet ./internal/ctsubmit ./internal/ctmonitor ./internal/sunlight && go test ./internal/rfc6979/", cwd=r)
        t0 = time.time()
        c = sh(["bash", sd + "/demo.sh"], cwd=r)
        tc = time.time() - t0
        ok = a.returncode == 0 and b.returncode == 0 and c.returncode != 0
        m = f"{i}: {'OK' if ok else 'BAD'} clean={a.returncode} ({ta:.0f}s) build={b.returncode} patched={c.returncode} ({tc:.0f}s)"
        msg = "\n".join(l for l in c.stdout.splitlines() if "demo_test.go" in l or "demolib" in l or "panic" in l)[:400]
        if not ok:
            m += f"\n--clean:\n{a.stdout[-600:] + a.stderr[-600:]}\n--build:\n{b.stdout[-300:]}{b.stderr[-800:]}\n--patched:\n{c.stdout[-600:] + c.stderr[-300:]}"
        return m + "\n   " + msg
    finally:
        shutil.rmtree(t, ignore_errors=True)


def check(i):
    d = os.path.join(VERIF, "seeded", i)
    t = copy_repo()
    out = []
    try:
        r = t + "/repo"
        g = sh(["git", "apply", d + "/patch.diff"], cwd=r)
        if g.returncode:
            return f"{i}: does not apply {g.stderr}"
        cs = os.environ.get("CHECKS", "").split(",") if os.environ.get("CHECKS") else [SPECS[i]["property"]]
        for c in cs:
            t0 = time.time()
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            x = sh(["bash", VERIF + "/check.sh", c], env=env, cwd=VERIF, timeout=1200)
            v = [l for l in x.stdout.splitlines() if "VIOLATION" in l]
            out.append(f"{i} {c}: {'caught' if x.returncode == 1 and v else 'MISSED rc=%d' % x.returncode} ({time.time()-t0:.0f}s)\n   " + "\n   ".join(x.stdout.splitlines()[-6:]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return "\n".join(out)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:] or sorted(SPECS)
    for i in ids:
        r = {"make": make, "verify": verify, "check": check}[cmd](i)
        if r:
            print(r, flush=True)
