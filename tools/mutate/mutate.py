#!/usr/bin/env python3
"""mutate.py N SEED [FILE-SUBSTRING]: applies N random small syntactic changes (gen.go.txt) one at a time to copies of /repo, drops those that do not
build or that the existing tests notice, and runs the checks of the changed file until one notices it. Prints what none noticed.

A way of looking for blind spots; what it prints is to be read: many changes do not change behaviour that matters."""
import json, os, random, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ENV = ". /opt/vp/env.sh; "
CHECKS = {
    "internal/ctmonitor/logic.go": "C09 C10 C12 C13 C11 C21",
    "internal/ctmonitor/fetch.go": "C09 C10 C12 C13 C11",
    "internal/ctmonitor/storage.go": "C13 C19 C09",
    "internal/ctmonitor/fastly.go": "C22",
    "internal/ctmonitor/main.go": "C25",
    "internal/ctsubmit/logic.go": "C05 C07 C01 C08 C03 C23 C02 C04 C06 C24 C18 C20",
    "internal/ctsubmit/bucket.go": "C05 C18 C24 C03 C10 C09",
    "internal/ctsubmit/config.go": "C02 C21 C04 C07 C03 C20",
    "internal/ctsubmit/storage.go": "C19 C21 C24 C03",
    "internal/ctsubmit/main.go": "C25 C20",
    "internal/ctsetup/main.go": "C21",
    "internal/sunlight/": "C14 C15 C16 C08 C03 C10 C23",
    "cmd/itko": "C25",
    "cmd/fastly": "C22",
}
one25 = threading.Lock()


def sh(cmd, cwd=None, env=None, timeout=900):
    try:
        return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, "timeout", "")


def checks(f):
    for k, v in CHECKS.items():
        if f.startswith(k):
            return v.split()
    return []


def one(m):
    t = tempfile.mkdtemp(prefix="mut")
    what = f"{m['File']}:{m['Line']} {m['Func']} {m['Op']}: {m['Old']!r} -> {m['New']!r}"
    try:
        r = t + "/repo"
        sh(f"cp -a /repo {r}")
        s = open(f"{r}/{m['File']}", "rb").read()
        open(f"{r}/{m['File']}", "wb").write(s[:m["From"]] + m["New"].encode() + s[m["To"]:])
        wasm = " && GOOS=wasip1 GOARCH=wasm go build -o /dev/null ./cmd/fastly-monitor" if "ctmonitor" in m["File"] or "sunlight" in m["File"] else ""
        if sh(ENV + "go build ./..." + wasm, cwd=r).returncode:
            return None
        if sh(ENV + "go test -vet=off -count=1 -timeout 60s ./cmd/... ./internal/...", cwd=r).returncode:
            return "T " + what
        for c in checks(m["File"]):
            lock = one25 if c == "C25" else threading.Lock()
            with lock:
                x = sh(f"bash {VERIF}/check.sh {c}", env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"), cwd=VERIF)
            if "VIOLATION property=" in x.stdout:
                return f"K {c} {what}"
            if x.returncode:
                return f"? {c} rc={x.returncode} {what}"
        return "S " + what
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    g = tempfile.mkdtemp(prefix="mutgen")
    shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "gen.go.txt"), g + "/main.go")
    b = sh(ENV + f"cd {g} && go mod init mutgen && go build -o {g}/mutgen .")
    out = sh(f"{g}/mutgen $(git ls-files 'internal/*.go' 'cmd/*.go' | grep -v -e _test -e rfc6979)", cwd="/repo")
    shutil.rmtree(g)
    ms = [m for m in map(json.loads, out.stdout.splitlines()) if sub in m["File"]]
    random.Random(seed).shuffle(ms)
    res = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        for r in ex.map(one, ms[:n]):
            res[r[0] if r else "-"] = res.get(r[0] if r else "-", 0) + 1
            if r and r[0] in "S?" or os.environ.get("ALL"):
                print(r, flush=True)
    print("does not build %d, existing tests %d, noticed %d, not noticed %d, no answer %d" % tuple(res.get(k, 0) for k in "-TKS?"))


main()
