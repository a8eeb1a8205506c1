#!/usr/bin/env python3
"""battery.py FILE [NAME...]: runs a list of small code changes (MUTS in FILE: name -> (checks, edits)) against their checks.

Each change is applied to a copy of /repo, built, put through the stable tests, and then the named checks run
against the copy. A quick way of looking for what the checks miss; the planted bugs in seeded/ are separate.
"""
import importlib.util, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = importlib.util.spec_from_file_location("m", sys.argv[1])
m = importlib.util.module_from_spec(spec)
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
spec.loader.exec_module(m)


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env, shell=True, capture_output=True, text=True, timeout=timeout)


def one(name):
    checks, edits = m.MUTS[name]
    t = tempfile.mkdtemp(prefix="bat")
    out = []
    try:
        r = t + "/repo"
        sh(f"cp -a /repo {r}")
        for f, old, new in edits:
            s = open(f"{r}/{f}").read()
            if s.count(old) != 1:
                return f"{name}: {s.count(old)} matches of {old!r} in {f}"
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        b = sh(". /opt/vp/env.sh; go build ./... && GOOS=wasip1 GOARCH=wasm go build -o /dev/null ./cmd/fastly-monitor && go test ./internal/rfc6979/", cwd=r)
        if b.returncode:
            return f"{name}: DOES NOT BUILD {b.stdout[-500:]} {b.stderr[-500:]}"
        for c in checks.split(","):
            t0 = time.time()
            env = dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
            x = sh(f"bash {VERIF}/check.sh {c}", env=env, cwd=VERIF)
            ls = x.stdout.splitlines()
            v = [k for k, l in enumerate(ls) if l.startswith("VIOLATION")]
            why = ""
            if v:
                w = [l.strip() for l in ls[:v[0]] if l.strip()]
                why = " | ".join(l[:160] for l in ls if "violat" in l.lower() or "VIOLATION" in l)[:300]
            out.append(f"{name} {c}: {'caught' if x.returncode == 1 and v else 'MISSED rc=%d' % x.returncode} ({time.time()-t0:.0f}s) {why}")
            if not v:
                out.append("   " + "\n   ".join(l[:300] for l in (ls + x.stderr.splitlines())[-3:]))
    finally:
        shutil.rmtree(t, ignore_errors=True)
    return "\n".join(out)


names = sys.argv[2:] or list(m.MUTS)
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, names):
        print(r, flush=True)
