#!/usr/bin/env python3
"""Decides one property: check.py <ID> [--replay FILE].

Builds the harness together with /repo's current tree, runs it in several workers, writes evidence/<ID>.json.
Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: no answer.
"""
import base64, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
RAPID_SUM = """pgregory.net/rapid v1.3.0 h1:vBvO0VSqti75J1jjYqpgPNBLKMd1+gxa9fYo7vk/Exc=
pgregory.net/rapid v1.3.0/go.mod h1:dPlE4OBBxgXPqkP79flB6sJL1dx5azpI7HQ9MY9Z7uk=
"""
PROGRAMS = {}
UNDER_TEST = re.compile(r"itko\.dev/internal/(ctsubmit|ctmonitor|ctsetup|sunlight|rfc6979)[./(]")

sys.path.insert(0, VERIF)
from checks import CHECKS


def infra(msg):
    print("check could not be carried out: " + msg, flush=True)
    sys.exit(2)


def go_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("VH_") or k.startswith("AWS_") or k.startswith("CONSUL_") or k.lower().endswith("_proxy"):
            del env[k]
    env["GOFLAGS"] = "-mod=mod"
    env["GOPROXY"] = "off"
    env["GOTOOLCHAIN"] = "local"
    env["GONOSUMDB"] = "*"
    env["GONOSUMCHECK"] = "1"
    env["GOWORK"] = "off"
    env["AWS_EC2_METADATA_DISABLED"] = "true"
    env["AWS_CONFIG_FILE"] = env["AWS_SHARED_CREDENTIALS_FILE"] = os.devnull
    env.setdefault("HOME", "/root")
    p = "/opt/veriftools/go1.23.12/bin"
    if os.path.isdir(p):
        env["PATH"] = p + ":" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    return env


def build(scratch, race=False, fastly=False, fuzz=False):
    """Compiles the harness with /repo's tree; returns the test binary."""
    env = go_env()
    d = os.path.join(scratch, "build" + ("-race" if race else "") + ("-fastly" if fastly else "") + ("-fuzz" if fuzz else ""))
    os.makedirs(d)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), d)
    with open(os.path.join(d, "go.sum"), "a") as f:
        f.write("\n" + RAPID_SUM)
    files = glob.glob(os.path.join(VERIF, "harness", "*_test.go"))
    rep = {os.path.join(REPO, "internal/verifh", os.path.basename(f)): f for f in files}
    edits = ["-require=pgregory.net/rapid@v1.3.0"]
    if fastly:
        for f in glob.glob(os.path.join(VERIF, "harness", "edge", "*_test.go")):
            rep[os.path.join(REPO, "internal/verifh", os.path.basename(f))] = f
        edits += fastly_sdk(d, env)
    ov = os.path.join(d, "overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    modfile = os.path.join(d, "go.mod")
    out = os.path.join(d, "h.test")
    r = subprocess.run(["go", "mod", "edit"] + edits + [modfile], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        infra("go mod edit: " + r.stderr)
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-modfile", modfile, "-o", out]
    if race:
        cmd.append("-race")
    if fuzz:
        cmd.append("-fuzz=Fuzz")  # coverage instrumentation
    cmd.append("./internal/verifh")
    for attempt in (1, 2):
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return out
    infra("build failed:\n" + r.stderr[-6000:])


def build_programs(scratch):
    """Compiles the programs of cmd/ from /repo's tree; returns their directory."""
    env = go_env()
    d = os.path.join(scratch, "build-cmd")
    out = os.path.join(d, "bin")
    os.makedirs(out)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), d)
    cmd = ["go", "build", "-buildvcs=false", "-modfile", os.path.join(d, "go.mod"), "-o", out + "/", "./cmd/itko-submit", "./cmd/itko-monitor"]
    for attempt in (1, 2):
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode == 0:
            return out
    infra("build failed:\n" + r.stderr[-6000:])


def fastly_sdk(d, env):
    """A scratch copy of the edge SDK whose host calls are answered by the harness."""
    mod = os.path.join(env["GOMODCACHE"], "github.com/fastly/compute-sdk-go@v1.3.3")
    for line in open(os.path.join(d, "go.mod")):
        m = re.search(r"github.com/fastly/compute-sdk-go\s+(v\S+)", line)
        if m:
            mod = os.path.join(env["GOMODCACHE"], "github.com/fastly/compute-sdk-go@" + m.group(1))
    dst = os.path.join(d, "sdk")
    shutil.copytree(mod, dst)
    subprocess.run(["chmod", "-R", "u+w", dst], check=True)
    host = os.path.join(VERIF, "harness", "edge", "sdk")
    for f in glob.glob(os.path.join(host, "**", "*.go.txt"), recursive=True):
        rel = os.path.relpath(f, host)[: -len(".txt")]
        p = os.path.join(dst, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        shutil.copy(f, p)
    return ["-replace=github.com/fastly/compute-sdk-go=" + dst]


def seed_for(seed, phase, worker):
    h = hashlib.sha256(f"{seed}/{phase}/{worker}".encode()).digest()
    return int.from_bytes(h[:6], "big") | 1


class Worker:
    def __init__(self, scratch, binary, phase_ix, phase, worker, nworkers, seed, tier, budget, hard, replay=None):
        self.dir = os.path.join(scratch, f"p{phase_ix}w{worker}")
        os.makedirs(self.dir)
        self.phase_ix, self.worker, self.phase = phase_ix, worker, phase
        self.out = os.path.join(self.dir, "result.json")
        self.journal = os.path.join(self.dir, "journal")
        self.seed = seed_for(seed, phase["test"] + str(phase.get("race", "")), worker)
        env = go_env()
        env.update(VH_OUT=self.out, VH_TIER=tier, VH_SCRATCH=os.path.join(self.dir, "s"), VH_JOURNAL=self.journal, VH_WORKER=str(worker),
                   VH_WORKERS=str(nworkers), VH_BUDGET=str(budget), VH_SCALE=str(phase.get("scale", 100)), VH_LOGFILE=os.path.join(self.dir, "log"))
        env["TMPDIR"] = self.dir
        if phase.get("race"):
            env["VH_RACE"] = "1"
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        if phase.get("fastly"):
            env["VH_FASTLY"] = "1"
        if phase.get("programs"):
            env["VH_BINDIR"] = PROGRAMS["dir"]
        if phase.get("case"):
            env["VH_FUZZ"] = phase["case"]
        args = [binary, "-test.run", "^" + phase["test"] + "$", "-test.timeout", "0", "-rapid.seed", str(self.seed),
                "-rapid.shrinktime", ("15s" if tier == "quick" else "60s")]
        if phase.get("fuzz") and replay:
            d = os.path.join(self.dir, "testdata", "fuzz", phase["test"])
            os.makedirs(d)
            shutil.copy(replay, os.path.join(d, "replay"))
            args = [binary, "-test.run", "^" + phase["test"] + "$/^replay$"]
        elif phase.get("fuzz"):
            args = [binary, "-test.run", "^$", "-test.fuzz", "^" + phase["test"] + "$", "-test.fuzzcachedir", os.path.join(self.dir, "cache"),
                    "-test.fuzztime", f"{budget}s", "-test.fuzzminimizetime", "30s", "-test.parallel", "8"]
        elif replay:
            env["VH_REPLAY"] = "1"
            args += ["-rapid.failfile", replay]
        self.stderr = os.path.join(self.dir, "stderr")
        self.t0 = time.time()
        self.hard = self.t0 + hard
        self.p = subprocess.Popen(args, cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=open(os.path.join(self.dir, "stdout"), "w"),
                                  stderr=open(self.stderr, "w"), start_new_session=True)

    def result(self):
        if self.phase.get("fuzz"):
            return self.fuzz_result()
        try:
            return json.load(open(self.out))
        except Exception:
            return None

    def fuzz_result(self):
        """What the fuzzer's processes report, once it has ended."""
        if self.p.poll() is None:
            return None
        res = {"evaluations": 0, "digests": [], "labels": {}, "samples": [], "rule": "", "infra": [], "done": self.p.returncode == 0}
        found = False
        for f in glob.glob(self.out + ".*"):
            try:
                r = json.load(open(f))
            except Exception:
                continue
            found = True
            for k in ("evaluations",):
                res[k] += r[k]
            for k in ("digests", "samples", "infra"):
                res[k] += r.get(k) or []
            for k, v in (r.get("labels") or {}).items():
                res["labels"][k] = res["labels"].get(k, 0) + v
            res["rule"] = "coverage-guided: " + r["rule"]
            if r.get("violation") and self.p.returncode != 0:
                res["violation"] = r["violation"]
        m = re.findall(r"new interesting: (\d+)", self.text(os.path.join(self.dir, "stdout")) + self.text(self.stderr))
        if m:
            res["labels"][self.phase["test"] + self.phase.get("case", "") + ": inputs kept for new coverage"] = int(m[-1])
        return res if found else None

    def text(self, name, n=20000):
        try:
            with open(name, errors="replace") as f:
                s = f.read()
            return s if len(s) <= n else s[: n // 2] + "\n[...]\n" + s[-n // 2:]
        except Exception:
            return ""

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        try:
            self.p.wait(10)
        except Exception:
            pass

    def failfile(self):
        fs = glob.glob(os.path.join(self.dir, "testdata", "rapid", "**", "*.fail"), recursive=True) + glob.glob(os.path.join(self.dir, "testdata", "fuzz", "*", "*"))
        return max(fs, key=os.path.getmtime) if fs else None


def abnormal(w, rc):
    """Classifies a worker that ended without a result. Returns a violation message or None (harness / sandbox problem)."""
    err = w.text(w.stderr) + w.text(os.path.join(w.dir, "stdout"), 4000)
    journal = w.text(w.journal, 8000)
    if "DATA RACE" in err and UNDER_TEST.search(err):
        return "the race detector reports a data race in the code under test:\n" + err[:6000], journal
    m = re.search(r"^(panic: |fatal error: )", err, re.M)
    if m:
        tail = err[m.start():]
        # only the first goroutine trace is the culprit
        first = tail.split("\n\n")[1] if tail.count("\n\n") >= 1 else tail
        if "out of memory" in tail[:300] or "cannot allocate" in tail[:300]:
            return None, tail[:3000]
        if UNDER_TEST.search(first) or (tail.startswith("fatal error: ") and UNDER_TEST.search(tail)):
            return "the process under test died: " + tail[:6000], journal
        return None, tail[:3000]
    log = w.text(os.path.join(w.dir, "log"), 3000)
    if rc == 1 and "EXPECT-ALIVE" in journal and "FAULTS" not in journal:
        return "the code under test ended the process (exit status 1) in a case without any injected failure; log:\n" + log[-1500:], journal
    return None, f"worker ended with status {rc}\n{err[-3000:]}\n{log[-1000:]}"


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        infra("usage: check.py <ID> [--replay FILE]; ids: " + " ".join(sorted(CHECKS)))
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = int.from_bytes(hashlib.sha256(os.environ["VERIF_SEED"].encode()).digest()[:4], "big")
    replay = None
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        replay = json.load(open(sys.argv[3]))
        tier = replay.get("tier", tier)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-" + pid + "-")
    workers = []
    try:
        code = run(pid, spec, tier, seed, replay, scratch, workers, t0)
    finally:
        for w in workers:
            if w.p.poll() is None:
                w.kill()
            else:
                try:
                    os.killpg(w.p.pid, signal.SIGKILL)
                except Exception:
                    pass
        if os.environ.get("VERIF_KEEP"):
            print("kept " + scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def run(pid, spec, tier, seed, replay, scratch, workers, t0):
    bins = {}
    for ph in spec["phases"]:
        if ph.get("fuzz") and tier == "quick":
            continue
        key = (bool(ph.get("race")), bool(ph.get("fastly")), bool(ph.get("fuzz")))
        if key not in bins:
            bins[key] = build(scratch, *key)
    if any(ph.get("programs") for ph in spec["phases"]):
        PROGRAMS["dir"] = build_programs(scratch)
    tbuild = time.time() - t0
    print(f"{pid}: built in {tbuild:.1f} s; tier {tier}, seed {seed}", flush=True)
    results, messages = [], []
    violation = None
    for ix, ph in enumerate(spec["phases"]):
        if ph.get("fuzz") and tier == "quick":
            continue
        binary = bins[(bool(ph.get("race")), bool(ph.get("fastly")), bool(ph.get("fuzz")))]
        n = ph.get("workers", {}).get(tier, 8)
        budget = ph.get("budget", {}).get(tier, 120 if tier == "quick" else 1500)
        hard = budget + (420 if tier == "quick" else 1800)
        if replay:
            if replay["phase"] != ix:
                continue
            ff = os.path.join(scratch, "replay.fail")
            for k in range(replay.get("tries", 5)):
                if replay.get("failfile"):
                    with open(ff, "wb") as f:
                        f.write(base64.b64decode(replay["failfile"]))
                w = Worker(os.path.join(scratch, f"r{k}"), binary, ix, ph, replay["worker"], n, replay["seed"], tier, budget, hard,
                           ff if replay.get("failfile") else None) if os.makedirs(os.path.join(scratch, f"r{k}")) is None else None
                workers.append(w)
                v = wait([w], results, messages)
                if v:
                    violation = v
                    break
            continue
        batch = [Worker(scratch, binary, ix, ph, k, n, seed, tier, budget, hard) for k in range(n)]
        workers += batch
        violation = wait(batch, results, messages)
        if violation:
            break
    if violation is None and messages and not replay:
        infra("; ".join(messages)[:6000])
    if replay:
        if violation is None:
            if messages:
                infra("; ".join(messages)[:6000])
            print("the replayed case passes")
            return 0
        print(violation["msg"][:8000])
        print(f"VIOLATION property={pid} replay={sys.argv[3]}")
        return 1
    ev = evidence(pid, spec, tier, seed, results, violation, time.time() - t0, tbuild)
    if violation is None:
        if ev["coverage"]["evaluations"] == 0:
            infra("no case was generated")
        known(pid)
        print(f"{pid}: {ev['coverage']['evaluations']} cases, {ev['coverage']['distinct_nontrivial']} distinct non-trivial, no violation, {ev['wall_s']} s")
        return 0
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{tier}-{seed}.json")
    json.dump(violation["replay"] | {"property": pid, "tier": tier, "seed": seed, "message": violation["msg"], "case": violation["case"]}, open(path, "w"), indent=1)
    print(violation["msg"][:8000])
    print("case:\n" + violation["case"][:8000])
    print(f"VIOLATION property={pid} replay={path}", flush=True)
    return 1


def wait(batch, results, messages):
    """Waits for the workers; returns the first violation."""
    live = list(batch)
    violation = None
    grace = None
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w.p.poll()
            if rc is None:
                if grace is None:
                    r = w.result()
                    if r and r.get("violation"):
                        grace = time.time() + 75  # let it shrink
                        for o in live:
                            if o is not w:
                                o.kill()
                if time.time() > w.hard:
                    try:
                        os.kill(w.p.pid, signal.SIGQUIT)
                        time.sleep(1)
                    except Exception:
                        pass
                    r = w.result()
                    w.kill()
                    live.remove(w)
                    if r and r.get("violation"):
                        violation = violation or as_violation(w, r)
                    else:
                        messages.append(f"worker {w.worker} did not end in time\n" + w.text(w.journal, 3000) + w.text(w.stderr, 30000))
                elif grace and time.time() > grace:
                    w.kill()
                continue
            live.remove(w)
            r = w.result()
            if r:
                results.append(r)
                if r.get("infra"):
                    messages.append("; ".join(r["infra"])[:3000])
                if r.get("violation"):
                    violation = violation or as_violation(w, r)
                    for o in live:
                        o.kill()
                    continue
            if violation or grace:
                continue
            if not r or not r.get("done") or (rc == 66):
                if rc is not None and rc < 0:
                    messages.append(f"worker {w.worker} was ended by signal {-rc}")
                    continue
                msg, info = abnormal(w, rc)
                if msg:
                    violation = {"msg": msg, "case": info, "replay": {"phase": w.phase_ix, "worker": w.worker, "tries": 2}}
                    for o in live:
                        o.kill()
                else:
                    messages.append(info)
            elif rc != 0 and not r.get("infra"):
                messages.append(f"worker {w.worker} failed without a recorded violation (status {rc}):\n" + w.text(w.stderr, 3000) + w.text(os.path.join(w.dir, "stdout"), 3000))
    return violation


def as_violation(w, r):
    ff = w.failfile()
    v = {"msg": r["violation"]["msg"], "case": r["violation"]["case"], "replay": {"phase": w.phase_ix, "worker": w.worker}}
    if ff:
        v["replay"]["failfile"] = base64.b64encode(open(ff, "rb").read()).decode()
    return v


def evidence(pid, spec, tier, seed, results, violation, wall, tbuild):
    digests, labels, samples = set(), {}, []
    evals = skipped = 0
    rules = []
    for r in results:
        evals += r["evaluations"]
        skipped += r.get("skipped_budget", 0)
        digests.update(r.get("digests") or [])
        for k, v in (r.get("labels") or {}).items():
            labels[k] = labels.get(k, 0) + v
        for s in (r.get("samples") or [])[:1]:
            if len(samples) < 5:
                samples.append(s[:1500])
        if r["rule"] not in rules:
            rules.append(r["rule"])
    cov = {"evaluations": evals, "distinct_nontrivial": len(digests), "rule": " | ".join(rules), "samples": samples,
           "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:120]), "cases_not_run_for_time": skipped, "workers": len(results), "build_s": round(tbuild, 1)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 1), "violations": 1 if violation else 0}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, pid + f".json.tmp{os.getpid()}")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(d, pid + ".json"))
    return ev


def known(pid):
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"KNOWN-FINDING: property=(\S+)", line)
            if m and m.group(1) == pid:
                print(line.rstrip())
    except FileNotFoundError:
        pass


if __name__ == "__main__":
    sys.path.insert(0, VERIF)
    main()
