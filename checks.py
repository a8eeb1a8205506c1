"""Which tests decide which property, and what MANIFEST.json says about them (tools/gen_manifest.py)."""

S3 = "object store and Consul are modelled by the harness (strongly consistent store, Consul locks with sessions)"
SAMPLED = "a finding is a real failing run of the real code; absence of findings is sampled evidence"


def ph(test, workers=8, quick=60, thorough=900, **kw):
    return dict(test=test, workers={"quick": workers, "thorough": workers}, budget={"quick": quick, "thorough": thorough}, **kw)


def fz(test, case="", seconds=300):
    """Coverage-guided, in the thorough tier only; one process that starts others."""
    return dict(test=test, case=case, fuzz=True, workers={"thorough": 1}, budget={"thorough": seconds})


CHECKS = {
    "C01": dict(phases=[ph("TestC01")], technique="model-based random histories with fault injection; every SCT judged against the store at the instant of the reply and re-judged later",
                assumptions=[S3]),
    "C02": dict(phases=[ph("TestC02")], technique="model-based random histories over virtual base trees up to 2^40; every published head and every overwrite judged against a reference Merkle tree",
                assumptions=[S3]),
    "C03": dict(phases=[ph("TestC03")], technique="random write latency and completion order; every visible tree head judged against the store at the instant it becomes visible",
                assumptions=[S3]),
    "C04": dict(phases=[ph("TestC04")], technique="random crash points over all storage operations, recovery and read-back against a reference tree",
                assumptions=[S3]),
    "C05": dict(phases=[ph("TestC05")], technique="metamorphic resubmission over random histories (chains, issuers, restarts) against a reference map of issued SCTs",
                assumptions=[S3]),
    "C06": dict(phases=[ph("TestC06"), ph("TestC06", workers=6, race=True), ph("TestC06Trickle")], technique="random concurrent submission bursts under random storage latency; index and entry bijection checked",
                assumptions=[S3]),
    "C07": dict(phases=[ph("TestC07"), ph("TestC07Routes")], technique="generated PKIs, chains and their structural corruptions against an independent policy oracle; hostile bodies and routes",
                assumptions=[S3]),
    "C08": dict(phases=[ph("TestC08")], technique="generated chains; logged bytes compared with an independently built RFC 6962 entry, and with what the monitor returns",
                assumptions=[S3]),
    "C09": dict(phases=[ph("TestC09")], technique="generated logs up to 2^40 with leftovers; random ranges against the reference entries", assumptions=[S3]),
    "C10": dict(phases=[ph("TestC10")], technique="generated logs up to 2^40; random leaves, sizes and near-miss hashes; proofs verified against reference roots", assumptions=[S3]),
    "C11": dict(phases=[ph("TestC11")], technique="generated logs up to 2^40; random pairs of sizes, proofs compared with the RFC 6962 definition", assumptions=[S3]),
    "C12": dict(phases=[ph("TestC12")], technique="generated logs up to 2^40; random pairs of index and size against reference entries and roots", assumptions=[S3]),
    "C13": dict(phases=[ph("TestC13")], technique="fuzzed requests and injected store failures; answers judged against the reference log, connections counted", assumptions=[S3]),
    "C14": dict(phases=[ph("TestC14"), fz("FuzzC14Leaf"), fz("FuzzCase", "TestC14")], technique="generated entry sequences round-tripped, and mutated encodings compared with a reference decoder"),
    "C15": dict(phases=[ph("TestC15"), fz("FuzzC15Ext"), fz("FuzzCase", "TestC15")], technique="generated coordinates, prefixes and extension lists against reference encodings; collisions searched over all cases"),
    "C16": dict(phases=[ph("TestC16"), ph("TestC16Log"), ph("TestC16Parse"), fz("FuzzC16Ckpt"), fz("FuzzC16Note"), fz("FuzzCase", "TestC16Parse")], technique="generated tree heads signed and verified independently, also those that logs with drawn names and keys publish over random histories; tampered notes must be rejected; parser compared with a reference parser"),
    "C17": dict(phases=[ph("TestC17"), ph("TestC17", workers=3, race=True), fz("FuzzCase", "TestC17")], technique="differential against a big-integer RFC 6979, with edge keys and digests, from one or many goroutines, also under the race detector"),
    "C18": dict(phases=[ph("TestC18"), ph("TestC18Bucket"), fz("FuzzC18Record", seconds=60), fz("FuzzCase", "TestC18Bucket")], technique="random histories with read failures; index and dedupe files judged after every write against the set of issued entries",
                assumptions=[S3]),
    "C19": dict(phases=[ph("TestC19"), ph("TestC19S3", workers=16)], technique="model-based histories of reads and writes against a map, with concurrent readers, full disks, killed writers and failing HTTP answers",
                assumptions=["the object store itself applies a PUT atomically"]),
    "C20": dict(phases=[ph("TestC20", workers=12), ph("TestC20Load"), ph("TestC20Wait")],
                technique="random takeover histories of real processes (interrupt, kill, session loss, lock loss, refused and restored stores) judged by who may touch the store when; generated wrong keys, configurations and damaged edges must be refused",
                assumptions=[S3, "a process cut off from Consul without any way to notice, or paused longer than its session, is outside the property (nothing fences the store)"]),
    "C21": dict(phases=[ph("TestC21")], technique="generated configurations, PEM bundles and keys; the objects setup stores compared with the inputs, then a log and a monitor started from them",
                assumptions=[S3]),
    "C22": dict(phases=[ph("TestC22", fastly=True)],
                technique="generated logs, requests, cache-control headers, cache states and backend failures on a simulated Compute host; answers judged against the reference log, backend requests counted",
                assumptions=["the edge host (config store, backends, cache, clock) is modelled by the harness below the SDK; every request is served by one process"]),
    "C23": dict(phases=[ph("TestC23")], technique="random histories; every timestamp bracketed by the harness's clock and ordered against its predecessors",
                assumptions=[S3, "the clock of the sandbox does not step back during a run"]),
    "C24": dict(phases=[ph("TestC24")], technique="random single-operation fault injection (class, kind, ordinal, status, effect) during a batch; replies, heads and leadership judged",
                assumptions=[S3]),
    "C25": dict(phases=[ph("TestC25", workers=1, programs=True), ph("TestC25Monitor", workers=8, programs=True)],
                technique="generated command lines, logs and client histories run through the real itko-submit and itko-monitor processes; every answer judged against the reference log, also by the certificate-transparency-go client",
                assumptions=[S3, "the Consul agent at 127.0.0.1:8500 is modelled by the harness"]),
}
