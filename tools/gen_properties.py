#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
        "mechanism": [dict(name=n, where=w) for n, w in mech],
        "observe_at": list(observe), "hook_needed": hook}})
L="internal/ctsubmit/logic.go"; C="internal/ctsubmit/config.go"; B="internal/ctsubmit/bucket.go"; ST="internal/ctsubmit/storage.go"
M="internal/ctmonitor/logic.go"; F="internal/ctmonitor/fetch.go"; MS="internal/ctmonitor/storage.go"; FA="internal/ctmonitor/fastly.go"
T="internal/sunlight/tile_ol.go"; CK="internal/sunlight/checkpoint_ol.go"; DS="internal/sunlight/digitallysign_ol.go"; EX="internal/sunlight/extensions_ol.go"; MI="internal/sunlight/misc.go"; R="internal/rfc6979/ecdsa_ol.go"; SE="internal/ctsetup/main.go"
NOTESTS="The package has no unit tests; the docker integration tests replay one fixed script plus a small random hammer and never "

prop("C01","An issued SCT is already kept: its entry is in the published tree",
 "Whenever add-chain or add-pre-chain answers 200, the tree head published in the store at that moment already covers the SCT's leaf index, and the stored entry at that index is the submitted (pre)certificate with the SCT's timestamp. The SCT carries the log's ID, version v1, the leaf_index extension, and a signature by the log key that verifies over exactly that logged leaf. This stays true for every later tree head, including across restarts and after the whole process is lost at any moment.",
 ["inputs","schedules","histories","crash_points"],"Every accepted submission (new or duplicate, cert or precert, any chain), every batching and storage-latency schedule, every later crash/restart.",
 NOTESTS+"check the store at the instant an SCT is returned, vary storage latency, or crash the writer.",
 [L,T,DS,EX,B],[("SCT is only built from an entry that came back from the sequencer's second stage or from the dedupe map, both after the tree head upload","%s:stageZero, stageTwo"%L)],
 [("returnPath","channel on which a sequenced and published entry is handed back",L),("int/dedupe","persisted certificate->(index,timestamp) map",B)],["HTTP response of add-chain/add-pre-chain","objects ct/v1/get-sth, tile/data/*"])

prop("C02","The log is append-only across batches, restarts and crashes",
 "Tree heads published by the log, as STH or as checkpoint, over its whole life never shrink, never give two different roots for one size, and any two of them are consistent: the larger tree has the smaller as its prefix. An entry or hash tile covered by a published tree head is never changed or removed in the store. This holds for all batch sizes and all tile boundaries, at any log size (including indexes beyond 2^32), and across restarts and crashes.",
 ["histories","crash_points","inputs"],"Every sequence of batches, restarts and crashes, from any starting tree size up to 2^40.",
 NOTESTS+"restart the log, cross a 65536- or 16M-entry tile boundary, or compare stored tiles before and after.",
 [L,C],[("sequencing starts at the published tree size; edge tiles are re-verified against the published root on load","%s:LoadLog"%C),("tiles are rebuilt from the edge tiles plus the new hashes","%s:stageTwo/hashReader"%L)],
 [("edgeTiles","right-most tile of each level and of the data level",C),("treeSize/startingSequence","next index",C)],["objects ct/v1/get-sth, checkpoint, tile/**"])

prop("C03","Every published tree head is completely backed by stored objects",
 "At every instant, whatever the latency or order in which the store completes individual writes, a visible STH or checkpoint of size n implies that all data tiles and all hash tiles of the tree of size n (at the widths that belong to n) are already stored and agree with each other and with its root. It also implies that every issuer certificate referenced by an entry is stored under its SHA-256 and that every entry's leaf hash is findable in the hash-to-index files. Everything written is at the path the Static CT layout prescribes.",
 ["schedules","inputs","histories"],"Every prefix of the store's write history under arbitrary per-object write latencies, for all chains, batch sizes and starting sizes.",
 NOTESTS+"delay individual object writes or look at intermediate store states; they only see the final state of a fast local store.",
 [L,B,T],[("all uploads of a batch are awaited before the STH is signed and written","%s:stageTwo errgroup Wait"%L)],
 [("tile/<L>/..., tile/data/..., issuer/<sha256>, int/hashes/...","published objects",B)],["sequence of object writes seen by the store"])

prop("C04","A crash at any storage operation is recoverable without loss or corruption",
 "If the writer process is lost at any point relative to any of its storage operations (each one having happened or not), a restarted instance loads successfully, continues exactly from the last published tree head, keeps every published entry and accepts new submissions. Leftovers of the interrupted batch (tiles, issuer, hash-map records) never become visible as log contents: read requests served from the store after the restart return only the entries and valid proofs of the published tree.",
 ["crash_points","histories"],"Every storage operation of a batch as the crash point (with the in-flight parallel writes each applied or dropped), repeated crashes, followed by arbitrary further batches and monitor queries.",
 NOTESTS+"stop the submission process at all.",
 [C,L,F,M],[("tree head is the commit point; load resumes from it and re-verifies edge tiles","%s:LoadLog"%C),("monitor picks the tiles that belong to the published tree size","%s:getTile, %s"%(F,M))],
 [("ct/v1/get-sth","commit record",B)],["store contents after the crash; HTTP responses of the restarted log and of a monitor"])

prop("C05","Resubmitting a logged certificate returns the original SCT and adds nothing",
 "Once a client has received an SCT for a certificate or precertificate, submitting the same chain again (any number of times, any time later, also after restarts) returns a byte-identical SCT and the log gains no entry. A certificate submitted through a different valid chain also gets its original SCT. (If a certificate is first submitted several times at once, each of those may be logged; every later submission then gets one of their SCTs.) A resubmission whose duplicate check cannot be completed, because the store fails or the client leaves, is not logged again either. No submission is ever answered with an SCT whose signed contents differ from what is logged at that index, even when the same precertificate arrives under different issuers.",
 ["histories","inputs","configurations"],"Every history of submissions and resubmissions interleaved with restarts, any dedupe bucket size, any index/timestamp values, alternative chains and precert signing certificates.",
 NOTESTS+"resubmit after a restart, share dedupe buckets between many certificates, or resubmit under another issuer.",
 [L,B,DS],[("dedupe lookup before sequencing, deterministic RFC 6979 signature","%s:stageZero"%L),("sorted dedupe files written after publication","%s:PutDedupeEntries/GetDedupeEntry"%B)],
 [("int/dedupe/<prefix>","16-byte key, 40-bit index, 64-bit timestamp records",B)],["HTTP responses; object ct/v1/get-sth; int/dedupe/*"])

prop("C06","Concurrent submissions are sequenced exactly once each, with no gaps",
 "For any number of concurrent submissions (far more than one batch holds) and any storage latency, accepted submissions of distinct certificates get distinct, gap-free leaf indexes, each exactly one entry, and each submitter gets the SCT of its own certificate. No accepted submission is lost, duplicated or swapped with another's. While the store works, the log keeps making progress.",
 ["schedules","histories"],"Every interleaving of concurrent submitters, batch flushes and slow uploads, including batches at and above the pool limit.",
 NOTESTS+"check ownership of SCTs under load, nor hold uploads while the next batch forms.",
 [L],[("single sequencer goroutine, pool copy handed to the uploader over a channel, per-request return channel","%s:stageOne/stageTwo"%L)],
 [("pool","entries collected for the next flush",L)],["HTTP responses; tile/data/*; tree heads"])

prop("C07","Exactly the chains of the published policy are accepted",
 "A submission is accepted exactly when its chain, in the order given and with or without the root, verifies up to one of the configured roots, the leaf's NotAfter lies in [start, limit), and the kind of leaf (precertificate or final certificate) matches the endpoint (a precertificate also needs its real issuer in that verified chain); certificates that have already expired or have unknown EKUs are not refused for that. Every other body (malformed JSON, bad base64, bad DER, empty, misordered, broken signature, unknown root, out of window, wrong endpoint, oversize) is refused with a 4xx/5xx answer. A refused submission leaves the tree, the dedupe map and the issuers unchanged and never takes the service down.",
 ["inputs","configurations"],"All chains built from several roots, intermediates, cross-signs, pre-issuers, all structural corruptions of them, and all validity windows including both boundary instants.",
 NOTESTS+"probe the window boundaries, misordering, corrupt signatures or hostile bodies systematically.",
 [L,C],[("chain validation with the configured roots and NotAfter range, then endpoint match","%s:stageZero"%L)],
 [("roots, notAfterStart, notAfterLimit","acceptance policy",C)],["HTTP status of add-chain/add-pre-chain; store contents"])

prop("C08","Logged entries are exactly the RFC 6962 encoding of what was submitted",
 "For an accepted certificate the logged leaf is the RFC 6962 x509_entry over its DER; for a precertificate it is the precert_entry with the issuer key hash and TBS of the final certificate (poison removed; under a precert signing certificate, the real issuer's key, name and authority key id). The entry carries the fingerprints of the rest of the verified chain in order, ending in the accepted root, and reading it back through get-entries and get-entry-and-proof gives that leaf_input and the matching extra_data with the original precertificate and chain bytes.",
 ["inputs"],"All accepted chains: direct, via intermediates, cross-signed, with/without root, precerts by CA and by precert signing certificate, any extension contents and sizes.",
 NOTESTS+"compare against an independently built final certificate, only against the same library's conversion of one fixture.",
 [L,T,M],[("entry construction","%s:stageZero"%L),("leaf and tile encoding","%s:MerkleTreeLeaf/AppendTileLeaf"%T),("extra_data construction","%s:get_entries/get_entry_and_proof"%M)],
 (),["tile/data/*, issuer/*; get-entries and get-entry-and-proof responses"])

prop("C09","get-entries returns exactly the requested published entries",
 "For 0 <= start <= end with start below the published tree size, get-entries answers 200 with precisely the entries start, start+1, ... up to the smallest of end, the last published index and start+1023 (at most 1024 entries), in order, each with the right leaf_input and extra_data. A start at or past the published size, a negative or reversed range never yields entries. Objects in the store beyond the published tree never show up.",
 ["inputs","histories"],"All ranges against all tree sizes and publication histories, ranges spanning several tiles and ending on tile edges, very large logs, leftovers of interrupted batches.",
 NOTESTS+"cross more than one or two tiles, nor touch large indexes or leftovers.",
 [M,F,T],[("tile selection, range filter and limit","%s:get_entries"%M),("tile fetch for the published size","%s:getTile"%F)],
 (),["HTTP responses of get-entries"])

prop("C10","get-proof-by-hash returns a valid inclusion proof exactly for logged leaves",
 "For every leaf of the published tree and every tree_size larger than its index and not larger than the published size, get-proof-by-hash returns its index and an audit path that verifies to the root of that size. For a hash that is not the leaf hash of an entry in that tree (unknown, sharing a prefix with a real one, or left behind by an interrupted batch) it never answers 200.",
 ["inputs","histories","configurations"],"All leaves x all tree sizes x all publication histories and hash-bucket sizes, indexes up to 40 bits, near-miss hashes.",
 NOTESTS+"ask for old or unpublished sizes, near-miss hashes or big trees; the docker hammer even disables arbitrary sizes.",
 [M,F,MI],[("hash bucket scan","%s:getIndexForHash"%F),("tile-backed hash reader","%s:hashreader, get_proof_by_hash"%M)],
 [("int/hashes/<prefix>","16-byte hash, 40-bit index records",B)],["HTTP responses of get-proof-by-hash"])

prop("C11","get-sth-consistency returns a valid proof for every pair of sizes",
 "For all 0 <= first <= second <= published size, get-sth-consistency answers 200 with exactly the RFC 6962 consistency proof between the two trees (empty when first is 0 or first equals second). For first > second or a size beyond the published tree it answers a 4xx error.",
 ["inputs","histories"],"All pairs of sizes against all publication histories and tree sizes, including powers of two, tile boundaries and multi-level tile trees.",
 NOTESTS+"ask for pairs other than a few published sizes.",
 [M,F],[("proof from tiles","%s:get_sth_consistency, hashreader"%M)],(),["HTTP responses of get-sth-consistency"])

prop("C12","get-entry-and-proof agrees with the log for every index and size",
 "For every leaf_index < tree_size <= published size, get-entry-and-proof answers 200 with that entry's leaf_input and extra_data and an audit path that verifies to the root of tree_size. For any other pair it answers a 4xx error.",
 ["inputs","histories"],"All (index, size) pairs against all publication histories, in particular entries of the right-most partial tile, and large trees.",
 "Nothing exercises this endpoint: the docker hammer lists it as not implemented upstream.",
 [M,F,T],[("entry lookup in data tile and proof from hash tiles","%s:get_entry_and_proof"%M)],(),["HTTP responses of get-entry-and-proof"])

prop("C13","The monitor survives any request and any tile-store failure, and never lies",
 "Any request to the read API (missing, repeated, malformed, negative, overflowing or huge parameters, any method or path) gets a well-formed HTTP answer: invalid parameters a 4xx, never a crash, hang or 200 with wrong data. When the tile store answers with errors, missing objects or cut-off bodies, the affected request is answered with an error, and no response with status 200 ever contains wrong entries or proofs; once the store works again, so does the monitor. Serving any number of such requests does not leak connections to the store.",
 ["inputs","fault_sequences","histories"],"All query strings over all endpoints, all subsets of failing store objects, long request histories.",
 NOTESTS+"send overflowing parameters or make the tile store fail.",
 [M,MS,F],[("parameter validation and error mapping","%s"%M),("store access","%s:UrlStorage, FsStorage"%MS)],(),["HTTP responses; connections seen by the tile store"])

prop("C14","Data tiles decode to exactly the entries encoded, and nothing else decodes",
 "Encoding any sequence of entries into a data tile and reading it back yields the same entries in order (leaf, index, timestamp, precert data, chain fingerprints) with nothing left over, and appending never alters bytes already in the tile. Any byte string is either rejected with an error or decoded to an entry whose encoding is exactly the bytes consumed; decoding never panics.",
 ["inputs"],"All entries (any sizes, up to 2^40-1 indexes) and all byte strings, in particular truncations, length-field and type mutations of valid tiles.",
 "internal/sunlight has no tests.",
 [T,EX],[("AppendTileLeaf/ReadTileLeaf/MerkleTreeLeaf","%s"%T)],(),["return values of the codec"])

prop("C15","Object names and leaf-index extensions follow the Static CT layout",
 "The path of every tile is the Static CT path (tile/<L or data>/xNNN groups/NNN with .p/<W> only for partial tiles), so that different tiles never share a path. The bucket path of a hash is its first n hex digits split in pairs, the same for writer and monitor. The leaf_index extension round-trips every index below 2^40 in its canonical 8-byte form, refuses larger ones, and its parser ignores unknown extensions before it and rejects malformed ones without panicking.",
 ["inputs"],"All tile coordinates, hashes, prefix lengths and indexes; all byte strings for the parser.",
 "internal/sunlight has no tests.",
 [T,MI,EX],[("Path","%s"%T),("KAnonHashPath","%s"%MI),("MarshalExtensions/ParseExtensions","%s"%EX)],(),["return values"])

prop("C16","Signed tree heads and checkpoints are valid, agree, and resist tampering",
 "For any size, timestamp and root, the STH JSON carries a valid RFC 6962 tree-head signature and the checkpoint is a valid signed note with origin, size, root and RFC 6962 timestamped signature under the key ID derived from origin and log key. The provided verifier accepts every checkpoint signed with the matching ECDSA or RSA key and reports its timestamp, and rejects it after any change to the tree size, root hash, timestamp, signature, key or key name, and when extension lines are added. Checkpoint parsing inverts formatting, and rejects malformed input (missing lines or final newline, non-canonical sizes, wrong hash length, empty or unterminated extension lines, over-long text) without panicking.",
 ["inputs"],"All (origin, size, timestamp, root, key) and all single-field, byte and structural mutations.",
 "internal/sunlight has no tests.",
 [CK,DS,MI],[("SignTreeHead","%s"%MI),("SignTreeHeadCheckpoint/NewRFC6962Verifier/ParseCheckpoint/FormatCheckpoint","%s"%CK)],(),["return values"])

prop("C17","Signatures are exactly the RFC 6979 deterministic ECDSA signatures",
 "For every P-256, P-384 and P-521 key, digest (of any length, including empty, all-zero and over-long) and hash function, signing returns the unique DER-encoded RFC 6979 signature, which standard ECDSA verification accepts. Signing twice, or concurrently, gives identical bytes; unsupported curves are refused.",
 ["inputs","schedules"],"All keys (including scalars with leading zero bytes), digests, hash functions and curves.",
 "The existing tests check a handful of RFC vectors and one random message per curve; rare encodings (leading zeros, short digests, nonce rejection) are not reached.",
 [R],[("rfc6979DRBG, randomPoint, signNISTEC, encodeSignature","%s"%R)],(),["return values"])

prop("C18","The hash-index and dedupe files lose nothing, stay sorted and stay exact",
 "For any bucket prefix length, after any history of batches each leaf hash is recorded in the hash-index file of its prefix with exactly its index, and each certificate whose SCT was issued (keyed by its SHA-256 fingerprint; a precertificate from a precert signing certificate may have a key of its own) in the dedupe file of its prefix with exactly its index and timestamp. Each file is always a whole number of fixed-size records sorted by hash, and an update, a restart or a failed or transiently failing read never drops or alters an earlier record.",
 ["histories","configurations","fault_sequences"],"All prefix lengths 1..32, batches with many records per bucket, indexes up to 40 bits, transient and permanent read errors during updates.",
 "The code itself notes 'This NEEDS unit testing'; there is none, and docker runs use one prefix length and small indexes.",
 [B,MI],[("read-modify-write with sorted insertion","%s:PutRecordHashes/PutDedupeEntries"%B)],
 [("int/hashes/*","21-byte records",B),("int/dedupe/*","29-byte records",B)],["objects int/hashes/*, int/dedupe/*"])

prop("C19","Both storage backends behave as one atomic key-value store",
 "For the filesystem and the S3 backend, a successful write makes exactly those bytes readable under that key (keys in nested directories, empty and large values, overwrites; in a directory also for other users, subject to the umask) and leaves other keys alone; a missing key reads as not-found and not existing, and any other backend failure is reported as an error, never as a missing or existing key. A write is atomic: a concurrent reader, or a reader after a failed or interrupted write, sees the complete old or the complete new value.",
 ["histories","schedules","fault_sequences"],"All sequences of get/set/exists on arbitrary keys and values, concurrent readers, failing backends and disks.",
 "No unit tests; the docker tests never make a backend fail nor read during a write.",
 [ST,MS],[("FsStorage, S3Storage","%s"%ST),("FsStorage, UrlStorage (read side)","%s"%MS)],(),["return values; directory contents; HTTP requests to the object store"])

prop("C20","Only the lock holder serves, and only with the right key and configuration",
 "At most one instance of a log runs at a time: a second instance neither touches the store nor serves until the first has released or lost the lock, and then resumes from the published tree with the configuration stored at that time. An instance that loses its lock stops serving and exits. An instance refuses to start when the configuration, root list or published tree head is missing or unreadable, when the signing key does not match the configured log ID, or when the stored right-edge tiles (hash tiles and data tile) do not match the published tree head.",
 ["histories","schedules","fault_sequences","configurations"],"All takeover histories of several instances (release, session loss, kill), all mismatching keys, IDs, configurations and corrupted edge tiles.",
 NOTESTS+"start a second instance, drop the lock, or offer a wrong key or corrupted store.",
 [C,"internal/ctsubmit/main.go",L],[("Consul lock before reading the configuration; fatal exit on lock loss; log ID check; tile verification on load","%s:LoadLog"%C)],
 [("<kv>/lock, <kv>/config","leader lock and configuration",C)],["process exit, HTTP port, Consul and store requests of each instance"])

prop("C21","Setup produces a complete, valid empty log that matches its inputs",
 "After setup, the stored configuration is exactly the given one, the stored root list contains exactly the distinct certificates of the PEM bundle, and the stored STH is a validly signed head of the empty tree. The log then starts from it with no other preparation, publishes a valid empty tree head and checkpoint, the monitor serves the same roots and STH, and the first accepted certificate gets index 0.",
 ["configurations","inputs"],"All configurations, root bundles (order, duplicates, other PEM blocks) and keys, on both backends.",
 NOTESTS+"use any bundle other than one single-certificate file.",
 [SE,C,M],[("uploadRoots, uploadConfig, uploadEmptySth","%s"%SE)],(),["Consul KV, objects ct/v1/get-roots, ct/v1/get-sth; HTTP get-roots/get-sth"])

prop("C22","The edge (Fastly) monitor gives the same answers within its request budget",
 "For every query, the edge monitor's answers to get-sth-consistency, get-proof-by-hash, get-entries and get-entry-and-proof are those of the standalone monitor over the same log, except that one get-entries answer holds at most 75 entries and may be cut short (never wrong, never skipping an entry) to keep within 10 backend requests. Answers do not depend on what the edge cache or the request-local cache already holds. Writing methods are refused with 405, unknown hosts and paths with 404, and backend failures never produce a 200 with wrong data.",
 ["inputs","histories","fault_sequences"],"All queries over all endpoints, cold and warm caches, varying cache-control headers, chains of many issuers, failing backends.",
 "Nothing runs this code; it is only compiled.",
 [FA,M,F],[("FastlyServe, FastlyStorage.Get (request-local cache, edge cache), AvailableReqs","%s"%FA)],(),["edge responses; backend requests"])

prop("C23","Timestamps are truthful and tree heads stay fresh",
 "An SCT's timestamp lies between receipt of the first submission and its response; every tree head's timestamp is not earlier than that of any entry it covers, not in the future, and never decreases from one tree head to the next. Even with no submissions at all, including on an empty log, the log keeps publishing freshly timestamped STHs and checkpoints of the unchanged tree.",
 ["histories","schedules"],"All histories of bursts, idle periods and restarts, slow uploads, flush intervals.",
 NOTESTS+"compare timestamps of entries and tree heads under slow uploads, nor watch an idle log.",
 [L,MI,CK],[("timestamps taken when sequencing and when signing; empty flushes re-sign","%s:stageOne/stageTwo"%L)],(),["SCTs, STHs, checkpoints"])

prop("C24","A failed storage operation never leads to an SCT or a premature tree head",
 "If any storage operation needed for a batch fails for good (any object class, read or write, error or refusal), no tree head covering that batch is published afterwards by that instance unless all objects backing it were stored, none of the batch's submitters receives an SCT, and the instance gives up leadership instead of continuing. A failure that the object store reports as temporary and that goes away on retry is absorbed and the submission succeeds.",
 ["fault_sequences","histories"],"Every storage operation of a batch failing, with each failure status, in histories with earlier and later batches.",
 NOTESTS+"make the object store fail.",
 [L,B,ST],[("any error in the second stage aborts it and unlocks leadership","%s:stageTwo, Start"%L)],(),["HTTP responses, store writes, lock releases"])

prop("C25","The shipped programs run a log end to end, as configured on their command lines",
 "itko-submit, given a Consul KV path and a listen address, runs the log configured at that path of the local Consul agent; itko-monitor, given a store directory or address, a mask size and a listen address, serves the log in that store. With any number of logs sharing one agent (each with its own KV path, key, store, mask size), clients of each log's two programs get SCTs, tree heads, entries, roots, inclusion and consistency proofs that a standard RFC 6962 client verifies and that are those of that log, also after an interrupt or a kill and a restart. A program given no KV path, store, mask size or listen address, or an address it cannot listen on, ends with a non-zero status without serving.",
 ["configurations","histories","inputs"],"All command lines, sets of logs on one agent, storage kinds, mask sizes, client histories and restarts.",
 "The docker test runs one log with one configuration, through the packages and not the programs.",
 ["cmd/itko-submit/main.go","cmd/itko-monitor/main.go","internal/ctsubmit/main.go","internal/ctmonitor/main.go"],
 [("flag parsing and checks, listening, MainMain","cmd/itko-submit/main.go, cmd/itko-monitor/main.go")],(),["HTTP answers, exit status of the programs"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties; longest title",max(len(p["title"]) for p in P))
