"""Third round of planted bugs."""
from seedspecs1 import *
from seedspecs2 import EDGE
SPECS = {}


def spec(i, prop, edits, test, needs, breaks, **kw):
    SPECS[i] = dict(property=prop, edits=edits, test=test, needs=needs, breaks=breaks, **kw)


CMDMON = "cmd/itko-monitor/main.go"

# ---------------------------------------------------------------- C25

spec("lock-per-directory", "C25", [
    (CONFIG, """		lockpath := kvpath + "/lock"
		configpath := kvpath + "/config"
""", """		lockpath := path.Join(path.Dir(kvpath), "lock")
		configpath := path.Join(kvpath, "config")
"""),
    (CONFIG, """	"os/signal"
	"sync"
""", """	"os/signal"
	"path"
	"sync"
"""),
], """
package demo

import (
	"context"
	"encoding/json"
	"testing"
	"time"

	"itko.dev/internal/ctsubmit"
)

// Two logs that share an agent both run.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.s3.put("ct/v1/get-roots", must(json.Marshal(map[string]any{"certificates": e.roots})))
	e.consul.kv["logs/a/config"] = must(json.Marshal(e.conf))
	f := newEnv(t)
	f.s3.put("ct/v1/get-roots", must(json.Marshal(map[string]any{"certificates": f.roots})))
	e.consul.kv["logs/b/config"] = must(json.Marshal(f.conf))
	for p, x := range map[string]*Env{"logs/a": e, "logs/b": f} {
		ch := make(chan *ctsubmit.Log, 1)
		go func() { ch <- must(ctsubmit.LoadLog(context.Background(), p, e.consul.addr)) }()
		select {
		case lg := <-ch:
			x.h = must(lg.Start(context.Background()))
		case <-time.After(20 * time.Second):
			t.Fatalf("the log at %s does not start while the other one runs", p)
		}
		x.submit(false, newLeaf("a.example", x.inter, false, nil), x.inter.cert.Raw)
		if err := x.audit(); err != nil {
			t.Fatal(err)
		}
	}
}
""", "two logs whose KV paths share a parent run at one Consul agent", "All logs under one prefix share one lock, so only one of them runs.")

MONDEMO = """#!/bin/bash
# Exit 0: the property's demonstration passes. Nonzero: it fails. Run with cwd at the repository.
R="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R" || exit 2
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
go build -o "$T/m" ./cmd/itko-monitor || exit 3
mkdir -p "$T/store/ct/v1"
echo '{}' > "$T/store/ct/v1/get-roots"
cd "$T" || exit 2
# Without a mask size it must refuse to serve.
timeout 10 ./m -store-directory "$T/store" -listen-address 127.0.0.1:0 > out 2>&1
rc=$?
cat out
if [ $rc = 124 ] || [ $rc = 0 ]; then echo "serves without a mask size (status $rc)"; exit 1; fi
exit 0
"""

spec("monitor-default-mask", "C25", [
    (CMDMON, """	maskSize := flag.Int("mask-size", 0, "Mask size for the quadtree.")
""", """	maskSize := flag.Int("mask-size", 2, "Mask size for the quadtree.")
"""),
], "package none\n", "itko-monitor is started without -mask-size", "The monitor serves with a mask size the log may not use: every get-proof-by-hash fails.", lib=False, demo=MONDEMO)

# ---------------------------------------------------------------- C13

spec("partial-content", "C13", [
    ("internal/ctmonitor/storage.go", """	if resp.StatusCode != 200 {
		if resp.StatusCode == 404 {
""", """	if resp.StatusCode/100 != 2 {
		if resp.StatusCode == 404 {
"""),
], """
package demo

import (
	"context"
	"net/http"
	"net/http/httptest"
	"testing"

	"itko.dev/internal/ctmonitor"
)

// A store that has nothing to give (204), or only a part (206), does not make the monitor answer 200.
func TestDemo(t *testing.T) {
	for _, st := range []int{204, 206} {
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			w.WriteHeader(st)
			if st != 204 {
				w.Write([]byte("{\\"certifica"))
			}
		}))
		h := must(ctmonitor.Start(context.Background(), "", srv.URL+"/", 2))
		for _, p := range []string{"get-roots", "get-sth"} {
			w := httptest.NewRecorder()
			h.ServeHTTP(w, httptest.NewRequest("GET", "/ct/v1/"+p, nil))
			if w.Code == 200 {
				t.Fatalf("%s answers 200 with %q though the store answered %d", p, w.Body, st)
			}
		}
		srv.Close()
	}
}
""", "the tile store answers with another 2xx status than 200 (204, 206)", "Partial or missing documents are passed on with status 200.")

# ---------------------------------------------------------------- C18

spec("record-order", "C18", [
    (BUCKET, """			if bytes.Compare(e.hash[:], records[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize]) < 0 {
""", """			if binary.BigEndian.Uint32(e.hash[:]) < binary.BigEndian.Uint32(records[i*RHURecordSize:]) {
"""),
], """
package ctsubmit

import (
	"bytes"
	"context"
	"testing"
)

func TestDemo(t *testing.T) {
	s := NewFsStorage(t.TempDir())
	b := Bucket{S: &s}
	h := func(x, y byte) (r [16]byte) { r[0], r[7], r[15] = 0xab, x, y; return }
	for i, x := range [][16]byte{h(9, 1), h(3, 2), h(9, 0), h(1, 1)} {
		if err := b.PutRecordHashes(context.Background(), []RecordHashUpload{{hash: x, leafIndex: uint64(i)}}, 2); err != nil {
			t.Fatal(err)
		}
	}
	f, err := s.Get(context.Background(), "int/hashes/ab")
	if err != nil {
		t.Fatal(err)
	}
	for i := 21; i < len(f); i += 21 {
		if bytes.Compare(f[i-21:i-5], f[i:i+16]) > 0 {
			t.Fatalf("records %d and %d are out of order", i/21-1, i/21)
		}
	}
}
""", "two leaf hashes share their first four bytes", "The hash-index file is not sorted any more.", pkg="internal/ctsubmit", lib=False)

spec("index-cap-growth", "C18", [
    (BUCKET, """		newRecords := make([]byte, len(records)+DDURecordSize)
		copy(newRecords[:insertIndex*DDURecordSize], records[:insertIndex*DDURecordSize])
		// The end of the newRecords slice does not need to be defined since copy will only copy the minimum of the two slices
		copy(newRecords[insertIndex*DDURecordSize:], e.ToBytes())
		copy(newRecords[(insertIndex+1)*DDURecordSize:], records[insertIndex*DDURecordSize:])

		f[e.hashPath] = newRecords
""", """		// Grow in place where the capacity allows it, instead of copying the file for every record
		newRecords := append(records[:insertIndex*DDURecordSize], e.ToBytes()...)
		newRecords = append(newRecords, records[insertIndex*DDURecordSize:]...)

		f[e.hashPath] = newRecords
"""),
], """
package demo

import (
	"crypto/sha256"
	"testing"
)

// Resubmissions get the first SCT, whatever came after it.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mask = 1
	e.conf["maskSize"] = 1
	e.mustBoot()
	var leaves [][]byte
	var scts []SCT
	for i := 0; i < 60; i++ {
		l := newLeaf("a.example", e.inter, false, nil)
		leaves = append(leaves, l)
		scts = append(scts, e.submit(false, l, e.inter.cert.Raw))
	}
	for i, l := range leaves {
		fp := sha256.Sum256(l)
		if k, _ := e.lookup("dedupe", fp[:16], 29); k != int(scts[i].index()) {
			t.Fatalf("entry %d is recorded as %d in the dedupe file", scts[i].index(), k)
		}
	}
}
""", "a dedupe record is inserted before others into a file read with spare capacity", "Records that sort after the new one are overwritten: the certificate is logged again when it is resubmitted.")

# ---------------------------------------------------------------- C20

spec("config-before-lock", "C20", [
    (CONFIG, """		// Lock the key and get a channel to listen for lock loss
		eStopChan, err := lock.Lock(nil)
""", """		// Fetch the configuration from Consul, there is no point in waiting for the lock without it
		rawConfig, _, err := client.KV().Get(configpath, &consul.QueryOptions{
			RequireConsistent: true,
		})
		if err != nil {
			return nil, err
		}

		// Lock the key and get a channel to listen for lock loss
		eStopChan, err := lock.Lock(nil)
"""),
    (CONFIG, """		// Once the lock is acquired, fetch the configuration from Consul
		kv := client.KV()
		rawConfig, _, err := kv.Get(configpath, &consul.QueryOptions{
			RequireConsistent: true,
		})
		if err != nil {
			return nil, err
		}
		if rawConfig""", """		if rawConfig"""),
], """
package demo

import (
	"context"
	"encoding/json"
	"testing"

	"itko.dev/internal/ctsubmit"
)

// A standby takes over with the configuration that is stored when it takes over.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	type res struct {
		lg  *ctsubmit.Log
		err error
	}
	ch := make(chan res, 1)
	go func() {
		lg, err := ctsubmit.LoadLog(context.Background(), "demo", e.consul.addr)
		ch <- res{lg, err}
	}()
	waitFor(1e9, func() bool { return false })
	e.conf["notAfterLimit"] = "2024-02-01T00:00:00Z" // the leaves end later
	e.consul.mu.Lock()
	e.consul.kv["demo/config"] = must(json.Marshal(e.conf))
	e.consul.mu.Unlock()
	e.cancel()
	r := <-ch
	if r.err != nil {
		t.Fatal(r.err)
	}
	e.h = must(r.lg.Start(context.Background()))
	if code, s := e.post(false, newLeaf("c.example", e.inter, false, nil), e.inter.cert.Raw); code == 200 {
		t.Fatalf("accepted a certificate outside the window of the stored configuration: %s", s.raw)
	}
}
""", "the configuration is changed while a second instance waits for the lock", "The instance that takes over runs with an outdated configuration.")

spec("finish-after-loss", "C20", [
    (CONFIG, """			<-eStopChan
			log.Fatal("Consul lock lost, exiting now!")
""", """			<-eStopChan
			log.Println("Consul lock lost, finishing the uploads in progress")
			time.Sleep(3 * time.Second)
			log.Fatal("Exiting now!")
"""),
], """
package demo

import (
	"os"
	"os/exec"
	"sync/atomic"
	"testing"
	"time"
)

// An instance whose lock is gone stops at once. The instance runs in a process of its own.
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_NODE") == "" {
		c := exec.Command(os.Args[0], "-test.run=^TestDemo$", "-test.timeout=60s")
		c.Env = append(os.Environ(), "DEMO_NODE=1")
		out, err := c.CombinedOutput()
		if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() == 7 || x.ExitCode() == 2 {
			t.Fatalf("%v: the instance went on without its lock\\n%s", err, out)
		}
		return
	}
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	// The session is invalidated behind its back: the watch of the lock key returns at once.
	e.consul.lose("demo/lock")
	time.Sleep(1500 * time.Millisecond)
	var n atomic.Int32
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" {
			n.Add(1)
		}
		return 0
	})
	time.Sleep(500 * time.Millisecond)
	if n.Load() > 0 {
		os.Exit(7)
	}
	os.Exit(0)
}
""", "the Consul session is lost while the instance is healthy", "For three seconds the old instance writes tree heads although another one can already hold the lock.")

# ---------------------------------------------------------------- C24

spec("full-tile-in-background", "C24", [
    (LOGIC, """						// Upload the tile
						t := dataTile
						g.Go(func() error { return d.bucket.SetTile(gctx, t.Tile, t.Bytes) })
""", """						// Upload the tile
						t := dataTile
						g.Go(func() error {
							// The next batch doesn't read it
							if err := d.bucket.SetTile(gctx, t.Tile, t.Bytes); err != nil {
								fmt.Printf("failed to upload %v: %v\\n", t.Tile, err)
							}
							return nil
						})
"""),
], """
package demo

import "testing"

// No tree head without its data tiles.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(250)
	e.mustBoot()
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && key == "tile/data/000" {
			return 403
		}
		return 0
	})
	got := 0
	for i := 0; i < 8; i++ {
		if code, _ := e.post(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw); code == 200 {
			got++
		} else {
			break
		}
	}
	if got >= 6 || e.head().Size >= 256 {
		t.Fatalf("%d SCTs, tree size %d, and the full tile is not stored", got, e.head().Size)
	}
}
""", "the upload of a data tile that became full fails", "A tree head is published and SCTs are issued though 256 entries are not stored.")

spec("destroy-lock", "C24", [
    (LOGIC, """		err := l.stageTwoData.stageTwo(ctx)
		fmt.Printf("Error in stageTwo: %v\\n", err)
		fmt.Println("Stopping log now!")
		l.eStop.Unlock()
""", """		err := l.stageTwoData.stageTwo(ctx)
		fmt.Printf("Error in stageTwo: %v\\n", err)
		fmt.Println("Stopping log now!")
		l.eStop.Destroy()
"""),
], """
package demo

import (
	"os"
	"os/exec"
	"testing"
	"time"
)

// An instance that cannot publish any more gives up the lock. The instance runs in a process of its own.
func TestDemo(t *testing.T) {
	if os.Getenv("DEMO_NODE") == "" {
		c := exec.Command(os.Args[0], "-test.run=^TestDemo$", "-test.timeout=100s")
		c.Env = append(os.Environ(), "DEMO_NODE=1")
		out, err := c.CombinedOutput()
		if x, ok := err.(*exec.ExitError); ok && (x.ExitCode() == 7 || x.ExitCode() == 2) {
			t.Fatalf("%v\\n%s", err, out)
		}
		return
	}
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && key == "tile/data/000.p/2" {
			return 403
		}
		return 0
	})
	e.post(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
	if !waitFor(20*time.Second, func() bool { return e.consul.released() > 0 }) {
		println("the lock is still held")
		os.Exit(7)
	}
	os.Exit(0)
}
""", "an upload fails for good", "The instance stays leader for ever without publishing anything (Destroy refuses while the lock is held).")

# ---------------------------------------------------------------- C15, C16, C14, C17

spec("kanon-pairs", "C15", [
    ("internal/sunlight/misc.go", """		end := i + 2
		if end > n {
			end = n
		}
		builder.WriteString(hash[i:end])
""", """		end := i + 2
		if end > n {
			// A single digit would be one of only 16 children, so keep it with its parent's group
			builder.WriteString(hash[i-1 : n])
			break
		}
		builder.WriteString(hash[i:end])
"""),
    ("internal/sunlight/misc.go", """	n := len(hash)
	for i := 0; i < n; i += 2 {
		if i > 0 {
""", """	n := len(hash)
	if n == 1 {
		return hash
	}
	for i := 0; i < n; i += 2 {
		if i > 0 {
"""),
], """
package demo

import (
	"encoding/hex"
	"testing"

	"itko.dev/internal/sunlight"
)

func TestDemo(t *testing.T) {
	h, _ := hex.DecodeString("0123456789abcdef0123456789abcdef")
	for m, w := range map[int]string{1: "0", 2: "01", 3: "01/2", 5: "01/23/4", 6: "01/23/45"} {
		if g := sunlight.KAnonHashPath(h, m); g != w {
			t.Fatalf("bucket path of length %d is %s, not %s", m, g, w)
		}
	}
}
""", "an odd mask size of at least 3", "The bucket path is not the hash's digits in pairs: a log continued with the new code does not find its old records.")

spec("unknown-extension", "C15", [
    ("internal/sunlight/extensions_ol.go", """		if extensionType == 0 /* leaf_index */ {
			var e Extensions
			if !readUint40(&extension, &e.LeafIndex) || !extension.Empty() {
				return Extensions{}, errors.New("invalid leaf_index extension")
			}
			return e, nil
		}
""", """		if extensionType == 0 /* leaf_index */ {
			var e Extensions
			if !readUint40(&extension, &e.LeafIndex) {
				return Extensions{}, errors.New("invalid leaf_index extension")
			}
			return e, nil
		}
"""),
], """
package demo

import (
	"testing"

	"itko.dev/internal/sunlight"
)

func TestDemo(t *testing.T) {
	if e, err := sunlight.ParseExtensions([]byte{0, 0, 6, 0, 0, 0, 0, 1, 2}); err == nil {
		t.Fatalf("a leaf_index of six bytes is accepted as %d", e.LeafIndex)
	}
}
""", "a leaf_index extension longer than five bytes", "A malformed extension is accepted with a wrong index.")

spec("checkpoint-extension", "C16", [
    ("internal/sunlight/checkpoint_ol.go", """		if c.Extension != "" {
			return false
		}
""", """		if strings.TrimSpace(c.Extension) != "" && !strings.Contains(c.Extension, " ") {
			return false
		}
"""),
], """
package demo

import (
	"strings"
	"testing"

	"golang.org/x/mod/sumdb/note"
	"itko.dev/internal/sunlight"
)

func TestDemo(t *testing.T) {
	e := newEnv(t)
	n := must(sunlight.SignTreeHeadCheckpoint("a.example/log", e.key, 5, 1700000000000, [32]byte{1}))
	v := must(sunlight.NewRFC6962Verifier("a.example/log", e.key.Public(), nil))
	if _, err := note.Open(n, note.VerifierList(v)); err != nil {
		t.Fatal(err)
	}
	i := strings.Index(string(n), "\\n\\n")
	x := string(n[:i]) + "\\nwitness a.example 1\\n" + string(n[i+1:])
	if _, err := note.Open([]byte(x), note.VerifierList(v)); err == nil {
		t.Fatal("a checkpoint with an extension line that was not signed verifies")
	}
}
""", "a checkpoint gets an extension line with a space in it", "Text that the log never signed is accepted under its signature.")

spec("any-entry-type", "C14", [
    ("internal/sunlight/tile_ol.go", """	case 1: // precert_entry
""", """	case 1, 0x8000: // precert_entry, also under its old experimental number
"""),
], """
package demo

import (
	"testing"

	"itko.dev/internal/sunlight"
)

func TestDemo(t *testing.T) {
	e := &sunlight.LogEntry{IsPrecert: true, Certificate: []byte{1}, PreCertificate: []byte{2}, LeafIndex: 7}
	b := sunlight.AppendTileLeaf(nil, e)
	if _, _, err := sunlight.ReadTileLeaf(b); err != nil {
		t.Fatal(err)
	}
	b[8], b[9] = 0x80, 0
	if _, _, err := sunlight.ReadTileLeaf(b); err == nil {
		t.Fatal("an entry of unknown type decodes")
	}
}
""", "the entry type in the tile is 0x8000", "Bytes that no encoder writes decode to an entry that encodes to something else.")

# ---------------------------------------------------------------- C01, C03, C05, C07, C08, C21

spec("memory-dedupe", "C01", [
    (LOGIC, """	dedupeVal, err := d.bucket.""", """	if c, ok := recent.Load(entry.CertificateFp); ok {
		l := c.(sunlight.LogEntry)
		return d.sct(entry.Sequence(l.LeafIndex, l.Timestamp))
	}
	dedupeVal, err := d.bucket."""),
    (LOGIC, """	extension, err := sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: completeEntry.LeafIndex})
""", """	return d.sct(completeEntry)
}

// Recently sequenced entries, to save the round trip to the store for clients that submit everything twice
var recent sync.Map

func (d *stageZeroData) sct(completeEntry sunlight.LogEntry) (resp []byte, code int, err error) {
	extension, err := sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: completeEntry.LeafIndex})
"""),
    (LOGIC, """			// Increment the sequence
			sequence++
""", """			recent.Store(logEntry.entry.CertificateFp, logEntry.entry)
			// Increment the sequence
			sequence++
"""),
    (LOGIC, """	"slices"
	"time"
""", """	"slices"
	"sync"
	"time"
"""),
], """
package demo

import (
	"strings"
	"sync"
	"testing"
	"time"
)

// A certificate that arrives twice within a moment gets no SCT before it is published.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	hold := make(chan struct{})
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && strings.HasPrefix(key, "tile/") {
			<-hold
		}
		return 0
	})
	l := newLeaf("a.example", e.inter, false, nil)
	var wg sync.WaitGroup
	var once sync.Once
	bad := make(chan string, 2)
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if code, s := e.post(false, l, e.inter.cert.Raw); code == 200 {
				if err := e.included(s); err != nil {
					bad <- err.Error()
				}
			}
			once.Do(func() { close(hold) })
		}()
		time.Sleep(500 * time.Millisecond)
		if i == 1 {
			once.Do(func() { close(hold) })
		}
	}
	wg.Wait()
	select {
	case m := <-bad:
		t.Fatal(m)
	default:
	}
}
""", "the certificate is submitted again while the batch with its first submission is being uploaded", "The second submitter gets an SCT for an entry that is not published (and may never be).")

spec("issuer-cache-spki", "C03", [
    (BUCKET, """	fingerprint := sha256.Sum256(cert.Raw)
	exists, err :=""", """	fingerprint := sha256.Sum256(cert.Raw)
	known := string(cert.RawSubject) + string(cert.RawSubjectPublicKeyInfo)
	if _, ok := b.issuers.Load(known); ok {
		return nil
	}
	defer func() {
		if err == nil {
			b.issuers.Store(known, true)
		}
	}()
	exists, err :="""),
    (BUCKET, """func (b *Bucket) SetIssuer(ctx context.Context, cert *x509.Certificate) error {
""", """func (b *Bucket) SetIssuer(ctx context.Context, cert *x509.Certificate) (err error) {
"""),
    (BUCKET, """type Bucket struct {
	S Storage
}
""", """type Bucket struct {
	S Storage

	// Issuers that are known to be stored
	issuers *sync.Map
}
"""),
    (BUCKET, """	"fmt"
	"os"
""", """	"fmt"
	"os"
	"sync"
"""),
    (CONFIG, """		bucket = Bucket{S: &fsStorage}
""", """		bucket = Bucket{S: &fsStorage, issuers: &sync.Map{}}
"""),
    (CONFIG, """		bucket = Bucket{S: &s3Storage}
""", """		bucket = Bucket{S: &s3Storage, issuers: &sync.Map{}}
"""),
], """
package demo

import (
	"crypto/rand"
	"crypto/x509"
	"testing"
)

// An intermediate that was certified again is another certificate.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	tm := *e.inter.cert
	tm.SerialNumber = nextSerial()
	again := must(x509.CreateCertificate(rand.Reader, &tm, e.root.cert, e.inter.cert.PublicKey, e.root.key))
	e.submit(false, newLeaf("b.example", e.inter, false, nil), again)
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "an issuer with the same name and key, but another certificate (renewed or cross-signed), was logged before in the same run", "The new issuer certificate is never stored: entries refer to a missing issuer.")

spec("preissuer-extra-eku", "C08", [
    (LOGIC, """		if ct.IsPreIssuer(chain[1]) {
""", """		if len(chain[1].ExtKeyUsage) == 1 && ct.IsPreIssuer(chain[1]) {
"""),
], """
package demo

import (
	"bytes"
	"crypto/sha256"
	"crypto/x509"
	"testing"
)

// A precertificate signing certificate that has another key usage as well is still one.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	ps := newCA("Demo Presigner", e.inter, func(c *x509.Certificate) {
		c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		c.UnknownExtKeyUsage = append(c.UnknownExtKeyUsage, oidPreSigner)
	})
	e.submit(true, newLeaf("a.example", ps, true, nil), ps.cert.Raw, e.inter.cert.Raw)
	ens := must(e.entries())
	want := sha256.Sum256(e.inter.cert.RawSubjectPublicKeyInfo)
	if !bytes.Equal(ens[0].IKH, want[:]) {
		t.Fatal("the issuer key hash is not that of the final issuer")
	}
}
""", "a precertificate signing certificate with more than one extended key usage", "The logged entry names the precert signing certificate as the issuer; no final certificate matches it.")

spec("roots-same-key", "C07", [
    (CONFIG, """		r := x509util.NewPEMCertPool()
		for _, certBytes := range res.Certificates {
""", """		r := x509util.NewPEMCertPool()
		seen := make(map[string]bool)
		for _, certBytes := range res.Certificates {
"""),
    (CONFIG, """			r.AddCert(cert)
""", """			// Don't add a root again that is there already
			if id := string(cert.RawSubject) + string(cert.SubjectKeyId); !seen[id] {
				seen[id] = true
				r.AddCert(cert)
			}
"""),
], """
package demo

import (
	"crypto/x509"
	"testing"
)

// Two generations of a root with the same name are both roots.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	noSKI := func(c *x509.Certificate) { c.SubjectKeyId = []byte("root") }
	a := newCA("Twin Root", nil, noSKI)
	b := newCA("Twin Root", nil, noSKI)
	e.roots = append(e.roots, a.cert.Raw, b.cert.Raw)
	e.mustBoot()
	for _, ca := range []*CA{a, b} {
		e.submit(false, newLeaf("a.example", ca, false, nil), ca.cert.Raw)
	}
}
""", "two roots with the same subject and the same (or no) subject key id", "Chains to the second of the two roots are refused.")

spec("setup-roots-by-subject", "C21", [
    ("internal/ctsetup/main.go", """	for _, r := range roots {
		res.Certificates = append(res.Certificates, r.Raw)
	}
""", """	seen := make(map[string]bool)
	for _, r := range roots {
		// Bundles contain some roots twice
		if seen[string(r.RawSubject)] {
			continue
		}
		seen[string(r.RawSubject)] = true
		res.Certificates = append(res.Certificates, r.Raw)
	}
"""),
], """
package demo

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"os"
	"path/filepath"
	"testing"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

func TestDemo(t *testing.T) {
	e := newEnv(t)
	a, b := newCA("Twin Root", nil, nil), newCA("Twin Root", nil, nil)
	var bundle []byte
	for _, c := range []*CA{e.root, a, b} {
		bundle = append(bundle, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.cert.Raw})...)
	}
	f := filepath.Join(t.TempDir(), "roots.pem")
	os.WriteFile(f, bundle, 0o600)
	dir := t.TempDir()
	gc := ctsubmit.GlobalConfig{Name: origin, KeyPath: e.conf["keyPath"].(string), LogID: base64.StdEncoding.EncodeToString(e.logID[:]), MaskSize: 2, RootDirectory: dir,
		NotAfterStart: "2023-01-01T00:00:00Z", NotAfterLimit: "2026-01-01T00:00:00Z", FlushMs: 20}
	ctsetup.MainMain(context.Background(), e.consul.addr, "demo", f, gc.KeyPath, gc)
	var r struct {
		Certificates [][]byte `json:"certificates"`
	}
	if err := json.Unmarshal(must(os.ReadFile(dir+"/ct/v1/get-roots")), &r); err != nil {
		t.Fatal(err)
	}
	for i, c := range []*CA{e.root, a, b} {
		ok := false
		for _, x := range r.Certificates {
			ok = ok || bytes.Equal(x, c.cert.Raw)
		}
		if !ok {
			t.Fatalf("root %d of the bundle is not in the list", i)
		}
	}
}
""", "two different roots of the bundle have the same subject", "A root of the bundle is missing from the stored list.")

# ---------------------------------------------------------------- C09, C10, C11, C12, C23, C02, C06, C19

spec("entries-index-32", "C09", [
    ("internal/ctmonitor/logic.go", """			if entry.LeafIndex >= uint64(start) && entry.LeafIndex <= uint64(end) {
				entries = append(entries, entry)
			}
""", """			if uint32(entry.LeafIndex) >= uint32(start) && uint32(entry.LeafIndex) <= uint32(end) {
				entries = append(entries, entry)
			}
"""),
], """
package demo

import (
	"encoding/json"
	"testing"
)

// A log of a little more than 2^32 entries: only its last data tile is needed for the question.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	const base = uint64(1)<<32 - 256
	e.putSTH(1<<32+3, [32]byte{1})
	put := func(first uint64, n int) {
		var b []byte
		for i := 0; i < n; i++ {
			_, x := mkEntry(first+uint64(i), []byte("c"))
			b = append(b, x...)
		}
		e.s3.put(tilePath("data", first/256, n), b)
	}
	put(base, 256)
	put(1<<32, 3)
	code, b := e.monitor()("/ct/v1/get-entries?start=4294967290&end=4294967297")
	var r struct {
		Entries []struct {
			Leaf []byte `json:"leaf_input"`
		} `json:"entries"`
	}
	if code != 200 || json.Unmarshal(b, &r) != nil || len(r.Entries) != 8 {
		t.Fatalf("%d %.200s", code, b)
	}
}
""", "a range of entries that crosses index 2^32", "get-entries fails for ranges around 2^32.")

spec("consistency-clamp", "C11", [
    ("internal/ctmonitor/logic.go", """	if first > int64(sth.TreeSize) || second > int64(sth.TreeSize) {
		return nil, 400, fmt.Errorf("tree size out of range")
	}
""", """	if first > int64(sth.TreeSize) {
		return nil, 400, fmt.Errorf("tree size out of range")
	}
	// Trees larger than the published one are not known yet, so give the proof to that
	second = min(second, int64(sth.TreeSize))
"""),
], """
package demo

import "testing"

func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(300)
	m := e.monitor()
	if code, b := m("/ct/v1/get-sth-consistency?first=10&second=300"); code != 200 {
		t.Fatalf("%d %s", code, b)
	}
	if code, b := m("/ct/v1/get-sth-consistency?first=10&second=301"); code == 200 {
		t.Fatalf("a proof for a tree that is not published: %s", b)
	}
}
""", "second is beyond the published tree", "A proof for another pair of trees than asked for is given with status 200.")

spec("sth-rounded", "C23", [
    (LOGIC, """			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(time.Now().UnixMilli()), rootHash)
""", """			// Rounded to seconds, so heads don't tell when exactly a batch was published
			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(time.Now().Round(time.Second).UnixMilli()), rootHash)
"""),
], """
package demo

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	for i := 0; i < 12; i++ {
		s := e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
		h, now := e.head(), uint64(time.Now().UnixMilli())
		if h.Ts < s.Timestamp {
			t.Fatalf("the tree head is of %d, its entry of %d", h.Ts, s.Timestamp)
		}
		if h.Ts > now {
			t.Fatalf("the tree head is of %d, it is %d now", h.Ts, now)
		}
		time.Sleep(130 * time.Millisecond)
	}
}
""", "a batch that is published in the first or second half of a second", "Tree heads are older than entries they cover, or from the future.")

spec("empty-log-quiet", "C23", [
    (LOGIC, """		case <-time.After(FLUSH_INTERVAL):
			// Create a copy of the pool
			closedPool := make([]LogEntryWithReturnPath, len(pool))
""", """		case <-time.After(FLUSH_INTERVAL):
			// Nothing happened since the last flush of an empty pool
			if len(pool) == 0 && sequence == 0 {
				continue
			}
			// Create a copy of the pool
			closedPool := make([]LogEntryWithReturnPath, len(pool))
"""),
], """
package demo

import (
	"testing"
	"time"
)

// An empty log publishes fresh tree heads.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	now := uint64(time.Now().UnixMilli())
	if !waitFor(10*time.Second, func() bool { return e.head().Ts > now && e.s3.get("checkpoint") != nil }) {
		t.Fatal("no new tree head of the empty log")
	}
}
""", "the log is still empty and nothing is submitted", "An empty log never publishes a checkpoint, and its tree head gets old.")

spec("checkpoint-empty-root", "C02", [
    (LOGIC, """			// we also upload a checkpoint based on the STH
			checkpointBytes, err := sunlight.SignTreeHeadCheckpoint(d.checkpointOrigin, d.signingKey, int64(updatedTreeSize), time.Now().UnixMilli(), rootHash)
""", """			// we also upload a checkpoint based on the STH
			rootHash, err = tlog.TreeHash(max(int64(updatedTreeSize), 1), hashReader)
			if err != nil && updatedTreeSize > 0 {
				return fmt.Errorf("failed to calculate new root hash: %w", err)
			}
			checkpointBytes, err := sunlight.SignTreeHeadCheckpoint(d.checkpointOrigin, d.signingKey, int64(updatedTreeSize), time.Now().UnixMilli(), rootHash)
"""),
], """
package demo

import (
	"crypto/sha256"
	"encoding/base64"
	"strings"
	"testing"
	"time"
)

// The checkpoint of the empty log has the root of the empty tree.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	if !waitFor(10*time.Second, func() bool { return e.s3.get("checkpoint") != nil }) {
		t.Fatal("no checkpoint")
	}
	l := strings.Split(string(e.s3.get("checkpoint")), "\\n")
	r := sha256.Sum256(nil)
	if l[1] == "0" && l[2] != base64.StdEncoding.EncodeToString(r[:]) {
		t.Fatalf("the checkpoint of size 0 has root %s", l[2])
	}
}
""", "the log is still empty", "STH and checkpoint of size 0 have different roots.")

spec("s3-get-limit", "C19", [
    ("internal/ctsubmit/storage.go", """	data, err := io.ReadAll(output.Body)
	if err != nil {
		return nil, err
	}
	return data, nil
}

func (b *S3Storage) Set""", """	data, err := io.ReadAll(io.LimitReader(output.Body, 1<<20))
	if err != nil {
		return nil, err
	}
	return data, nil
}

func (b *S3Storage) Set"""),
], """
package demo

import (
	"bytes"
	"context"
	"testing"

	"itko.dev/internal/ctsubmit"
)

func TestDemo(t *testing.T) {
	s3 := newS3()
	s := ctsubmit.NewS3Storage("us-east-1", "bucket", s3.url, "u", "p")
	for _, n := range []int{0, 1, 1 << 20, 3 << 20} {
		v := bytes.Repeat([]byte{7}, n)
		if err := s.Set(context.Background(), "k", v); err != nil {
			t.Fatal(err)
		}
		if g, err := s.Get(context.Background(), "k"); err != nil || !bytes.Equal(g, v) {
			t.Fatalf("%d bytes written, %d read (%v)", n, len(g), err)
		}
	}
}
""", "an object of more than one MiB (a data tile of large certificates, a crowded index file)", "Large objects are read back cut off without an error.")

