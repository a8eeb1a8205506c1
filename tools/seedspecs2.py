"""Second round of planted bugs."""
import glob, os
from seedspecs1 import *
from seedspecs1 import SPECS as _S1
SPECS = {}


def spec(i, prop, edits, test, needs, breaks, **kw):
    SPECS[i] = dict(property=prop, edits=edits, test=test, needs=needs, breaks=breaks, **kw)


HERE = os.path.dirname(os.path.abspath(__file__))
SDK = os.path.join(os.path.dirname(HERE), "harness", "edge", "sdk")
SDKFILES = {f: open(os.path.join(SDK, d, f)).read() for d, f in (
    ("verifhost", "host.go.txt"), ("internal/abi/fastly", "hostcalls_noguest.go.txt"), ("internal/abi/fastly", "verif_host.go.txt"))}

EDGE_DEMO = """#!/bin/bash
# Exit 0: the property's demonstration passes. Nonzero: it fails. Run with cwd at the repository.
# The edge service runs natively on a scratch copy of the SDK whose host calls are answered here.
D="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "$R" || exit 2
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
export TMPDIR="$T"
M="$(go list -m -f '{{.Dir}}' github.com/fastly/compute-sdk-go)" || exit 2
cp -r "$M" "$T/sdk" && chmod -R u+w "$T/sdk" && mkdir "$T/sdk/verifhost" || exit 2
cp "$D/host.go.txt" "$T/sdk/verifhost/host.go"
for f in hostcalls_noguest verif_host; do cp "$D/$f.go.txt" "$T/sdk/internal/abi/fastly/$f.go"; done
cp go.mod go.sum "$T"
go mod edit -replace=github.com/fastly/compute-sdk-go="$T/sdk" "$T/go.mod" || exit 2
{
  echo '{"Replace":{'
  sep=""
  for f in "$D"/*_test.go; do
    echo "$sep\\"$R/internal/demo/$(basename "$f")\\":\\"$f\\""
    sep=","
  done
  echo '}}'
} > "$T/overlay.json"
GOFLAGS=-mod=mod go test -c -vet=off -overlay "$T/overlay.json" -modfile "$T/go.mod" -o "$T/demo.test" ./internal/demo || exit 3
cd "$T" || exit 2
./demo.test -test.v -test.timeout 250s > "$T/out" 2>&1
rc=$?
grep -E "_test.go|panic|FAIL|PASS" "$T/out" | tail -n 20
exit $rc
"""

EDGE_LIB = """package demo

import (
	"context"
	"io"
	"net/url"
	"strings"
	"time"

	"github.com/fastly/compute-sdk-go/fsthttp"
	"github.com/fastly/compute-sdk-go/fsttest"
	"github.com/fastly/compute-sdk-go/verifhost"
	"itko.dev/internal/ctmonitor"
)

// edgeOver runs the edge service over logs; get asks it, requests counts what it asked of backends.
type edge struct {
	logs     map[string]*Env // by host
	requests int
}

func newEdge(logs map[string]*Env) *edge {
	e := &edge{logs: logs}
	m := map[string]string{}
	for h := range logs {
		m[h] = "backend-" + h
	}
	verifhost.ClearCache()
	verifhost.Set(time.Now, func(store string) map[string]string { return m }, func(backend, method, uri string, _ map[string][]string) (*verifhost.Response, error) {
		e.requests++
		u := must(url.Parse(uri))
		b := logs[strings.TrimPrefix(backend, "backend-")].s3.get(strings.TrimPrefix(u.Path, "/"))
		if b == nil {
			return &verifhost.Response{Status: 404, Header: map[string][]string{}, Body: strings.NewReader("no")}, nil
		}
		return &verifhost.Response{Status: 200, Header: map[string][]string{"Cache-Control": {"max-age=60"}}, Body: strings.NewReader(string(b))}, nil
	})
	return e
}

func (e *edge) get(host, path string) (int, []byte) {
	req := must(fsthttp.NewRequest("GET", "https://"+host+path, io.NopCloser(strings.NewReader(""))))
	rec := fsttest.NewRecorder()
	ctmonitor.FastlyServe(context.Background(), rec, req)
	return rec.Code, rec.Body.Bytes()
}
"""
EDGE = dict(demo=EDGE_DEMO, files={**SDKFILES, "edgelib_test.go": EDGE_LIB})

spec("edge-cache-key", "C22", [
    (FASTLY, "simple.GetOrSet([]byte(version+url), cacheFunc)", "simple.GetOrSet([]byte(version+\"/\"+key), cacheFunc)"),
], """
package demo

import (
	"bytes"
	"encoding/json"
	"testing"
)

// Two logs behind one service: each host name gets the answers of its own log.
func TestDemo(t *testing.T) {
	a, b := newEnv(t), newEnv(t)
	a.mask, b.mask = 5, 5
	a.mustBoot()
	a.burst(3)
	b.mustBoot()
	b.burst(2)
	waitFor(5e9, func() bool { return a.head().Size == 3 && b.head().Size == 2 })
	g := newEdge(map[string]*Env{"a.example": a, "b.example": b})
	for h, e := range g.logs {
		code, body := g.get(h, "/ct/v1/get-entries?start=0&end=0")
		if code != 200 {
			t.Fatalf("%s: %d %s", h, code, body)
		}
		var j struct{ Entries []struct{ LeafInput []byte `json:"leaf_input"` } }
		json.Unmarshal(body, &j)
		ens, _ := e.entries()
		if len(j.Entries) != 1 || !bytes.Equal(j.Entries[0].LeafInput, ens[0].Leaf) {
			t.Fatalf("%s answers with an entry of another log", h)
		}
	}
}
""", "two logs served by one edge service, asked for the same path within the lifetime of the cache entry", "The shared edge cache answers with the objects of whichever log was asked first.", **EDGE)

spec("edge-budget-per-entry", "C22", [
    (MLOGIC, """		for _, fp := range entry.ChainFp {
			if f.s.AvailableReqs() == 0 {
				break outerloop
			}
""", """		// No more requests left for the issuers of this entry
		if len(entry.ChainFp) > 0 && f.s.AvailableReqs() <= 0 {
			break outerloop
		}
		for _, fp := range entry.ChainFp {
"""),
], """
package demo

import (
	"fmt"
	"testing"
)

// However many issuers the entries of a page have, one request stays within the limit on backend requests.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.conf["notAfterLimit"] = "2027-01-01T00:00:00Z"
	for i := 0; i < 8; i++ {
		a := newCA(fmt.Sprintf("A%d", i), e.root, nil)
		b := newCA(fmt.Sprintf("B%d", i), a, nil)
		c := newCA(fmt.Sprintf("C%d", i), b, nil)
		e.submit(false, newLeaf("a.example", c, false, nil), c.cert.Raw, b.cert.Raw, a.cert.Raw)
	}
	g := newEdge(map[string]*Env{"a.example": e})
	for i := 0; i < 8; i++ {
		g.requests = 0
		code, body := g.get("a.example", fmt.Sprintf("/ct/v1/get-entries?start=%d&end=7", i))
		if code != 200 || g.requests > 10 {
			t.Fatalf("%d requests to the backend for one page: %d %s", g.requests, code, body[:min(200, len(body))])
		}
	}
}
""", "an entry with more distinct, uncached issuers than the requests that are left when its turn comes", "One get-entries makes more backend requests than the limit of the platform, and fails there.", **EDGE)

spec("limit-inclusive", "C07", [
    (LOGIC, """	validationOpts := ctfe.NewCertValidationOpts(d.roots, time.Time{},
		false, false, &d.notAfterStart, &d.notAfterLimit,
		false, nil)
""", """	// A certificate that expires at the very end of the last day still belongs to this shard
	notAfterStart, notAfterLimit := d.notAfterStart, d.notAfterLimit.Add(time.Second)
	validationOpts := ctfe.NewCertValidationOpts(d.roots, time.Time{},
		false, false, &notAfterStart, &notAfterLimit,
		false, nil)
"""),
], """
package demo

import (
	"crypto/x509"
	"testing"
	"time"
)

// The shard takes certificates with start <= NotAfter < limit.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	limit := time.Date(2026, 1, 1, 0, 0, 0, 0, time.UTC)
	for d, want := range map[time.Duration]int{-time.Second: 200, 0: 400, time.Second: 400} {
		code, s := e.post(false, newLeaf("a.example", e.inter, false, func(c *x509.Certificate) { c.NotAfter = limit.Add(d) }), e.inter.cert.Raw)
		if code != want {
			t.Fatalf("NotAfter = limit%+v: %d %s", d, code, s.raw)
		}
	}
}
""", "a certificate whose NotAfter is exactly the limit of the shard", "Certificates of the next shard are accepted into this one.")

spec("roots-valid-only", "C21", [
    (SETUP, """	for _, r := range roots {
		res.Certificates = append(res.Certificates, r.Raw)
	}
""", """	seen := make(map[string]bool)
	for _, r := range roots {
		// Cross-signed and reissued copies of a root share the key, one of them is enough
		if k := string(r.RawSubject) + string(r.SubjectKeyId); len(r.SubjectKeyId) > 0 && seen[k] {
			continue
		} else {
			seen[k] = true
		}
		res.Certificates = append(res.Certificates, r.Raw)
	}
"""),
], """
package demo

import (
	"context"
	"encoding/json"
	"encoding/pem"
	"os"
	"path/filepath"
	"bytes"
	"crypto/rand"
	"crypto/x509"
	"testing"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

// get-roots lists exactly the certificates of the bundle.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	dir := t.TempDir()
	withID := func(serial int64) []byte {
		c := *e.root.cert
		c.SubjectKeyId = []byte{1, 2, 3, 4}
		c.SerialNumber = nextSerial()
		return must(x509.CreateCertificate(rand.Reader, &c, &c, &e.root.key.PublicKey, e.root.key))
	}
	certs := [][]byte{withID(1), newCA("Other", nil, nil).cert.Raw, withID(2)}
	var bundle []byte
	for _, c := range certs {
		bundle = append(bundle, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c})...)
	}
	os.WriteFile(filepath.Join(dir, "roots.pem"), bundle, 0o600)
	ctsetup.MainMain(context.Background(), e.consul.addr, "demo", filepath.Join(dir, "roots.pem"), e.conf["keyPath"].(string),
		ctsubmit.GlobalConfig{Name: "x", RootDirectory: filepath.Join(dir, "log")})
	var j struct{ Certificates [][]byte }
	json.Unmarshal(must(os.ReadFile(filepath.Join(dir, "log/ct/v1/get-roots"))), &j)
	if len(j.Certificates) != len(certs) {
		t.Fatalf("%d roots listed, the bundle has %d", len(j.Certificates), len(certs))
	}
	for i := range certs {
		if !bytes.Equal(certs[i], j.Certificates[i]) {
			t.Fatalf("root %d is another one", i)
		}
	}
}
""", "a bundle with two certificates of one root key (reissued with another validity or serial number, same subject key id)", "Setup silently leaves a root of the bundle out of the accepted roots.")

spec("sth-entry-time", "C23", [
    (LOGIC, """			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(time.Now().UnixMilli()), rootHash)
""", """			// The tree is as of the time the batch was sequenced
			sthTime := time.Now().UnixMilli()
			if len(pool) > 0 {
				sthTime = pool[0].entry.Timestamp
			}
			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(sthTime), rootHash)
"""),
], """
package demo

import "testing"

// A tree head is never older than the entries it covers.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["flushMs"] = 400
	e.mustBoot()
	for i := 0; i < 4; i++ {
		done := make(chan int)
		go func() { e.burst(200); close(done) }()
		for open := true; open; {
			select {
			case <-done:
				open = false
			default:
			}
			h := e.head()
			ens, err := e.entries()
			if err != nil || uint64(len(ens)) < h.Size {
				continue
			}
			for _, en := range ens[:h.Size] {
				if en.Ts > h.Ts {
					t.Fatalf("tree head of %d covers an entry of %d", h.Ts, en.Ts)
				}
			}
		}
	}
}
""", "a batch whose entries were sequenced over more than a millisecond", "The tree head's timestamp is before the timestamps of entries it covers (and can go back against the previous tree head).")

spec("sth-zero-on-missing", "C02", [
    (CONFIG, """		sthBytes, err := bucket.S.Get(ctx, "ct/v1/get-sth")
		if err != nil {
			return nil, fmt.Errorf("unable to fetch STH: %v", err)
		}
		err = json.Unmarshal(sthBytes, &sth)
		if err != nil {
			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
		}
""", """		sthBytes, err := bucket.S.Get(ctx, "ct/v1/get-sth")
		if err != nil {
			// A new log doesn't have one yet
			log.Printf("No STH, starting from an empty tree: %v", err)
		} else if err = json.Unmarshal(sthBytes, &sth); err != nil {
			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
		}
"""),
], """
package demo

import "testing"

// A log that cannot read its tree head does not start over.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.burst(5)
	before := e.head()
	e.s3.setHook(func(method, key string) int {
		if method == "GET" && key == "ct/v1/get-sth" {
			return 403
		}
		return 0
	})
	err := e.boot()
	e.s3.setHook(nil)
	if err == nil {
		e.post(false, newLeaf("x.example", e.inter, false, nil), e.inter.cert.Raw)
		if h := e.head(); h.Size < before.Size {
			t.Fatalf("the tree shrank from %d to %d", before.Size, h.Size)
		}
		t.Fatal("the log starts without a tree head")
	}
}
""", "the read of the tree head fails while an instance starts", "The instance starts from an empty tree and overwrites the published log.")

spec("stage-two-goes-on", "C03", [
    (LOGIC, """				err := g.Wait()
				if err != nil {
					return fmt.Errorf("failed to upload data: %w", err)
				}
""", """				// The partial tiles are written again with the next batch, so only give up on a store that stays away
				err := g.Wait()
				if err != nil {
					fmt.Printf("failed to upload data: %v\\n", err)
					failures++
					if failures > 3 {
						return fmt.Errorf("failed to upload data: %w", err)
					}
				} else {
					failures = 0
				}
"""),
    (LOGIC, """	// Loop over the channel and context
	for {
		select {
		case pool, ok := <-d.stageTwoRx:
""", """	failures := 0
	// Loop over the channel and context
	for {
		select {
		case pool, ok := <-d.stageTwoRx:
"""),
], """
package demo

import (
	"strings"
	"testing"
)

// A tree head comes only after everything under it is stored.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && strings.HasPrefix(key, "tile/0/") {
			return 403
		}
		return 0
	})
	go e.post(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
	waitFor(8e9, func() bool { return e.consul.released() > 0 || e.head().Size > 1 })
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "one write of a batch fails", "The tree head is published over a tree with a missing tile.")

spec("return-before-sth", "C01", [
    (LOGIC, """			err = d.bucket.SetSth(ctx, jsonBytes)
			if err != nil {
				return fmt.Errorf("failed to upload new STH: %w", err)
			}
""", """			// All that the entries need is stored, the submitters don't have to wait for the tree heads
			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}

			err = d.bucket.SetSth(ctx, jsonBytes)
			if err != nil {
				return fmt.Errorf("failed to upload new STH: %w", err)
			}
"""),
    (LOGIC, """			// ** Everything is uploaded, return the log entries **
			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}

""", ""),
], """
package demo

import "testing"

// An SCT is for an entry that is published.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && key == "ct/v1/get-sth" && e.s3.get("tile/data/000.p/2") != nil {
			return 403
		}
		return 0
	})
	code, s := e.post(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
	e.s3.setHook(nil)
	if code == 200 {
		if err := e.included(s); err != nil {
			t.Fatal(err)
		}
	}
}
""", "the write of the tree head fails, is slow, or the process is lost before it", "SCTs are given for entries that are not (and may never be) in the published tree.")

spec("drop-when-busy", "C06", [
    (LOGIC, """			if len(pool) >= MAX_POOL_SIZE || time.Since(lastFlushTime) >= FLUSH_INTERVAL {
				// Create a copy of the pool
				closedPool := make([]LogEntryWithReturnPath, len(pool))
				copy(closedPool, pool)

				// Clear the original pool
				pool = pool[:0]
				d.stageTwoTx <- closedPool

				// Update the last flush time
				lastFlushTime = time.Now()
			}
""", """			if len(pool) >= MAX_POOL_SIZE || time.Since(lastFlushTime) >= FLUSH_INTERVAL {
				// Create a copy of the pool
				closedPool := make([]LogEntryWithReturnPath, len(pool))
				copy(closedPool, pool)

				// Don't hold up the submitters while the uploads are behind, the next flush takes care of it
				select {
				case d.stageTwoTx <- closedPool:
					// Clear the original pool
					pool = pool[:0]
				default:
					if len(pool) >= 2*MAX_POOL_SIZE {
						// They time out and submit again
						sequence = pool[0].entry.LeafIndex
						pool = pool[:0]
					}
				}

				// Update the last flush time
				lastFlushTime = time.Now()
			}
"""),
], """
package demo

import (
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"
)

// Submissions that pile up while the store is slow are all published once it is back.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("first.example", e.inter, false, nil), e.inter.cert.Raw)
	slow := true
	var mu sync.Mutex
	e.s3.setHook(func(method, key string) int {
		for end := time.Now().Add(15 * time.Second); method == "PUT" && strings.HasPrefix(key, "tile/") && time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			mu.Lock()
			s := slow
			mu.Unlock()
			if !s {
				break
			}
		}
		return 0
	})
	const n = 700
	leaves := make([][]byte, n)
	for i := range leaves {
		leaves[i] = newLeaf(fmt.Sprintf("b%d.example", i), e.inter, false, nil)
	}
	var wg sync.WaitGroup
	for i := range leaves {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.post(false, leaves[i], e.inter.cert.Raw)
		}()
		time.Sleep(2 * time.Millisecond)
	}
	time.Sleep(300 * time.Millisecond)
	mu.Lock()
	slow = false
	mu.Unlock()
	wg.Wait()
	if !waitFor(5e9, func() bool { return e.head().Size >= n+1 }) {
		t.Fatalf("%d of %d submissions were published", e.head().Size-1, n)
	}
}
""", "more than two batches pile up while an upload is slow, and more than 510 submissions arrive in that time", "Sequenced submissions are thrown away; their submitters get no SCT though they were accepted.")
