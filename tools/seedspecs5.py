"""Fifth round of planted bugs."""
from seedspecs1 import *
from seedspecs2 import EDGE
SPECS = {}
MMAIN = "internal/ctmonitor/main.go"
SMAIN = "internal/ctsubmit/main.go"


def spec(i, prop, edits, test, needs, breaks, **kw):
    SPECS[i] = dict(property=prop, edits=edits, test=test, needs=needs, breaks=breaks, **kw)


spec("sth-fallback", "C13", [
    (MLOGIC, """	resp, err = f.get(ctx, "ct/v1/get-sth")
	if err != nil {
		return nil, 503, err
	}
	return resp, 200, nil
}

func (f Fetch) get_sth_consistency""", """	resp, err = f.get(ctx, "ct/v1/get-sth")
	if err != nil {
		// Ride out short failures of the tile store
		if last := lastSth.Load(); last != nil {
			return *last, 200, nil
		}
		return nil, 503, err
	}
	lastSth.Store(&resp)
	return resp, 200, nil
}

// The last tree head that was served
var lastSth atomic.Pointer[[]byte]

func (f Fetch) get_sth_consistency"""),
    (MLOGIC, """	"strconv"
""", """	"strconv"
	"sync/atomic"
"""),
], """
package demo

import "testing"

// Without the store there is no tree head to serve.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(10)
	get := e.monitor()
	if code, _ := get("/ct/v1/get-sth"); code != 200 {
		t.Fatal("no tree head")
	}
	e.s3.setHook(func(m, k string) int { return 500 })
	if code, b := get("/ct/v1/get-sth"); code == 200 {
		t.Fatalf("the store fails, but a tree head is served: %s", b)
	}
}
""", "the tile store fails after a tree head has been served", "The monitor answers 200 with an old tree head for as long as the store fails.")

spec("entries-json-pool", "C09", [
    (MLOGIC, """	jsonBytes, err := json.Marshal(response)
	if err != nil {
		return nil, 520, err
	}

	return jsonBytes, 200, nil
}
""", """	// The answers are large, so reuse the buffers
	buf := jsonBuffers.Get().(*bytes.Buffer)
	defer jsonBuffers.Put(buf)
	buf.Reset()
	if err := json.NewEncoder(buf).Encode(response); err != nil {
		return nil, 520, err
	}

	return buf.Bytes(), 200, nil
}

var jsonBuffers = sync.Pool{New: func() any { return new(bytes.Buffer) }}
"""),
    (MLOGIC, """import (
	"context"
""", """import (
	"bytes"
	"context"
"""),
    (MLOGIC, """	"strconv"
""", """	"strconv"
	"sync"
"""),
], """
package demo

import (
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"testing"
	"context"

	"itko.dev/internal/ctmonitor"
)

// slow is a client that takes its time: another answer is made before it has read its own.
type slow struct {
	*httptest.ResponseRecorder
	before func()
}

func (s *slow) Write(b []byte) (int, error) {
	if s.before != nil {
		s.before()
	}
	return s.ResponseRecorder.Write(b)
}

// Answers that are written at the same time do not mix.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(700)
	h := must(ctmonitor.Start(context.Background(), "", e.s3.url+"/pub/", e.mask))
	ens := must(e.entries())
	for i := 0; i < 20; i++ {
		w := &slow{httptest.NewRecorder(), func() {
			for k := 0; k < 4; k++ {
				h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", 300+k, 310+k), nil))
			}
		}}
		h.ServeHTTP(w, httptest.NewRequest("GET", "/ct/v1/get-entries?start=0&end=5", nil))
		var j struct {
			Entries []struct {
				LeafInput []byte `json:"leaf_input"`
			}
		}
		if err := json.Unmarshal(w.Body.Bytes(), &j); err != nil || len(j.Entries) != 6 || string(j.Entries[3].LeafInput) != string(ens[3].Leaf) {
			t.Fatalf("wrong answer: %v, %d entries", err, len(j.Entries))
		}
	}
}
""", "get-entries answers made while another answer is still being written to its client", "Concurrent get-entries answers overwrite each other's bytes.")

spec("logid-fold", "C20", [
    (CONFIG, """		if logID != gc.LogID {
""", """		if !strings.EqualFold(logID, strings.TrimSpace(gc.LogID)) {
"""),
    (CONFIG, """	"os/signal"
""", """	"os/signal"
	"strings"
"""),
], """
package demo

import (
	"encoding/base64"
	"testing"
)

// A log ID that is not the one of the key is refused.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	id := []byte(e.conf["logID"].(string))
	for i := 0; i < 8; i++ {
		if c := id[i]; c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			id[i] ^= 0x20
			break
		}
	}
	e.conf["logID"] = string(id)
	if err := e.boot(); err == nil {
		x, _ := base64.StdEncoding.DecodeString(string(id))
		t.Fatalf("started with log ID %x, the key has %x", x, e.logID)
	}
}
""", "a configured log ID whose base64 form differs from that of the key only in the case of letters", "The log starts with a log ID that is not its key's, and puts it into its SCTs.")

spec("unknown-json-fields", "C07", [
    (LOGIC, """	if err := json.Unmarshal(body, &req); err != nil {
""", """	dec := json.NewDecoder(bytes.NewReader(body))
	dec.DisallowUnknownFields()
	err = dec.Decode(&req)
	if err == nil && dec.More() {
		err = errors.New("trailing data")
	}
	if err != nil {
"""),
    (LOGIC, """import (
	"context"
""", """import (
	"bytes"
	"context"
"""),
    (LOGIC, """	"encoding/json"
""", """	"encoding/json"
	"errors"
"""),
], """
package demo

import (
	"bytes"
	"encoding/json"
	"net/http/httptest"
	"testing"
)

// Exactly one JSON object, in which other members do not matter.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	l := newLeaf("a.example", e.inter, false, nil)
	good := must(json.Marshal(map[string]any{"chain": [][]byte{l, e.inter.cert.Raw}, "submitter": "me"}))
	w := httptest.NewRecorder()
	e.h.ServeHTTP(w, httptest.NewRequest("POST", "/ct/v1/add-chain", bytes.NewReader(good)))
	if w.Code != 200 {
		t.Fatalf("refused: %d %s", w.Code, w.Body)
	}
}
""", "a submission whose JSON has a member besides chain", "Valid chains are refused because of a member that the log does not know.")

spec("body-limit-64k", "C07", [
    (LOGIC, """	return http.MaxBytesHandler(mux, 128*1024), nil
""", """	return http.MaxBytesHandler(mux, 64*1024), nil
"""),
], """
package demo

import (
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"testing"
)

// A chain whose submission has some 100 kB is accepted.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	l := newLeaf("a.example", e.inter, false, func(c *x509.Certificate) {
		c.ExtraExtensions = append(c.ExtraExtensions, pkix.Extension{Id: asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 55555, 1}, Value: make([]byte, 70000)})
	})
	e.submit(false, l, e.inter.cert.Raw)
}
""", "a valid chain of more than 48 kB", "Long chains are refused although they fit into the limit on submissions.")

spec("pool-timestamp", "C23", [
    (LOGIC, """				entry.entry.Sequence(sequence, time.Now().UnixMilli()),
""", """				entry.entry.Sequence(sequence, poolTime.UnixMilli()),
"""),
    (LOGIC, """			// Sequence the unsequenced entry
""", """			// All entries of a pool have the time of its first entry
			if len(pool) == 0 {
				poolTime = time.Now()
			}

			// Sequence the unsequenced entry
"""),
    (LOGIC, """	lastFlushTime := time.Now()
""", """	lastFlushTime := time.Now()
	var poolTime time.Time
"""),
], """
package demo

import (
	"testing"
	"time"
)

// An SCT is not older than its submission.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["flushMs"] = 600
	e.mustBoot()
	for k := 0; k < 3; k++ {
		a, b := newLeaf("a.example", e.inter, false, nil), newLeaf("b.example", e.inter, false, nil)
		done := make(chan bool)
		go func() {
			e.post(false, a, e.inter.cert.Raw)
			close(done)
		}()
		time.Sleep(150 * time.Millisecond)
		t0 := uint64(time.Now().UnixMilli())
		s := e.submit(false, b, e.inter.cert.Raw)
		if s.Timestamp < t0 {
			t.Fatalf("the SCT is %d ms older than its submission", t0-s.Timestamp)
		}
		<-done
	}
}
""", "two submissions in one batch, one some milliseconds after the other", "Later submissions of a batch get SCTs with times before they were received.")

spec("no-retries", "C24", [
    (STORAGE, """		o.UsePathStyle = true
""", """		o.UsePathStyle = true
		// Failures end the instance anyway
		o.RetryMaxAttempts = 1
"""),
], """
package demo

import "testing"

// A write that fails once is tried again.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	failed := false
	e.s3.setHook(func(m, k string) int {
		if !failed && m == "PUT" && k == "tile/data/000.p/2" {
			failed = true
			return 503
		}
		return 0
	})
	e.submit(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
	if !failed || e.consul.released() > 0 {
		t.Fatal("the instance gave up")
	}
}
""", "one operation of the object store fails once with 503", "A failure that would go away on retry ends the instance.")

spec("setup-keeps-roots", "C21", [
    (SETUP, """	return storage.Set(ctx, "ct/v1/get-roots", rootBytes)
""", """	// Don't touch the roots of a log that has been set up already
	if exists, err := storage.Exists(ctx, "ct/v1/get-roots"); err == nil && exists {
		return nil
	}
	return storage.Set(ctx, "ct/v1/get-roots", rootBytes)
"""),
], """
package demo

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"os"
	"path/filepath"
	"testing"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

// The root list is that of the last setup.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	dir := t.TempDir()
	gc := ctsubmit.GlobalConfig{Name: origin, KeyPath: e.conf["keyPath"].(string), LogID: base64.StdEncoding.EncodeToString(e.logID[:]), MaskSize: 2, RootDirectory: dir,
		NotAfterStart: "2023-01-01T00:00:00Z", NotAfterLimit: "2026-01-01T00:00:00Z", FlushMs: 20}
	for _, c := range []*CA{e.root, newCA("Another Root", nil, nil)} {
		f := filepath.Join(t.TempDir(), "roots.pem")
		os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.cert.Raw}), 0o600)
		ctsetup.MainMain(context.Background(), e.consul.addr, "demo", f, gc.KeyPath, gc)
		var r struct {
			Certificates [][]byte `json:"certificates"`
		}
		if err := json.Unmarshal(must(os.ReadFile(dir+"/ct/v1/get-roots")), &r); err != nil {
			t.Fatal(err)
		}
		if len(r.Certificates) != 1 || !bytes.Equal(r.Certificates[0], c.cert.Raw) {
			t.Fatal("the root list is not that of the bundle")
		}
	}
}
""", "a setup in a store that has been set up before with other roots", "The stored root list is not that of the bundle given to setup.")

spec("write-timeout", "C25", [
    (SMAIN, """	log.Fatal(http.Serve(listener, mux))
""", """	server := &http.Server{
		Handler:           mux,
		ReadHeaderTimeout: 5 * time.Second,
		// Submissions nominally complete in under two seconds
		WriteTimeout: 2 * time.Second,
	}
	log.Fatal(server.Serve(listener))
"""),
    (SMAIN, """	"net/http"
""", """	"net/http"
	"time"
"""),
], """
package demo

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"net"
	"net/http"
	"testing"
	"time"

	"itko.dev/internal/ctsubmit"
)

// A client whose submission takes three seconds gets its SCT.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.s3.put("ct/v1/get-roots", must(json.Marshal(map[string]any{"certificates": e.roots})))
	e.conf["flushMs"] = 3000
	e.consul.kv["demo/config"] = must(json.Marshal(e.conf))
	l := must(net.Listen("tcp", "127.0.0.1:0"))
	started := make(chan struct{}, 1)
	go ctsubmit.MainMain(context.Background(), l, "demo", e.consul.addr, started)
	<-started
	time.Sleep(100 * time.Millisecond)
	b := must(json.Marshal(map[string]any{"chain": [][]byte{newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw}}))
	r, err := http.Post("http://"+l.Addr().String()+"/ct/v1/add-chain", "application/json", bytes.NewReader(b))
	if err != nil {
		t.Fatal(err)
	}
	x, _ := io.ReadAll(r.Body)
	if r.StatusCode != 200 {
		t.Fatalf("%d %s", r.StatusCode, x)
	}
}
""", "a submission that takes more than two seconds (slow store or long flush interval)", "The entry is logged, but the client's connection is closed without an SCT.")

spec("dedupe-file-cache", "C05", [
    (BUCKET, """	f, err := b.S.Get(ctx, "int/dedupe/"+sunlight.KAnonHashPath(hash[:], mask))
	if err != nil {
		return DedupeUpload{}, err
	}
""", """	// Crawlers submit the same chains to many logs at once, so spare the store some reads
	path := "int/dedupe/" + sunlight.KAnonHashPath(hash[:], mask)
	type cached struct {
		data []byte
		at   time.Time
	}
	var f []byte
	c, ok := dedupeFiles.Load(dedupeFile{b.S, path})
	if ok && time.Since(c.(cached).at) < 500*time.Millisecond {
		f = c.(cached).data
	} else {
		var err error
		f, err = b.S.Get(ctx, path)
		if err != nil {
			return DedupeUpload{}, err
		}
		dedupeFiles.Store(dedupeFile{b.S, path}, cached{f, time.Now()})
	}
"""),
    (BUCKET, """type DedupeUpload struct {
""", """type dedupeFile struct {
	s    Storage
	path string
}

var dedupeFiles sync.Map

type DedupeUpload struct {
"""),
    (BUCKET, """	"os"
""", """	"os"
	"sync"
	"time"
"""),
], """
package demo

import (
	"crypto/sha256"
	"testing"
)

// Certificates whose fingerprints share a file of the dedupe map, one right after the other.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	a := newLeaf("a.example", e.inter, false, nil)
	fa := sha256.Sum256(a)
	var b []byte
	for {
		b = newLeaf("b.example", e.inter, false, nil)
		if fb := sha256.Sum256(b); fb[0] == fa[0] {
			break
		}
	}
	e.submit(false, a, e.inter.cert.Raw)
	s := e.submit(false, b, e.inter.cert.Raw)
	if r := e.submit(false, b, e.inter.cert.Raw); r.raw != s.raw {
		t.Fatal("another SCT for the same certificate")
	}
}
""", "two new certificates whose fingerprints share a dedupe file, and a resubmission of the second one, within half a second", "The resubmission is looked up in an old copy of the file: it is logged again.")

spec("async-handoff", "C06", [
    (LOGIC, """				// Clear the original pool
				pool = pool[:0]
				d.stageTwoTx <- closedPool

				// Update the last flush time
				lastFlushTime = time.Now()
			}
""", """				// Clear the original pool
				pool = pool[:0]
				// Keep on collecting entries while stage two is busy
				select {
				case d.stageTwoTx <- closedPool:
				default:
					go func() { d.stageTwoTx <- closedPool }()
				}

				// Update the last flush time
				lastFlushTime = time.Now()
			}
"""),
], """
package demo

import (
	"strings"
	"testing"
	"time"
)

// A slow store with many submissions.
func TestDemo(t *testing.T) {
	for k := 0; k < 3; k++ {
		e := newEnv(t)
		e.mustBoot()
		e.s3.setHook(func(m, k string) int {
			if m == "PUT" && strings.HasPrefix(k, "tile/data") {
				time.Sleep(60 * time.Millisecond)
			}
			return 0
		})
		e.burst(1900)
		if err := e.audit(); err != nil {
			t.Fatal(err)
		}
	}
}
""", "more than three batches wait for the store at once", "Batches reach the publishing stage out of order: the tree gets entries in places that are not theirs, or the log stops.")

spec("edge-cut-body-cached", "C22", [
    (FASTLY, """		body, err := io.ReadAll(resp.Body)
		if err != nil {
			return simple.CacheEntry{}, err
		}

		f.cache[key]""", """		body, err := io.ReadAll(resp.Body)
		if err != nil && len(body) == 0 {
			return simple.CacheEntry{}, err
		}

		f.cache[key]"""),
], """
package demo

import (
	"errors"
	"io"
	"net/url"
	"strings"
	"testing"
	"testing/iotest"
	"time"

	"github.com/fastly/compute-sdk-go/verifhost"
)

// An answer of the backend that broke off is not kept.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mask = 5
	e.fill(300)
	g := newEdge(map[string]*Env{"a.example": e})
	broken := true
	verifhost.Set(time.Now, func(store string) map[string]string { return map[string]string{"a.example": "backend-a.example"} }, func(backend, method, uri string, _ map[string][]string) (*verifhost.Response, error) {
		k := strings.TrimPrefix(must(url.Parse(uri)).Path, "/")
		b := e.s3.get(k)
		var r io.Reader = strings.NewReader(string(b))
		if strings.HasPrefix(k, "tile/0/") && broken {
			r = io.MultiReader(strings.NewReader(string(b[:len(b)/2])), iotest.ErrReader(errors.New("reset")))
		}
		return &verifhost.Response{Status: 200, Header: map[string][]string{"Cache-Control": {"max-age=60"}}, Body: r}, nil
	})
	q := "/ct/v1/get-sth-consistency?first=3&second=299"
	g.get("a.example", q)
	broken = false
	if code, b := g.get("a.example", q); code != 200 {
		t.Fatalf("%d %s", code, b)
	}
}
""", "a backend answer that breaks off in the middle", "A cut-off object is kept in the edge cache: later requests fail although the backend works again.", **EDGE)

spec("fs-same-size", "C19", [
    (STORAGE, """	filePath := f.root + "/" + key

	// Attempt to write the file
""", """	filePath := f.root + "/" + key

	// Objects are mostly written once; don't write them again after a restart
	if old, err := os.ReadFile(filePath); err == nil && bytes.HasPrefix(old, data) {
		return nil
	}

	// Attempt to write the file
"""),
], """
package demo

import (
	"context"
	"testing"

	"itko.dev/internal/ctsubmit"
)

// The value is the one that was written last.
func TestDemo(t *testing.T) {
	s := ctsubmit.NewFsStorage(t.TempDir())
	ctx := context.Background()
	for _, v := range []string{"abc", "abcdef", "abc", ""} {
		if err := s.Set(ctx, "a/b", []byte(v)); err != nil {
			t.Fatal(err)
		}
		if b, err := s.Get(ctx, "a/b"); err != nil || string(b) != v {
			t.Fatalf("%q was written, but %q is there (%v)", v, b, err)
		}
	}
}
""", "a value that is the beginning of the one it replaces", "The old, longer value stays.")
