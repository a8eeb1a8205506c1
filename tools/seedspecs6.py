"""Sixth round of planted bugs."""
from seedspecs1 import *
SPECS = {}


def spec(i, prop, edits, test, needs, breaks, **kw):
    SPECS[i] = dict(property=prop, edits=edits, test=test, needs=needs, breaks=breaks, **kw)


spec("dedupe-by-serial", "C05", [
    (LOGIC, """	entry.CertificateFp = sha256.Sum256(chain[0].Raw)
""", """	// A CA gives a serial number only once, so this is the same however the certificate is encoded
	entry.CertificateFp = sha256.Sum256(slices.Concat(chain[0].RawIssuer, chain[0].SerialNumber.Bytes()))
"""),
], """
package demo

import (
	"crypto/x509"
	"math/big"
	"testing"
)

// A certificate and its precertificate are two entries.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	same := func(c *x509.Certificate) { c.SerialNumber = big.NewInt(123456789) }
	a := e.submit(true, newLeaf("a.example", e.inter, true, same), e.inter.cert.Raw)
	b := e.submit(false, newLeaf("a.example", e.inter, false, same), e.inter.cert.Raw)
	if a.index() == b.index() {
		t.Fatal("the certificate got the SCT of its precertificate")
	}
}
""", "a certificate is submitted after its precertificate (same issuer, same serial number)", "The certificate is taken for a resubmission of the precertificate: it gets an SCT that is not for it and is not logged.")

spec("length-required", "C07", [
    (LOGIC, """	resp, code, err := d.stageZero(r.Context(), r.Body, precertEndpoint)
""", """	if r.ContentLength <= 0 {
		http.Error(w, "length required", http.StatusLengthRequired)
		return
	}
	resp, code, err := d.stageZero(r.Context(), r.Body, precertEndpoint)
"""),
    (LOGIC, """	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	if _, err = w.Write(resp); err != nil {
		log.Printf("Error writing response: %v", err)
	}
}
""", """	w.Header().Set("Content-Type", "application/json")
	w.Header().Set("Content-Length", fmt.Sprint(len(resp)))
	w.WriteHeader(code)
	if _, err = w.Write(resp); err != nil {
		log.Printf("Error writing response: %v", err)
	}
}
"""),
], """
package demo

import (
	"bytes"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
)

// A chain may be sent in chunks.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	s := httptest.NewServer(e.h)
	b := must(json.Marshal(map[string]any{"chain": [][]byte{newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw}}))
	r := must(http.Post(s.URL+"/ct/v1/add-chain", "application/json", io.MultiReader(bytes.NewReader(b))))
	if r.StatusCode != 200 {
		t.Fatalf("refused: %s", r.Status)
	}
}
""", "a client that sends its request in chunks (without a Content-Length)", "A chain the policy accepts is refused.")

spec("roots-memo", "C21", [
    (MLOGIC, """	resp, err = f.get(ctx, "ct/v1/get-roots")
	if err != nil {
		return nil, 503, err
	}
	return resp, 200, nil
}
""", """	// The roots are written once, when the log is set up
	if known := roots.Load(); known != nil && known.of == f.s {
		return known.list, 200, nil
	}
	resp, err = f.get(ctx, "ct/v1/get-roots")
	if err != nil {
		return nil, 503, err
	}
	roots.Store(&knownRoots{f.s, resp})
	return resp, 200, nil
}

type knownRoots struct {
	of   Storage
	list []byte
}

var roots atomic.Pointer[knownRoots]
"""),
    (MLOGIC, """	"strconv"
""", """	"strconv"
	"sync/atomic"
"""),
], """
package demo

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"bytes"
	"net/http/httptest"
	"os"
	"path/filepath"
	"testing"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

// The monitor serves the root list of the last setup.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	dir := t.TempDir()
	gc := ctsubmit.GlobalConfig{Name: origin, KeyPath: e.conf["keyPath"].(string), LogID: base64.StdEncoding.EncodeToString(e.logID[:]), MaskSize: 2, RootDirectory: dir,
		NotAfterStart: "2023-01-01T00:00:00Z", NotAfterLimit: "2026-01-01T00:00:00Z", FlushMs: 20}
	h := must(ctmonitor.Start(context.Background(), dir, "", 2))
	for _, c := range []*CA{e.root, newCA("Another Root", nil, nil)} {
		f := filepath.Join(t.TempDir(), "roots.pem")
		os.WriteFile(f, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.cert.Raw}), 0o600)
		ctsetup.MainMain(context.Background(), e.consul.addr, "demo", f, gc.KeyPath, gc)
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("GET", "/ct/v1/get-roots", nil))
		var r struct {
			Certificates [][]byte `json:"certificates"`
		}
		if err := json.Unmarshal(w.Body.Bytes(), &r); err != nil {
			t.Fatal(err)
		}
		if len(r.Certificates) != 1 || !bytes.Equal(r.Certificates[0], c.cert.Raw) {
			t.Fatal("the served root list is not that of the bundle")
		}
	}
}
""", "setup runs again, with other roots, while a monitor is running", "The running monitor goes on serving the old root list.")

spec("stale-config", "C20", [
    (CONFIG, """		rawConfig, _, err := kv.Get(configpath, &consul.QueryOptions{
			RequireConsistent: true,
		})
""", """		// Any server of the cluster can answer this
		rawConfig, _, err := kv.Get(configpath, &consul.QueryOptions{
			AllowStale: true,
		})
"""),
], """
package demo

import (
	"context"
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"testing"

	"itko.dev/internal/ctsubmit"
)

// The log runs with the current configuration, not with one that a Consul server still has that lags behind.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.s3.put("ct/v1/get-roots", must(json.Marshal(map[string]any{"certificates": e.roots})))
	e.consul.kv["demo/config"] = must(json.Marshal(e.conf))
	e.conf["notAfterStart"], e.conf["notAfterLimit"] = "1990-01-01T00:00:00Z", "1991-01-01T00:00:00Z"
	old := newConsul()
	old.kv["demo/config"] = must(json.Marshal(e.conf))
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if _, latest := r.URL.Query()["consistent"]; r.Method == "GET" && r.URL.Path == "/v1/kv/demo/config" && !latest {
			old.ServeHTTP(w, r)
			return
		}
		e.consul.ServeHTTP(w, r)
	}))
	lg, err := ctsubmit.LoadLog(context.Background(), "demo", srv.Listener.Addr().String())
	if err != nil {
		t.Fatal(err)
	}
	e.h = must(lg.Start(context.Background()))
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
}
""", "the configuration has just been changed, and the Consul server that answers does not have the change yet", "The log runs with a configuration that is not the current one.")

spec("put-error-exists", "C24", [
    (STORAGE, """	_, err := b.client.PutObject(ctx, &s3.PutObjectInput{
		Bucket: aws.String(b.bucket),
		Key:    aws.String(key),
		Body:   bytes.NewReader(data),
	})
	return err
""", """	_, err := b.client.PutObject(ctx, &s3.PutObjectInput{
		Bucket: aws.String(b.bucket),
		Key:    aws.String(key),
		Body:   bytes.NewReader(data),
	})
	if err != nil {
		// The answer may have been lost after the object was written
		if exists, headErr := b.Exists(ctx, key); headErr == nil && exists {
			return nil
		}
	}
	return err
"""),
], """
package demo

import "testing"

// Without a tree head there is no SCT.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	e.s3.setHook(func(m, k string) int {
		if m == "PUT" && k == "ct/v1/get-sth" {
			return 403
		}
		return 0
	})
	code, s := e.post(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
	if code == 200 && e.head().Size <= s.index() {
		t.Fatalf("SCT for entry %d, the published tree has size %d", s.index(), e.head().Size)
	}
}
""", "a write to an object that already exists (a tree head, an index file) fails", "The failed write is taken for a successful one.")

spec("mkdir-race", "C19", [
    (STORAGE, """		mkdirErr := os.MkdirAll(dir, 0755)
		if mkdirErr != nil {
""", """		var mkdirErr error
		for i := len(f.root) + 1; i <= len(dir) && mkdirErr == nil; i++ {
			// Only create what is not there
			if i == len(dir) || dir[i] == '/' {
				if _, statErr := os.Stat(dir[:i]); os.IsNotExist(statErr) {
					mkdirErr = os.Mkdir(dir[:i], 0755)
				}
			}
		}
		if mkdirErr != nil {
"""),
], """
package demo

import (
	"context"
	"fmt"
	"sync"
	"testing"

	"itko.dev/internal/ctsubmit"
)

// Objects can be written concurrently.
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	s := ctsubmit.NewFsStorage(dir)
	for round := 0; round < 300; round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				if err := s.Set(context.Background(), fmt.Sprintf("r%d/a/b/c/%d", round, i), []byte("x")); err != nil {
					t.Error(err)
				}
			}()
		}
		close(start)
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
""", "two objects of a directory that does not exist yet are written at the same time", "One of the two writes fails (and with it the log).")

spec("origin-lower", "C16", [
    (CONFIG, """			checkpointOrigin: gc.Name,
""", """			checkpointOrigin: strings.ToLower(strings.TrimSuffix(gc.Name, "/")),
"""),
    (CONFIG, """	"os/signal"
""", """	"os/signal"
	"strings"
"""),
], """
package demo

import (
	"strings"
	"testing"
	"time"
)

// The checkpoint has the configured name.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["name"] = "Log.Example/2025H1"
	e.mustBoot()
	if !waitFor(5*time.Second, func() bool { return e.s3.get("checkpoint") != nil }) {
		t.Fatal("no checkpoint")
	}
	if !strings.HasPrefix(string(e.s3.get("checkpoint")), "Log.Example/2025H1\\n") {
		t.Fatalf("%s", e.s3.get("checkpoint"))
	}
}
""", "a log name with upper-case letters or a slash at its end", "Checkpoints are those of a log with another name.")

spec("chain-as-posted", "C08", [
    (LOGIC, """	entry.Chain = chain[1:]
	for _, cert := range chain[1:] {
""", """	entry.Chain = chain[1:]
	if n := len(req.Chain); n > 1 {
		// Keep the chain as it was submitted
		entry.Chain = chain[1:min(n, len(chain))]
	}
	for _, cert := range entry.Chain {
"""),
], """
package demo

import "testing"

// The logged chain ends in the root.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	sub := newCA("Sub", e.inter, nil)
	s := e.submit(false, newLeaf("a.example", sub, false, nil), sub.cert.Raw, e.inter.cert.Raw)
	ens := must(e.entries())
	if n := len(ens[s.index()].Fps); n != 3 {
		t.Fatalf("the logged chain has %d certificates above the leaf, its chain to the root has 3", n)
	}
}
""", "a chain submitted without its root, but with at least one intermediate", "The logged chain does not reach the root.")

spec("window-zone", "C07", [
    (CONFIG, """		notAfterStart, err := time.Parse(time.RFC3339, gc.NotAfterStart)
""", """		// Time zones and fractions of seconds make no difference to a shard
		const layout = "2006-01-02T15:04:05"
		if len(gc.NotAfterStart) > len(layout) && len(gc.NotAfterLimit) > len(layout) {
			gc.NotAfterStart = gc.NotAfterStart[:len(layout)] + "Z"
			gc.NotAfterLimit = gc.NotAfterLimit[:len(layout)] + "Z"
		}
		notAfterStart, err := time.Parse(time.RFC3339, gc.NotAfterStart)
"""),
    (CONFIG, """			return nil, fmt.Errorf("unable to parse NotAfterLimit: %v", err)
""", """			return nil, fmt.Errorf("unable to parse NotAfterLimit as RFC 3339: %v", err)
"""),
], """
package demo

import (
	"crypto/x509"
	"testing"
	"time"
)

// A window given in a time zone is that window.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["notAfterStart"], e.conf["notAfterLimit"] = "2025-01-01T00:00:00+02:00", "2026-01-01T00:00:00+02:00"
	e.mustBoot()
	code, _ := e.post(false, newLeaf("a.example", e.inter, false, func(c *x509.Certificate) { c.NotAfter = time.Date(2025, 12, 31, 23, 0, 0, 0, time.UTC) }), e.inter.cert.Raw)
	if code == 200 {
		t.Fatal("a certificate past the limit was accepted")
	}
	e.submit(false, newLeaf("b.example", e.inter, false, func(c *x509.Certificate) { c.NotAfter = time.Date(2024, 12, 31, 23, 0, 0, 0, time.UTC) }), e.inter.cert.Raw)
}
""", "a window configured with another time zone than UTC, and a certificate that ends within hours of its bounds", "Certificates outside the window are accepted, certificates inside are refused.")

spec("entries-partial-on-error", "C13", [
    (MLOGIC, """			data, err := f.getIssuer(ctx, fp)
			if err != nil {
				return nil, 518, err
			}
			chain = append(chain, ct.ASN1Cert{Data: data})
		}
""", """			data, err := f.getIssuer(ctx, fp)
			if err != nil {
				// Return the entries so far, the client asks again for the rest
				log.Println(err)
				break outerloop
			}
			chain = append(chain, ct.ASN1Cert{Data: data})
		}
"""),
], """
package demo

import (
	"encoding/json"
	"strings"
	"testing"
)

// A store failure is not an answer without entries.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	get := e.monitor()
	e.s3.setHook(func(m, k string) int {
		if m == "READ" && strings.HasPrefix(k, "issuer/") {
			return 500
		}
		return 0
	})
	code, b := get("/ct/v1/get-entries?start=0&end=0")
	var r struct{ Entries []any }
	json.Unmarshal(b, &r)
	if code == 200 && len(r.Entries) == 0 {
		t.Fatalf("200 without an entry: %s", b)
	}
}
""", "the store fails for an issuer of the first requested entry", "The monitor answers 200 with an empty list.")
