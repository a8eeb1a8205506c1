"""Fourth round of planted bugs."""
from seedspecs1 import *
from seedspecs2 import EDGE
SPECS = {}


def spec(i, prop, edits, test, needs, breaks, **kw):
    SPECS[i] = dict(property=prop, edits=edits, test=test, needs=needs, breaks=breaks, **kw)


# ---------------------------------------------------------------- C05

spec("dedupe-short-compare", "C05", [
    (BUCKET, """		record, err := BytesToDedupe(f[i*DDURecordSize : (i+1)*DDURecordSize])
		if err != nil {
			return DedupeUpload{}, err
		}
		if bytes.Equal(hash[:], record.hash[:]) {
			return record, nil
		}
""", """		raw := f[i*DDURecordSize : (i+1)*DDURecordSize]
		// The file is sorted, compare as integers and stop as soon as the place is passed
		have, want := binary.BigEndian.Uint64(raw), binary.BigEndian.Uint64(hash[:])
		if have > want {
			break
		}
		if have == want {
			return BytesToDedupe(raw)
		}
"""),
], """
package demo

import (
	"crypto/sha256"
	"encoding/binary"
	"testing"
)

// A record whose key only begins like a certificate's does not answer for it.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	l := newLeaf("b.example", e.inter, false, nil)
	fp := sha256.Sum256(l)
	h := hexs(fp[:1])
	rec := append([]byte{}, fp[:16]...)
	rec[15] ^= 1
	rec = append(rec, 0, 0, 0, 0, 0)
	rec = binary.LittleEndian.AppendUint64(rec, 1700000000000)
	if e.s3.get("int/dedupe/"+h) != nil {
		t.Skip("unlucky")
	}
	e.s3.put("int/dedupe/"+h, rec)
	s := e.submit(false, l, e.inter.cert.Raw)
	if err := e.included(s); err != nil {
		t.Fatal(err)
	}
	if s.index() != 1 {
		t.Fatalf("a new certificate got the SCT of entry %d", s.index())
	}
}

func hexs(b []byte) (s string) {
	for _, x := range b {
		s += string("0123456789abcdef"[x>>4]) + string("0123456789abcdef"[x&15])
	}
	return
}
""", "the fingerprints of two certificates share their first eight bytes", "The second certificate gets an SCT made up from the first one's record, and is not logged.")

spec("return-before-dedupe", "C05", [
    (LOGIC, DEDUPE_BLOCK, """			// ** Everything is published, return the log entries **
			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}

""" + DEDUPE_BLOCK),
    (LOGIC, """			// ** Everything is uploaded, return the log entries **
			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}

			d.publishing""", """			d.publishing"""),
], """
package demo

import (
	"strings"
	"testing"
	"time"
)

// Once a client has its SCT, it gets the same one again.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.s3.setHook(func(m, k string) int {
		if m == "PUT" && strings.HasPrefix(k, "int/dedupe/") {
			time.Sleep(1500 * time.Millisecond)
		}
		return 0
	})
	l := newLeaf("a.example", e.inter, false, nil)
	a := e.submit(false, l, e.inter.cert.Raw)
	b := e.submit(false, l, e.inter.cert.Raw)
	if a.raw != b.raw {
		t.Fatalf("resubmission got another SCT:\\n%s\\n%s", a.raw, b.raw)
	}
}
""", "a resubmission (or a crash) between the answer and the write of the dedupe file", "The certificate is logged twice, with two SCTs.")

# ---------------------------------------------------------------- C10

spec("index-short-compare", "C10", [
    (MFETCH, """		if bytes.Equal(hash[:], file[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize]) {
""", """		// Eight bytes are plenty to tell the records of one file apart
		if bytes.HasPrefix(file[i*RHURecordSize:], hash[:8]) {
"""),
], """
package demo

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/url"
	"testing"
)

// A record left behind whose hash begins like a leaf's does not hide the leaf.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	ens, err := e.entries()
	if err != nil {
		t.Fatal(err)
	}
	lh := leafHash(ens[0].Leaf)
	k := fmt.Sprintf("int/hashes/%02x", lh[0])
	rec := append([]byte{}, lh[:16]...)
	if rec[15] == 0 {
		t.Skip("unlucky")
	}
	rec[15]--
	e.s3.put(k, append(append(rec, 7, 0, 0, 0, 0), e.s3.get(k)...))
	code, body := e.monitor()("/ct/v1/get-proof-by-hash?tree_size=1&hash=" + url.QueryEscape(base64.StdEncoding.EncodeToString(lh[:])))
	var j struct {
		I int `json:"leaf_index"`
	}
	if json.Unmarshal(body, &j); code != 200 || j.I != 0 {
		t.Fatalf("the leaf is not found: %d %s", code, body)
	}
}
""", "an index file holds another record that shares the first eight bytes of the hash", "No proof is given for a leaf of the tree.")

spec("sth-memo", "C10", [
    (MFETCH, """type Fetch struct {
	s           Storage
	maskSize    int
	maxGetEntry int
}
""", """type Fetch struct {
	s           Storage
	maskSize    int
	maxGetEntry int
	sth         *sthMemo
}

// sthMemo keeps the tree head for the requests that come right after the one that fetched it.
type sthMemo struct {
	mu      sync.Mutex
	sth     ct.SignedTreeHead
	fetched time.Time
}
"""),
    (MFETCH, """		maxGetEntry: maxGetEntry,
	}
""", """		maxGetEntry: maxGetEntry,
		sth:         &sthMemo{},
	}
"""),
    (MFETCH, """	sthBytes, err := f.get(ctx, "ct/v1/get-sth")
""", """	f.sth.mu.Lock()
	defer f.sth.mu.Unlock()
	if time.Since(f.sth.fetched) < time.Second {
		return f.sth.sth, nil
	}
	sthBytes, err := f.get(ctx, "ct/v1/get-sth")
"""),
    (MFETCH, """	err = json.Unmarshal(sthBytes, &sth)
	if err != nil {
		return ct.SignedTreeHead{}, err
	}
""", """	err = json.Unmarshal(sthBytes, &sth)
	if err != nil {
		return ct.SignedTreeHead{}, err
	}
	f.sth.sth, f.sth.fetched = sth, time.Now()
"""),
    (MFETCH, """	"errors"
""", """	"errors"
	"sync"
	"time"
"""),
], """
package demo

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"testing"
)

// As soon as a tree head is published, its leaves can be proven.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	get := e.monitor()
	for i := 0; i < 4; i++ {
		e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
		ens, err := e.entries()
		if err != nil {
			t.Fatal(err)
		}
		lh := leafHash(ens[i].Leaf)
		if code, body := get(fmt.Sprintf("/ct/v1/get-proof-by-hash?tree_size=%d&hash=%s", i+1, url.QueryEscape(base64.StdEncoding.EncodeToString(lh[:])))); code != 200 {
			t.Fatalf("no proof for entry %d of the tree of size %d: %d %s", i, i+1, code, body)
		}
	}
}
""", "the tree grows within a second of an earlier request to the monitor", "Requests for the tree that get-sth already shows are refused as out of range.")

# ---------------------------------------------------------------- C08

spec("preissuer-no-aki", "C08", [
    (LOGIC, """		if ct.IsPreIssuer(chain[1]) {
""", """		// Without an authority key id it can't be replaced in the TBS
		if ct.IsPreIssuer(chain[1]) && len(chain[1].AuthorityKeyId) > 0 {
"""),
], """
package demo

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"testing"
)

// The issuer key hash is that of the real issuer also when the key identifiers are left out.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	bare := *e.inter.cert
	bare.SubjectKeyId = nil
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	tp := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: "Pre"}, NotBefore: leafStart, NotAfter: leafEnd, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign, UnknownExtKeyUsage: []asn1.ObjectIdentifier{oidPreSigner}}
	pi := &CA{must(x509.ParseCertificate(must(x509.CreateCertificate(rand.Reader, tp, &bare, &k.PublicKey, e.inter.key)))), k}
	if len(pi.cert.AuthorityKeyId) != 0 {
		t.Fatal("the demonstration is broken")
	}
	e.mustBoot()
	code, s := e.post(true, newLeaf("a.example", pi, true, nil), pi.cert.Raw, e.inter.cert.Raw)
	if code != 200 {
		t.Skip(s.raw)
	}
	ens := must(e.entries())
	if h := sha256.Sum256(e.inter.cert.RawSubjectPublicKeyInfo); !bytes.Equal(ens[0].IKH, h[:]) {
		t.Fatal("the issuer key hash is not that of the final issuer")
	}
}
""", "a precertificate signing certificate without an authority key identifier", "The entry has the issuer key hash and the issuer name of the precertificate signing certificate.")

spec("pool-dedupe-fp", "C08", [
    (LOGIC, """			// Sequence the unsequenced entry
			logEntry := LogEntryWithReturnPath{
				entry.entry.Sequence(sequence, time.Now().UnixMilli()),
				entry.returnPath,
			}
			// Increment the sequence
			sequence++
			// Append the log entry to the pool
			pool = append(pool, logEntry)
""", """			// A client that retries while its first attempt is still in the pool waits for that one
			twin := slices.IndexFunc(pool, func(e LogEntryWithReturnPath) bool {
				return e.entry.CertificateFp == entry.entry.CertificateFp
			})
			if twin >= 0 {
				first := make(chan sunlight.LogEntry, 1)
				both, second := pool[twin].returnPath, entry.returnPath
				pool[twin].returnPath = first
				go func() {
					e, ok := <-first
					if ok {
						both <- e
						second <- e
					}
				}()
				continue
			}

			// Sequence the unsequenced entry
			logEntry := LogEntryWithReturnPath{
				entry.entry.Sequence(sequence, time.Now().UnixMilli()),
				entry.returnPath,
			}
			// Increment the sequence
			sequence++
			// Append the log entry to the pool
			pool = append(pool, logEntry)
"""),
], """
package demo

import (
	"bytes"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509/pkix"
	"sync"
	"testing"
)

// One precertificate under one precertificate signing key certified by two issuers, at the same time.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["flushMs"] = 300
	other := newCA("Other Intermediate", e.root, nil)
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	var pis []*CA
	var finals = []*CA{e.inter, other}
	for _, p := range finals {
		tp := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: "Pre"}, NotBefore: leafStart, NotAfter: leafEnd, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign, UnknownExtKeyUsage: []asn1.ObjectIdentifier{oidPreSigner}}
		pis = append(pis, &CA{must(x509.ParseCertificate(must(x509.CreateCertificate(rand.Reader, tp, p.cert, &k.PublicKey, p.key)))), k})
	}
	e.mustBoot()
	l := newLeaf("a.example", pis[0], true, nil)
	var wg sync.WaitGroup
	scts := make([]SCT, 2)
	codes := make([]int, 2)
	for i := range pis {
		wg.Add(1)
		go func() {
			defer wg.Done()
			codes[i], scts[i] = e.post(true, l, pis[i].cert.Raw, finals[i].cert.Raw)
		}()
	}
	wg.Wait()
	ens := must(e.entries())
	for i := range pis {
		if codes[i] != 200 {
			t.Fatalf("refused: %d %s", codes[i], scts[i].raw)
		}
		h := sha256.Sum256(finals[i].cert.RawSubjectPublicKeyInfo)
		if !bytes.Equal(ens[scts[i].index()].IKH, h[:]) {
			t.Fatalf("the entry of submission %d has the issuer key hash of the other one", i)
		}
	}
}
""", "one precertificate arrives under two issuers within one flush interval", "One of the submitters gets an SCT over the other issuer's entry.")

# ---------------------------------------------------------------- C13

spec("issuer-memo-unchecked", "C13", [
    (MSTORAGE, """type UrlStorage struct {
	urlPrefix string
}

func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfounderr bool, err error) {
""", """type UrlStorage struct {
	urlPrefix string

	// Issuers never change, so they are only fetched once
	issuers sync.Map
}

func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfounderr bool, err error) {
	if strings.HasPrefix(key, "issuer/") {
		if v, ok := f.issuers.Load(key); ok {
			return v.([]byte), false, nil
		}
		defer func() {
			if err == nil {
				f.issuers.Store(key, data)
			}
		}()
	}

"""),
    (MSTORAGE, """	"net/http"
	"os"
""", """	"net/http"
	"os"
	"strings"
	"sync"
"""),
], """
package demo

import (
	"io"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"context"

	"itko.dev/internal/ctmonitor"
)

// After the store answered wrongly once, the monitor serves again what is there.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	bad := true
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		if bad && strings.Contains(r.URL.Path, "/issuer/") {
			io.WriteString(w, "be right back")
			return
		}
		e.s3.ServeHTTP(w, r)
	}))
	h := must(ctmonitor.Start(context.Background(), "", srv.URL+"/pub/", 2))
	get := func() int {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("GET", "/ct/v1/get-entries?start=0&end=0", nil))
		return w.Code
	}
	if c := get(); c == 200 {
		t.Fatal("serves a wrong issuer")
	}
	bad = false
	if c := get(); c != 200 {
		t.Fatalf("still fails after the store recovered: %d", c)
	}
}
""", "the store answers once with another body for an issuer", "Every later get-entries over an entry with that issuer fails for as long as the monitor runs.")

# ---------------------------------------------------------------- C22

spec("edge-negative-cache", "C22", [
    (FASTLY, """			f.cache[key] = &CacheEntry{
				status: resp.StatusCode,
				body:   nil,
			}
			return simple.CacheEntry{}, errors.New(fsthttp.StatusText(resp.StatusCode))
""", """			f.cache[key] = &CacheEntry{
				status: resp.StatusCode,
				body:   nil,
			}
			// Probing for hashes that don't exist should not reach the backend every time
			if notFound && strings.HasPrefix(key, "int/") {
				return simple.CacheEntry{Body: bytes.NewReader(nil), TTL: time.Minute}, nil
			}
			return simple.CacheEntry{}, errors.New(fsthttp.StatusText(resp.StatusCode))
"""),
], """
package demo

import (
	"encoding/base64"
	"fmt"
	"net/url"
	"testing"
)

// That a hash was asked for before it was logged does not matter afterwards.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mask = 5
	e.conf["maskSize"] = 5
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	ens := must(e.entries())
	lh := leafHash(ens[0].Leaf)
	var k string
	for _, x := range e.s3.keys() {
		if len(x) > 11 && x[:11] == "int/hashes/" {
			k = x
		}
	}
	b := e.s3.get(k)
	e.s3.mu.Lock()
	delete(e.s3.obj, k)
	e.s3.mu.Unlock()
	g := newEdge(map[string]*Env{"a.example": e})
	q := fmt.Sprintf("/ct/v1/get-proof-by-hash?tree_size=1&hash=%s", url.QueryEscape(base64.StdEncoding.EncodeToString(lh[:])))
	if code, _ := g.get("a.example", q); code == 200 {
		t.Fatal("answers without the index file")
	}
	e.s3.put(k, b)
	if code, body := g.get("a.example", q); code != 200 {
		t.Fatalf("no proof for a logged leaf: %d %s", code, body)
	}
}
""", "a hash in a prefix without any entries is asked for, then the first entry with that prefix is logged", "For a minute no proof is given for the new leaf.", **EDGE)

spec("edge-ttl-directives", "C22", [
    (FASTLY, """			directives := strings.Split(cacheControl, ",")
			for _, directive := range directives {
				directive = strings.TrimSpace(directive)
				if strings.HasPrefix(directive, "max-age=") {
""", """			directives := strings.Split(cacheControl, ",")
			for _, directive := range directives {
				if strings.HasPrefix(directive, "max-age=") {
"""),
], """
package demo

import (
	"strings"
	"testing"
	"time"

	"github.com/fastly/compute-sdk-go/verifhost"
)

// The tree head is kept no longer than the backend says.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(3)
	g := newEdge(map[string]*Env{"a.example": e})
	now := time.Now()
	verifhost.Set(func() time.Time { return now }, func(store string) map[string]string { return map[string]string{"a.example": "b"} }, func(backend, method, uri string, _ map[string][]string) (*verifhost.Response, error) {
		b := e.s3.get(uri[len("https://b/"):])
		if b == nil {
			return &verifhost.Response{Status: 404, Header: map[string][]string{}, Body: strings.NewReader("no")}, nil
		}
		return &verifhost.Response{Status: 200, Header: map[string][]string{"Cache-Control": {"public, max-age=2"}}, Body: strings.NewReader(string(b))}, nil
	})
	if code, _ := g.get("a.example", "/ct/v1/get-entries?start=2&end=2"); code != 200 {
		t.Fatal(code)
	}
	e.fill(5)
	now = now.Add(time.Minute)
	if code, body := g.get("a.example", "/ct/v1/get-entries?start=4&end=4"); code != 200 {
		t.Fatalf("entry 4 is not served a minute after it was published: %d %s", code, body)
	}
}
""", "the backend's Cache-Control header has another directive before max-age", "Tree heads are kept for twelve hours, so that new entries are not served.", **EDGE)

# ---------------------------------------------------------------- C18

spec("index-count-limit", "C18", [
    (BUCKET, """	for i := 0; i < recordCount; i++ {
		record, err := BytesToDedupe(f""", """	for i := uint16(0); int(i) < recordCount && i < math.MaxUint16; i++ {
		i := int(i)
		record, err := BytesToDedupe(f"""),
    (BUCKET, """	"fmt"
	"os"
""", """	"fmt"
	"math"
	"os"
"""),
], """
package demo

import (
	"crypto/sha256"
	"encoding/binary"
	"testing"
)

// A certificate whose record is far down a big file is still known.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	l := newLeaf("a.example", e.inter, false, nil)
	a := e.submit(false, l, e.inter.cert.Raw)
	fp := sha256.Sum256(l)
	k := "int/dedupe/" + string("0123456789abcdef"[fp[0]>>4]) + string("0123456789abcdef"[fp[0]&15])
	var b []byte
	for i := uint32(0); i < 70000; i++ {
		r := make([]byte, 29)
		r[0] = fp[0]
		binary.BigEndian.PutUint32(r[4:], i)
		b = append(b, r...)
	}
	e.s3.put(k, append(b, e.s3.get(k)...))
	if fp[1] == 0 && fp[2] == 0 {
		t.Skip("unlucky")
	}
	if s := e.submit(false, l, e.inter.cert.Raw); s.raw != a.raw {
		t.Fatalf("resubmission got another SCT:\\n%s\\n%s", a.raw, s.raw)
	}
}
""", "a dedupe file with more than 65535 records", "Certificates recorded further down the file are not recognised and are logged again.")

# ---------------------------------------------------------------- C07

spec("chain-limit", "C07", [
    (LOGIC, """	if len(req.Chain) == 0 {
		return nil, http.StatusBadRequest, fmt.Errorf("chain is empty")
	}
""", """	if len(req.Chain) == 0 {
		return nil, http.StatusBadRequest, fmt.Errorf("chain is empty")
	}
	// No real chain is this long, don't spend any time on verifying it
	if len(req.Chain) > 10 {
		return nil, http.StatusBadRequest, fmt.Errorf("chain is too long")
	}
"""),
], """
package demo

import (
	"fmt"
	"testing"
)

// Every chain to an accepted root is accepted.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	ca := e.root
	var rest [][]byte
	for i := 0; i < 14; i++ {
		ca = newCA(fmt.Sprintf("Level %d", i), ca, nil)
		rest = append([][]byte{ca.cert.Raw}, rest...)
	}
	e.submit(false, append([][]byte{newLeaf("a.example", ca, false, nil)}, rest...)...)
}
""", "a chain of more than ten certificates", "A valid chain is refused.")

spec("json-trailing", "C07", [
    (LOGIC, """	body, err := io.ReadAll(reqBody)
	if err != nil {
		return nil, http.StatusInternalServerError, fmt.Errorf("unable to read request body: %w", err)
	}

""", ""),
    (LOGIC, """	if err := json.Unmarshal(body, &req); err != nil {
""", """	if err := json.NewDecoder(reqBody).Decode(&req); err != nil {
"""),
], """
package demo

import (
	"bytes"
	"encoding/json"
	"net/http/httptest"
	"testing"
)

// A body that goes on after the JSON value is not JSON.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	b := must(json.Marshal(map[string]any{"chain": [][]byte{newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw}}))
	w := httptest.NewRecorder()
	e.h.ServeHTTP(w, httptest.NewRequest("POST", "/ct/v1/add-chain", bytes.NewReader(append(b, "}\\x00<garbage>"...))))
	if w.Code == 200 {
		t.Fatal("a malformed body is accepted")
	}
}
""", "a body with bytes after the JSON object", "Malformed JSON is accepted.")

spec("dedupe-before-validation", "C07", [
    (LOGIC, """	// TODO: What EKU parameters should be accepted by the log?
""", """	// A certificate that was logged before has been validated before
	if fp := sha256.Sum256(req.Chain[0]); !precertEndpoint {
		if known, err := d.bucket.GetDedupeEntry(ctx, [16]byte(fp[:16]), d.maskSize); err == nil {
			entry := sunlight.UnsequencedEntry{Certificate: req.Chain[0], CertificateFp: fp}
			return d.answer(entry.Sequence(known.leafIndex, known.timestamp))
		}
	}

	// TODO: What EKU parameters should be accepted by the log?
"""),
    (LOGIC, """	extension, err := sunlight.MarshalExtensions(""", """	return d.answer(completeEntry)
}

// answer makes the SCT for an entry.
func (d *stageZeroData) answer(completeEntry sunlight.LogEntry) (resp []byte, code int, err error) {
	extension, err := sunlight.MarshalExtensions("""),
], """
package demo

import "testing"

// An answer is only given to a valid chain on the right endpoint.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	l := newLeaf("a.example", e.inter, false, nil)
	p := newLeaf("p.example", e.inter, true, nil)
	e.submit(false, l, e.inter.cert.Raw)
	e.submit(true, p, e.inter.cert.Raw)
	for i, c := range [][][]byte{{l}, {l, e.root.cert.Raw}, {l, []byte("junk")}, {p, e.inter.cert.Raw}} {
		if code, s := e.post(false, c...); code == 200 {
			t.Fatalf("submission %d is answered with an SCT: %s", i, s.raw)
		}
	}
}
""", "a logged certificate is submitted again with a broken chain, or a logged precertificate to add-chain", "Invalid chains get SCTs; a precertificate on the wrong endpoint gets an SCT over something that was never logged.")

spec("roots-need-ca", "C07", [
    (CONFIG, """			r.AddCert(cert)
""", """			if !cert.IsCA {
				log.Printf("Ignoring root that is not a CA: %v", cert.Subject)
				continue
			}
			r.AddCert(cert)
"""),
], """
package demo

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"math/big"
	"testing"
	"time"
)

// Old (version 1) roots have no basic constraints.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	type validity struct{ A, B time.Time }
	type alg struct{ OID asn1.ObjectIdentifier }
	type tbs struct {
		Serial  *big.Int
		Alg     alg
		Issuer  asn1.RawValue
		Valid   validity
		Subject asn1.RawValue
		Key     asn1.RawValue
	}
	sha := alg{asn1.ObjectIdentifier{1, 2, 840, 10045, 4, 3, 2}}
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	name := asn1.RawValue{FullBytes: must(asn1.Marshal(pkix.Name{CommonName: "Old Root"}.ToRDNSequence()))}
	key := asn1.RawValue{FullBytes: must(x509.MarshalPKIXPublicKey(&k.PublicKey))}
	b := must(asn1.Marshal(tbs{big.NewInt(1), sha, name, validity{leafStart.AddDate(-20, 0, 0), leafStart.AddDate(20, 0, 0)}, name, key}))
	d := sha256.Sum256(b)
	sig := must(ecdsa.SignASN1(rand.Reader, k, d[:]))
	der := must(asn1.Marshal(struct {
		T asn1.RawValue
		A alg
		S asn1.BitString
	}{asn1.RawValue{FullBytes: b}, sha, asn1.BitString{Bytes: sig, BitLength: 8 * len(sig)}}))
	old := &CA{must(x509.ParseCertificate(der)), k}
	e.roots = append(e.roots, der)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", old, false, nil), der)
}
""", "a root without basic constraints (as version 1 certificates are)", "Chains to a configured root are refused.")

# ---------------------------------------------------------------- C24

spec("retry-drained-body", "C24", [
    (STORAGE, """	_, err := b.client.PutObject(ctx, &s3.PutObjectInput{
		Bucket: aws.String(b.bucket),
		Key:    aws.String(key),
		Body:   bytes.NewReader(data),
	})
	return err
""", """	// Losing a write means reloading the whole log, so try harder than the client does by itself
	body := bytes.NewReader(data)
	var err error
	for attempt := 0; attempt < 3; attempt++ {
		_, err = b.client.PutObject(ctx, &s3.PutObjectInput{
			Bucket: aws.String(b.bucket),
			Key:    aws.String(key),
			Body:   body,
		})
		var re *awshttp.ResponseError
		if err == nil || !errors.As(err, &re) || re.HTTPStatusCode() < 500 {
			break
		}
	}
	return err
"""),
], """
package demo

import (
	"strings"
	"testing"
)

// Writes that are refused several times and then accepted are whole.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	n := 0
	e.s3.setHook(func(m, k string) int {
		if m == "PUT" && strings.HasPrefix(k, "tile/data") && n < 4 {
			n++
			return 500
		}
		return 0
	})
	code, s := e.post(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	if code == 200 {
		if err := e.included(s); err != nil {
			t.Fatal(err)
		}
	}
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "the object store answers a write with several 500s before it accepts it", "An empty object is stored and the tree head published over it.")

# ---------------------------------------------------------------- C04

spec("reload-from-checkpoint", "C04", [
    (CONFIG, """		err = json.Unmarshal(sthBytes, &sth)
		if err != nil {
			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
		}
""", """		err = json.Unmarshal(sthBytes, &sth)
		if err != nil {
			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
		}
		// The checkpoint is the last thing that is published, so a batch without one didn't finish
		if b, err := bucket.S.Get(ctx, "checkpoint"); err == nil {
			c, err := sunlight.ParseCheckpoint(strings.SplitAfterN(string(b), "\\n\\n", 2)[0][:strings.Index(string(b), "\\n\\n")+1])
			if err != nil {
				return nil, fmt.Errorf("unable to parse checkpoint: %v", err)
			}
			sth.TreeSize, sth.SHA256RootHash = uint64(c.N), ct.SHA256Hash(c.Hash)
		}
"""),
    (CONFIG, """	"os/signal"
	"sync"
""", """	"os/signal"
	"strings"
	"sync"
"""),
], """
package demo

import "testing"

// Stopped between the tree head and the checkpoint.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	e.s3.setHook(func(m, k string) int {
		if m == "PUT" && k == "checkpoint" && e.head().Size == 2 {
			return 403
		}
		return 0
	})
	l := newLeaf("b.example", e.inter, false, nil)
	go e.post(false, l, e.inter.cert.Raw)
	if !waitFor(4e9, func() bool { return e.head().Size == 2 }) {
		t.Fatal("the second entry is not published")
	}
	waitFor(3e8, func() bool { return false })
	before := e.head()
	ens, _ := e.entries()
	e.s3.setHook(nil)
	e.mustBoot()
	for i := 0; i < 2; i++ {
		e.submit(false, newLeaf("c.example", e.inter, false, nil), e.inter.cert.Raw)
	}
	if h := e.head(); h.Size != before.Size+2 {
		t.Fatalf("tree of size %d after a tree of size %d and two more entries", h.Size, before.Size)
	}
	after, err := e.entries()
	if err != nil {
		t.Fatal(err)
	}
	if string(after[1].Leaf) != string(ens[1].Leaf) {
		t.Fatal("a published entry is gone")
	}
}
""", "the writer stops between publishing the tree head and the checkpoint", "The next instance continues from the older tree and publishes a fork.")

# ---------------------------------------------------------------- C20

spec("lock-try-once", "C20", [
    (CONFIG, """		lock, err = client.LockKey(lockpath)
""", """		lock, err = client.LockOpts(&consul.LockOptions{
			Key:          lockpath,
			LockTryOnce:  true, // let the supervisor restart us instead of waiting forever
			LockWaitTime: 5 * time.Second,
		})
"""),
], """
package demo

import (
	"context"
	"encoding/json"
	"io"
	"net/http"
	"net/http/httptest"
	"testing"
	"time"

	"itko.dev/internal/ctsubmit"
)

// As long as another instance has the lock, this one does not run. The agent here honours the wait parameter.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.s3.put("ct/v1/get-roots", must(json.Marshal(map[string]any{"certificates": e.roots})))
	conf := must(json.Marshal(e.conf))
	entry := func(k string, v []byte) []any {
		m := map[string]any{"Key": k, "Value": v, "CreateIndex": 1, "ModifyIndex": 5, "LockIndex": 1, "Flags": uint64(3304740253564472344)}
		if k == "demo/lock" {
			m["Session"] = "11111111-0000-0000-0000-000000000000"
		}
		return []any{m}
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		io.Copy(io.Discard, r.Body)
		w.Header().Set("X-Consul-Index", "7")
		switch {
		case r.URL.Path == "/v1/session/create":
			io.WriteString(w, `{"ID":"22222222-0000-0000-0000-000000000000"}`)
		case r.URL.Path == "/v1/kv/demo/config":
			json.NewEncoder(w).Encode(entry("demo/config", conf))
		case r.Method == "GET" && r.URL.Path == "/v1/kv/demo/lock":
			if d, err := time.ParseDuration(r.URL.Query().Get("wait")); err == nil && r.URL.Query().Get("index") != "" {
				select {
				case <-time.After(d):
				case <-r.Context().Done():
				}
			}
			json.NewEncoder(w).Encode(entry("demo/lock", nil))
		case r.Method == "PUT" && r.URL.Path == "/v1/kv/demo/lock":
			io.WriteString(w, "false")
		default:
			io.WriteString(w, "[]")
		}
	}))
	ch := make(chan error, 1)
	go func() {
		lg, err := ctsubmit.LoadLog(context.Background(), "demo", srv.Listener.Addr().String())
		if err == nil && lg != nil {
			ch <- nil
		}
	}()
	select {
	case <-ch:
		t.Fatal("the log loads while another instance has the lock")
	case <-time.After(12 * time.Second):
	}
}
""", "the lock stays with another instance for longer than the wait time", "The second instance runs without the lock.")

# ---------------------------------------------------------------- C09

spec("entries-concurrent-tiles", "C09", [
    (MLOGIC, """			for i := firstTile.N + 1; i < lastTile.N; i++ {
				tile := tlog.Tile{
					H: sunlight.TileHeight,
					L: -1,
					N: i,
					W: 256,
				}

				data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
				if err != nil {
					return nil, 515, err
				}
				dataTiles = append(dataTiles, tileWithBytes{tile, data})
			}
""", """			var mu sync.Mutex
			g, gctx := errgroup.WithContext(ctx)
			for i := firstTile.N + 1; i < lastTile.N; i++ {
				tile := tlog.Tile{
					H: sunlight.TileHeight,
					L: -1,
					N: i,
					W: 256,
				}

				g.Go(func() error {
					data, err := f.getTile(gctx, tile, int64(sth.TreeSize))
					if err != nil {
						return err
					}
					mu.Lock()
					defer mu.Unlock()
					dataTiles = append(dataTiles, tileWithBytes{tile, data})
					return nil
				})
			}
			if err := g.Wait(); err != nil {
				return nil, 515, err
			}
"""),
    (MLOGIC, """	"strconv"

""", """	"strconv"
	"sync"

"""),
    (MLOGIC, """	"golang.org/x/mod/sumdb/tlog"
""", """	"golang.org/x/mod/sumdb/tlog"
	"golang.org/x/sync/errgroup"
"""),
], """
package demo

import (
	"bytes"
	"encoding/json"
	"strings"
	"testing"
	"time"
)

// Entries come in order, however long the store takes for each tile.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(1024)
	e.s3.setHook(func(m, k string) int {
		if strings.HasSuffix(k, "data/001") {
			time.Sleep(300 * time.Millisecond)
		}
		return 0
	})
	code, body := e.monitor()("/ct/v1/get-entries?start=10&end=1000")
	var j struct {
		Entries []struct {
			LeafInput []byte `json:"leaf_input"`
		}
	}
	json.Unmarshal(body, &j)
	if code != 200 || len(j.Entries) != 991 {
		t.Fatalf("%d, %d entries", code, len(j.Entries))
	}
	ens := must(e.entries())
	for i := range j.Entries {
		if !bytes.Equal(j.Entries[i].LeafInput, ens[10+i].Leaf) {
			t.Fatalf("entry %d is out of place", 10+i)
		}
	}
}
""", "a range with two or more tiles in its middle, and a store that takes longer for the first of them", "get-entries gives the entries of the middle tiles in the wrong order.")

# ---------------------------------------------------------------- C03

spec("tile-closure", "C03", [
    (LOGIC, """						// Upload the tile
						t := dataTile
						g.Go(func() error { return d.bucket.SetTile(gctx, t.Tile, t.Bytes) })
						// Reset""", """						// Upload the tile
						g.Go(func() error { return d.bucket.SetTile(gctx, dataTile.Tile, dataTile.Bytes) })
						// Reset"""),
], """
package demo

import "testing"

// Batches that fill a tile and go on.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["flushMs"] = 300
	e.fill(200)
	e.mustBoot()
	for i := 0; i < 6; i++ {
		e.burst(100)
		if err := e.audit(); err != nil {
			t.Fatal(err)
		}
	}
}
""", "a batch that fills a data tile and has more entries after that", "The full data tile is never stored.")

spec("issuer-by-subject", "C03", [
    (LOGIC, """				for _, e := range pool {
					for _, cert := range e.entry.Chain {
						g.Go(func() error { return d.bucket.SetIssuer(gctx, cert) })
					}
				}
""", """				issuers := make(map[string]*x509.Certificate)
				for _, e := range pool {
					for _, cert := range e.entry.Chain {
						issuers[string(cert.RawSubject)+string(cert.RawIssuer)] = cert
					}
				}
				for _, cert := range issuers {
					g.Go(func() error { return d.bucket.SetIssuer(gctx, cert) })
				}
"""),
], """
package demo

import (
	"sync"
	"testing"
)

// Two issuers with the same names, in one batch.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["flushMs"] = 400
	twin := newCA("Demo Intermediate", e.root, nil)
	e.mustBoot()
	var wg sync.WaitGroup
	for _, ca := range []*CA{e.inter, twin} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.post(false, newLeaf("a.example", ca, false, nil), ca.cert.Raw)
		}()
	}
	wg.Wait()
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "two intermediates with the same subject and issuer but other keys, first seen in one batch", "One of the two issuers is not stored.")

# ---------------------------------------------------------------- C14

spec("tile-leaf-max", "C14", [
    (TILE, """	s := cryptobyte.String(tile)
""", """	s := cryptobyte.String(tile)
	// A full tile of ordinary entries is below two megabytes
	if len(tile) > 4<<20 {
		return nil, nil, fmt.Errorf("tile is too large: %d bytes", len(tile))
	}
"""),
], """
package demo

import (
	"bytes"
	"fmt"
	"testing"

	"itko.dev/internal/sunlight"
)

// Whatever can be logged can be read back.
func TestDemo(t *testing.T) {
	var tile []byte
	for i := 0; i < 256; i++ {
		tile = sunlight.AppendTileLeaf(tile, &sunlight.LogEntry{Certificate: bytes.Repeat([]byte{byte(i)}, 60000), Timestamp: 1, LeafIndex: uint64(i)})
	}
	rest := tile
	for i := 0; i < 256; i++ {
		e, r, err := sunlight.ReadTileLeaf(rest)
		if err != nil {
			t.Fatal(fmt.Errorf("entry %d: %w", i, err))
		}
		if e.LeafIndex != uint64(i) || len(e.Certificate) != 60000 {
			t.Fatal("wrong entry")
		}
		rest = r
	}
}
""", "a data tile with more than four megabytes of entries", "The tile cannot be read: neither served nor loaded at the next start.")

# ---------------------------------------------------------------- C23

spec("monotonic-timestamps", "C23", [
    (LOGIC, """			logEntry := LogEntryWithReturnPath{
				entry.entry.Sequence(sequence, time.Now().UnixMilli()),
				entry.returnPath,
			}
""", """			// Entries are in the order of their timestamps
			lastTimestamp = max(lastTimestamp+1, time.Now().UnixMilli())
			logEntry := LogEntryWithReturnPath{
				entry.entry.Sequence(sequence, lastTimestamp),
				entry.returnPath,
			}
"""),
    (LOGIC, """	lastFlushTime := time.Now()

	// Loop""", """	lastFlushTime := time.Now()
	var lastTimestamp int64

	// Loop"""),
], """
package demo

import (
	"testing"
	"time"
)

// No SCT is from the future.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	for k := 0; k < 25; k++ {
		leaves := make([][]byte, 255)
		for i := range leaves {
			leaves[i] = newLeaf("b.example", e.inter, false, nil)
		}
		ch := make(chan SCT, len(leaves))
		for i := range leaves {
			go func() {
				_, s := e.post(false, leaves[i], e.inter.cert.Raw)
				ch <- s
			}()
		}
		for range leaves {
			if s := <-ch; int64(s.Timestamp) > time.Now().UnixMilli() {
				t.Fatalf("an SCT is dated %d ms after its answer", int64(s.Timestamp)-time.Now().UnixMilli())
			}
		}
	}
}
""", "more submissions arrive than milliseconds pass", "SCTs and entries are dated in the future, after the tree head that covers them.")

# ---------------------------------------------------------------- C19

spec("exists-nonempty", "C19", [
    (STORAGE, """	_, err := os.Stat(filePath)
	if err != nil {
		if errors.Is(err, os.ErrNotExist) {
			return false, nil
		}
		return false, err
	}
	return true, nil
""", """	info, err := os.Stat(filePath)
	if err != nil {
		if errors.Is(err, os.ErrNotExist) {
			return false, nil
		}
		return false, err
	}
	// An empty file is what an interrupted write leaves behind
	return info.Size() > 0, nil
"""),
], """
package demo

import (
	"context"
	"testing"

	"itko.dev/internal/ctsubmit"
)

// What was stored exists.
func TestDemo(t *testing.T) {
	s := ctsubmit.NewFsStorage(t.TempDir())
	for _, v := range []string{"x", ""} {
		if err := s.Set(context.Background(), "a/b", []byte(v)); err != nil {
			t.Fatal(err)
		}
		if ok, err := s.Exists(context.Background(), "a/b"); err != nil || !ok {
			t.Fatalf("a stored value of %d bytes does not exist: %v", len(v), err)
		}
	}
}
""", "an empty value", "An object that was written is reported as missing.")

# ---------------------------------------------------------------- C06

spec("trickle-starves", "C06", [
    (LOGIC, """			if len(pool) >= MAX_POOL_SIZE || time.Since(lastFlushTime) >= FLUSH_INTERVAL {
""", """			// (the timer below takes care of pools that don't fill up)
			idle := len(pool) == 1 && time.Since(lastFlushTime) >= FLUSH_INTERVAL
			if len(pool) >= MAX_POOL_SIZE || idle {
"""),
], """
package demo

import (
	"testing"
	"time"
)

// Submissions that keep coming, each sooner than the flush interval after the last one.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.conf["flushMs"] = 500
	e.mustBoot()
	done := make(chan int, 100)
	leaves := make([][]byte, 32)
	for i := range leaves {
		leaves[i] = newLeaf("b.example", e.inter, false, nil)
	}
	for _, l := range leaves {
		go func() {
			code, _ := e.post(false, l, e.inter.cert.Raw)
			done <- code
		}()
		time.Sleep(200 * time.Millisecond)
	}
	for range leaves {
		if c := <-done; c != 200 {
			t.Fatalf("a submission is answered with %d", c)
		}
	}
}
""", "a steady trickle of submissions, each within the flush interval of the one before", "Nothing is published until 255 entries have come together: submissions time out and tree heads get old.")

# ---------------------------------------------------------------- C12

spec("entry-tile-at-size", "C12", [
    (MLOGIC, """	// Get the entry
	tile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, leafIndex))
	tile.L = -1
""", """	// Everything below is as it was in the tree that was asked for
	sth.TreeSize = uint64(treeSize)

	// Get the entry
	tile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, leafIndex))
	tile.L = -1
"""),
], """
package demo

import (
	"fmt"
	"testing"
)

// Sizes that were never published are as good as any other.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(10)
	get := e.monitor()
	for n := 1; n <= 10; n++ {
		if code, body := get(fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=0&tree_size=%d", n)); code != 200 {
			t.Fatalf("tree_size=%d: %d %s", n, code, body)
		}
	}
}
""", "a tree_size that was never published, or whose partial tiles were removed", "No answer for valid pairs of index and size.")
