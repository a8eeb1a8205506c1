package demo

// A small stand-in for the environment of the log: an object store, a Consul agent, a CA and an auditor.
// Self-contained: used by the demonstrations, by nothing else.

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/sha256"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

// ---- object store

type S3 struct {
	mu   sync.Mutex
	obj  map[string][]byte
	puts []string // keys in the order they were stored
	url  string
	// hook is asked before each request is served; a nonzero result is the HTTP status of a failure. May block.
	hook func(method, key string) int
}

func newS3() *S3 {
	s := &S3{obj: map[string][]byte{}}
	s.url = httptest.NewServer(s).URL
	return s
}

func (s *S3) get(key string) []byte { s.mu.Lock(); defer s.mu.Unlock(); return s.obj[key] }
func (s *S3) put(key string, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.obj[key] = b
	s.puts = append(s.puts, key)
}
func (s *S3) setHook(h func(method, key string) int) { s.mu.Lock(); s.hook = h; s.mu.Unlock() }
func (s *S3) keys() (r []string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for k := range s.obj {
		r = append(r, k)
	}
	return
}

// ServeHTTP answers S3 requests at /bucket/KEY and plain reads at /pub/KEY.
func (s *S3) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	p := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	key := p[1]
	body, _ := io.ReadAll(r.Body)
	s.mu.Lock()
	h := s.hook
	s.mu.Unlock()
	fail := func(st int, code string) {
		w.Header().Set("Content-Type", "application/xml")
		w.WriteHeader(st)
		if r.Method != "HEAD" {
			fmt.Fprintf(w, "<Error><Code>%s</Code><Message>x</Message></Error>", code)
		}
	}
	if h != nil {
		m := r.Method
		if p[0] == "pub" {
			m = "READ"
		}
		if st := h(m, key); st != 0 {
			fail(st, "InternalError")
			return
		}
	}
	switch r.Method {
	case "PUT":
		if strings.HasPrefix(r.Header.Get("X-Amz-Content-Sha256"), "STREAMING") {
			body = unchunk(body)
		}
		s.put(key, body)
		w.WriteHeader(200)
	default:
		b, ok := s.get(key), true
		s.mu.Lock()
		_, ok = s.obj[key]
		s.mu.Unlock()
		if !ok {
			fail(404, "NoSuchKey")
			return
		}
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		w.WriteHeader(200)
		if r.Method != "HEAD" {
			w.Write(b)
		}
	}
}

func unchunk(b []byte) (out []byte) {
	for {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return
		}
		var n int
		fmt.Sscanf(strings.SplitN(string(b[:i]), ";", 2)[0], "%x", &n)
		b = b[i+2:]
		if n == 0 || n+2 > len(b) {
			return
		}
		out = append(out, b[:n]...)
		b = b[n+2:]
	}
}

// ---- Consul

type Consul struct {
	mu       sync.Mutex
	kv       map[string][]byte
	holder   map[string]string
	lost     map[string]bool
	releases int
	n        int
	addr     string
}

func newConsul() *Consul {
	c := &Consul{kv: map[string][]byte{}, holder: map[string]string{}, lost: map[string]bool{}}
	c.addr = strings.TrimPrefix(httptest.NewServer(c).URL, "http://")
	return c
}

// lose takes the lock away from its holder.
func (c *Consul) lose(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.lost[key] = true
	c.holder[key] = ""
}

func (c *Consul) released() int { c.mu.Lock(); defer c.mu.Unlock(); return c.releases }

func (c *Consul) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	q := r.URL.Query()
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	reply := func(v any) { json.NewEncoder(w).Encode(v) }
	switch {
	case strings.HasSuffix(r.URL.Path, "/session/create"):
		reply(map[string]string{"ID": fmt.Sprintf("00000000-0000-0000-0000-%012d", c.n)})
	case strings.Contains(r.URL.Path, "/session/renew/"):
		reply([]map[string]any{{"ID": filepath.Base(r.URL.Path), "TTL": "15s"}})
	case strings.Contains(r.URL.Path, "/session/destroy/"):
		io.WriteString(w, "true")
	case strings.HasPrefix(r.URL.Path, "/v1/kv/"):
		key := strings.TrimPrefix(r.URL.Path, "/v1/kv/")
		if r.Method == "GET" {
			if i := q.Get("index"); i != "" && i != "0" { // blocking
				_, holds := q["consistent"] // an instance that has the lock: nothing ever changes behind its back
				for r.Context().Err() == nil && !c.lost[key] && (holds || c.holder[key] != "") {
					c.mu.Unlock()
					time.Sleep(10 * time.Millisecond)
					c.mu.Lock()
				}
			}
			w.Header().Set("X-Consul-Index", fmt.Sprint(c.n+10))
			v, ok := c.kv[key]
			if !ok {
				w.WriteHeader(404)
				return
			}
			m := map[string]any{"Key": key, "Value": base64.StdEncoding.EncodeToString(v), "CreateIndex": 1, "ModifyIndex": c.n, "Flags": 3304740253564472344, "LockIndex": 1}
			if h := c.holder[key]; h != "" {
				m["Session"] = h
			}
			reply([]any{m})
			return
		}
		if s := q.Get("acquire"); s != "" {
			if h := c.holder[key]; h != "" && h != s {
				io.WriteString(w, "false")
				return
			}
			c.holder[key] = s
		}
		if s := q.Get("release"); s != "" {
			if c.holder[key] == s {
				c.holder[key] = ""
				c.releases++
			}
		}
		c.kv[key] = body
		io.WriteString(w, "true")
	default:
		w.WriteHeader(404)
	}
}

// ---- certificates

type CA struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

var serial int64 = 1000
var serialMu sync.Mutex

func nextSerial() *big.Int { serialMu.Lock(); defer serialMu.Unlock(); serial++; return big.NewInt(serial) }

var (
	oidPoison    = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 3}
	oidPreSigner = asn1.ObjectIdentifier{1, 3, 6, 1, 4, 1, 11129, 2, 4, 4}
)

var leafStart = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
var leafEnd = time.Date(2024, 6, 1, 0, 0, 0, 0, time.UTC)

func newCA(name string, parent *CA, mod func(*x509.Certificate)) *CA {
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	t := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: name}, NotBefore: leafStart.AddDate(-5, 0, 0), NotAfter: leafStart.AddDate(20, 0, 0),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	if mod != nil {
		mod(t)
	}
	pc, pk := t, k
	if parent != nil {
		pc, pk = parent.cert, parent.key
	}
	return &CA{must(x509.ParseCertificate(must(x509.CreateCertificate(rand.Reader, t, pc, &k.PublicKey, pk)))), k}
}

func newLeaf(name string, ca *CA, pre bool, mod func(*x509.Certificate)) []byte {
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	t := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: name}, NotBefore: leafStart, NotAfter: leafEnd, DNSNames: []string{name}, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	if pre {
		t.ExtraExtensions = append(t.ExtraExtensions, pkix.Extension{Id: oidPoison, Critical: true, Value: []byte{5, 0}})
	}
	if mod != nil {
		mod(t)
	}
	return must(x509.CreateCertificate(rand.Reader, t, ca.cert, &k.PublicKey, ca.key))
}

// ---- a log

type Env struct {
	t      *testing.T
	s3     *S3
	consul *Consul
	key    *ecdsa.PrivateKey
	logID  [32]byte
	root   *CA
	inter  *CA
	conf   map[string]any
	roots  [][]byte
	h      http.Handler
	cancel func()
	mask   int
}

const origin = "log.example/demo"

func newEnv(t *testing.T) *Env {
	e := &Env{t: t, s3: newS3(), consul: newConsul(), mask: 2}
	e.key = must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	e.logID = sha256.Sum256(must(x509.MarshalPKIXPublicKey(&e.key.PublicKey)))
	kf := filepath.Join(t.TempDir(), "key.pem")
	if err := os.WriteFile(kf, pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: must(x509.MarshalECPrivateKey(e.key))}), 0o600); err != nil {
		t.Fatal(err)
	}
	e.root = newCA("Demo Root", nil, nil)
	e.inter = newCA("Demo Intermediate", e.root, nil)
	e.roots = [][]byte{e.root.cert.Raw}
	e.conf = map[string]any{"name": origin, "keyPath": kf, "logID": base64.StdEncoding.EncodeToString(e.logID[:]), "maskSize": e.mask, "listenAddress": "127.0.0.1:0",
		"notAfterStart": "2023-01-01T00:00:00Z", "notAfterLimit": "2026-01-01T00:00:00Z", "flushMs": 20,
		"s3Bucket": "bucket", "s3Region": "us-east-1", "s3EndpointUrl": e.s3.url, "s3StaticCredentialUserName": "u", "s3StaticCredentialPassword": "p"}
	e.putSTH(0, sha256.Sum256(nil))
	return e
}

func (e *Env) putSTH(size uint64, root [32]byte) {
	in := binary.BigEndian.AppendUint64([]byte{0, 1}, 1700000000000)
	in = binary.BigEndian.AppendUint64(in, size)
	in = append(in, root[:]...)
	d := sha256.Sum256(in)
	sig := must(ecdsa.SignASN1(rand.Reader, e.key, d[:]))
	ds := append([]byte{4, 3, byte(len(sig) >> 8), byte(len(sig))}, sig...)
	e.s3.put("ct/v1/get-sth", must(json.Marshal(map[string]any{"tree_size": size, "timestamp": 1700000000000, "sha256_root_hash": root[:], "tree_head_signature": ds})))
}

// boot loads and starts the log as it is in the store now.
func (e *Env) boot() error {
	e.s3.put("ct/v1/get-roots", must(json.Marshal(map[string]any{"certificates": e.roots})))
	e.consul = newConsul()
	e.consul.kv["demo/config"] = must(json.Marshal(e.conf))
	ctx, cancel := context.WithCancel(context.Background())
	lg, err := ctsubmit.LoadLog(ctx, "demo", e.consul.addr)
	if err != nil {
		cancel()
		return err
	}
	e.cancel = cancel
	e.h, err = lg.Start(ctx)
	return err
}

func (e *Env) mustBoot() {
	e.t.Helper()
	if err := e.boot(); err != nil {
		e.t.Fatalf("the log does not load: %v", err)
	}
}

type SCT struct {
	Version    int    `json:"sct_version"`
	ID         []byte `json:"id"`
	Timestamp  uint64 `json:"timestamp"`
	Extensions []byte `json:"extensions"`
	Signature  []byte `json:"signature"`
	raw        string
}

func (s SCT) index() uint64 {
	if len(s.Extensions) != 8 {
		panic("unexpected extensions")
	}
	return binary.BigEndian.Uint64(append([]byte{0, 0, 0}, s.Extensions[3:]...))
}

func (e *Env) post(pre bool, chain ...[]byte) (int, SCT) {
	path := "/ct/v1/add-chain"
	if pre {
		path = "/ct/v1/add-pre-chain"
	}
	r := httptest.NewRequest("POST", path, bytes.NewReader(must(json.Marshal(map[string]any{"chain": chain}))))
	w := httptest.NewRecorder()
	e.h.ServeHTTP(w, r)
	var s SCT
	s.raw = w.Body.String()
	if w.Code == 200 {
		if err := json.Unmarshal(w.Body.Bytes(), &s); err != nil {
			e.t.Fatalf("bad answer %s", s.raw)
		}
	}
	return w.Code, s
}

// submit wants an SCT for a chain.
func (e *Env) submit(pre bool, chain ...[]byte) SCT {
	e.t.Helper()
	code, s := e.post(pre, chain...)
	if code != 200 {
		e.t.Fatalf("submission refused: %d %s", code, s.raw)
	}
	return s
}

// burst submits n new certificates concurrently.
func (e *Env) burst(n int) []SCT {
	e.t.Helper()
	leaves := make([][]byte, n)
	for i := range leaves {
		leaves[i] = newLeaf(fmt.Sprintf("b%d.example", i), e.inter, false, nil)
	}
	r := make([]SCT, n)
	var wg sync.WaitGroup
	bad := make(chan string, n)
	for i := range leaves {
		wg.Add(1)
		go func() {
			defer wg.Done()
			code, s := e.post(false, leaves[i], e.inter.cert.Raw)
			if code != 200 {
				bad <- fmt.Sprintf("%d %s", code, s.raw)
			}
			r[i] = s
		}()
	}
	wg.Wait()
	close(bad)
	for b := range bad {
		e.t.Fatalf("submission refused: %s", b)
	}
	return r
}

// ---- reading

type Head struct {
	Size uint64 `json:"tree_size"`
	Ts   uint64 `json:"timestamp"`
	Root []byte `json:"sha256_root_hash"`
	Sig  []byte `json:"tree_head_signature"`
}

func (e *Env) head() Head {
	var h Head
	if err := json.Unmarshal(e.s3.get("ct/v1/get-sth"), &h); err != nil {
		e.t.Fatalf("unreadable tree head: %v", err)
	}
	return h
}

type Entry struct {
	Leaf  []byte // MerkleTreeLeaf
	Index uint64
	Ts    uint64
	Pre   bool
	IKH   []byte
	Cert  []byte
	PreC  []byte
	Fps   [][]byte
}

func parseTile(b []byte) (out []Entry, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	take := func(n int) []byte { r := b[:n:n]; b = b[n:]; return r }
	num := func(n int) (v int) {
		for _, c := range take(n) {
			v = v<<8 | int(c)
		}
		return
	}
	for len(b) > 0 {
		start := b
		var en Entry
		en.Ts = uint64(num(8))
		en.Pre = num(2) == 1
		if en.Pre {
			en.IKH = take(32)
		}
		en.Cert = take(num(3))
		x := take(num(2))
		en.Index = binary.BigEndian.Uint64(append([]byte{0, 0, 0}, x[3:8]...))
		en.Leaf = append([]byte{0, 0}, start[:len(start)-len(b)]...)
		if en.Pre {
			en.PreC = take(num(3))
		}
		fp := take(num(2))
		for len(fp) > 0 {
			en.Fps = append(en.Fps, fp[:32])
			fp = fp[32:]
		}
		out = append(out, en)
	}
	return out, true
}

func tilePath(level string, n uint64, w int) string {
	p := fmt.Sprintf("%03d", n%1000)
	for n >= 1000 {
		n /= 1000
		p = fmt.Sprintf("x%03d/%s", n%1000, p)
	}
	if w < 256 {
		p += fmt.Sprintf(".p/%d", w)
	}
	return "tile/" + level + "/" + p
}

func leafHash(leaf []byte) [32]byte { return sha256.Sum256(append([]byte{0}, leaf...)) }
func nodeHash(l, r [32]byte) [32]byte {
	return sha256.Sum256(append(append([]byte{1}, l[:]...), r[:]...))
}
func mth(l [][32]byte) [32]byte {
	switch len(l) {
	case 0:
		return sha256.Sum256(nil)
	case 1:
		return l[0]
	}
	k := 1
	for k*2 < len(l) {
		k *= 2
	}
	return nodeHash(mth(l[:k]), mth(l[k:]))
}

// entries reads all entries of the tree that the store shows now from its data tiles.
func (e *Env) entries() ([]Entry, error) {
	size := e.head().Size
	var out []Entry
	for n := uint64(0); n*256 < size; n++ {
		w := min(256, int(size-n*256))
		b := e.s3.get(tilePath("data", n, w))
		en, ok := parseTile(b)
		if !ok || len(en) != w {
			return nil, fmt.Errorf("data tile %s is missing or damaged", tilePath("data", n, w))
		}
		out = append(out, en...)
	}
	return out, nil
}

// audit checks the store against its own tree head.
func (e *Env) audit() error {
	h := e.head()
	in := binary.BigEndian.AppendUint64([]byte{0, 1}, h.Ts)
	in = binary.BigEndian.AppendUint64(in, h.Size)
	in = append(in, h.Root...)
	d := sha256.Sum256(in)
	if len(h.Sig) < 4 || !ecdsa.VerifyASN1(&e.key.PublicKey, d[:], h.Sig[4:]) {
		return fmt.Errorf("the tree head's signature does not verify")
	}
	ens, err := e.entries()
	if err != nil {
		return err
	}
	var lh [][32]byte
	for i, en := range ens {
		if en.Index != uint64(i) {
			return fmt.Errorf("entry %d says it is entry %d", i, en.Index)
		}
		lh = append(lh, leafHash(en.Leaf))
		for _, fp := range en.Fps {
			if b := e.s3.get("issuer/" + hex.EncodeToString(fp)); sha256.Sum256(b) != [32]byte(fp) {
				return fmt.Errorf("issuer %x of entry %d is missing or damaged", fp, i)
			}
		}
		if k, _ := e.lookup("hashes", lh[i][:16], 21); k != i {
			return fmt.Errorf("entry %d is not in the hash index (%d)", i, k)
		}
	}
	if r := mth(lh); !bytes.Equal(r[:], h.Root) {
		return fmt.Errorf("the tree head's root is not that of its %d entries", len(ens))
	}
	lv := lh
	for l := 0; len(lv) > 0; l++ {
		for n := 0; n*256 < len(lv); n++ {
			t := lv[n*256 : min(len(lv), n*256+256)]
			var want []byte
			for _, x := range t {
				want = append(want, x[:]...)
			}
			if !bytes.Equal(e.s3.get(tilePath(strconv.Itoa(l), uint64(n), len(t))), want) {
				return fmt.Errorf("tile %s is missing or wrong", tilePath(strconv.Itoa(l), uint64(n), len(t)))
			}
		}
		var up [][32]byte
		for i := 0; i+256 <= len(lv); i += 256 {
			up = append(up, mth(lv[i:i+256]))
		}
		lv = up
	}
	return nil
}

// lookup finds a 16-byte key in an index; -1 if it is not there.
func (e *Env) lookup(index string, key []byte, rec int) (int, uint64) {
	h := hex.EncodeToString(key)[:e.mask]
	p := ""
	for i := 0; i < len(h); i += 2 {
		if i > 0 {
			p += "/"
		}
		p += h[i:min(i+2, len(h))]
	}
	b := e.s3.get("int/" + index + "/" + p)
	for ; len(b) >= rec; b = b[rec:] {
		if bytes.Equal(b[:16], key) {
			ts := uint64(0)
			if rec == 29 {
				ts = binary.LittleEndian.Uint64(b[21:29])
			}
			return int(binary.LittleEndian.Uint64(append(append([]byte{}, b[16:21]...), 0, 0, 0))), ts
		}
	}
	return -1, 0
}

// included reports whether the log shows now an entry that matches the SCT, and the SCT's signature is right.
func (e *Env) included(s SCT) error {
	ens, err := e.entries()
	if err != nil {
		return err
	}
	i := s.index()
	if i >= uint64(len(ens)) {
		return fmt.Errorf("the SCT promises entry %d, the tree has %d", i, len(ens))
	}
	if ens[i].Ts != s.Timestamp {
		return fmt.Errorf("the SCT's timestamp is not the entry's")
	}
	d := sha256.Sum256(ens[i].Leaf)
	if len(s.Signature) < 4 || !ecdsa.VerifyASN1(&e.key.PublicKey, d[:], s.Signature[4:]) {
		return fmt.Errorf("the SCT's signature does not verify over entry %d", i)
	}
	return nil
}

// waitFor polls a condition.
func waitFor(d time.Duration, f func() bool) bool {
	for end := time.Now().Add(d); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if f() {
			return true
		}
	}
	return f()
}

// monitor is the read side over the store.
func (e *Env) monitor() func(path string) (int, []byte) {
	h := must(ctmonitor.Start(context.Background(), "", e.s3.url+"/pub/", e.mask))
	return func(path string) (int, []byte) {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("GET", path, nil))
		return w.Code, w.Body.Bytes()
	}
}

func verifyIncl(idx, size uint64, leaf [32]byte, path [][]byte, root []byte) bool {
	if idx >= size {
		return false
	}
	fn, sn, r := idx, size-1, leaf
	for _, p := range path {
		if sn == 0 || len(p) != 32 {
			return false
		}
		if fn&1 == 1 || fn == sn {
			r = nodeHash([32]byte(p), r)
			for fn&1 == 0 && fn != 0 {
				fn >>= 1
				sn >>= 1
			}
		} else {
			r = nodeHash(r, [32]byte(p))
		}
		fn >>= 1
		sn >>= 1
	}
	return sn == 0 && bytes.Equal(r[:], root)
}

// mkEntry makes a synthetic certificate entry and its encoding in a data tile.
func mkEntry(i uint64, cert []byte, fps ...[]byte) (leaf, tile []byte) {
	b := binary.BigEndian.AppendUint64(nil, 1700000000000+i%1000)
	b = append(b, 0, 0, byte(len(cert)>>16), byte(len(cert)>>8), byte(len(cert)))
	b = append(b, cert...)
	b = append(b, 0, 8, 0, 0, 5, byte(i>>32), byte(i>>24), byte(i>>16), byte(i>>8), byte(i))
	leaf = append([]byte{0, 0}, b...)
	b = append(b, byte(len(fps)*32>>8), byte(len(fps)*32))
	for _, f := range fps {
		b = append(b, f...)
	}
	return leaf, b
}

// fill puts a published tree of n synthetic entries into the store.
func (e *Env) fill(n int) {
	var lh [][32]byte
	fp := sha256.Sum256(e.inter.cert.Raw)
	e.s3.put("issuer/"+hex.EncodeToString(fp[:]), e.inter.cert.Raw)
	idx := map[string][]string{}
	var tile []byte
	for i := 0; i < n; i++ {
		l, t := mkEntry(uint64(i), []byte(fmt.Sprintf("synthetic certificate %d", i)), fp[:])
		h := leafHash(l)
		lh = append(lh, h)
		tile = append(tile, t...)
		if (i+1)%256 == 0 || i == n-1 {
			e.s3.put(tilePath("data", uint64(i/256), i%256+1), tile)
			tile = nil
		}
		b := append(append([]byte{}, h[:16]...), byte(i), byte(i>>8), byte(i>>16), 0, 0)
		x := hex.EncodeToString(h[:])[:2]
		idx[x] = append(idx[x], string(b))
	}
	for k, v := range idx {
		for i := range v {
			for j := i; j > 0 && v[j] < v[j-1]; j-- {
				v[j], v[j-1] = v[j-1], v[j]
			}
		}
		e.s3.put("int/hashes/"+k, []byte(strings.Join(v, "")))
	}
	root := mth(lh)
	lv := lh
	for l := 0; len(lv) > 0; l++ {
		for k := 0; k*256 < len(lv); k++ {
			t := lv[k*256 : min(len(lv), k*256+256)]
			var b []byte
			for _, x := range t {
				b = append(b, x[:]...)
			}
			e.s3.put(tilePath(strconv.Itoa(l), uint64(k), len(t)), b)
		}
		var up [][32]byte
		for i := 0; i+256 <= len(lv); i += 256 {
			up = append(up, mth(lv[i:i+256]))
		}
		lv = up
	}
	e.putSTH(uint64(n), root)
}
