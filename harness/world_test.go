package verifh

import (
	"bytes"
	"context"
	"crypto/sha256"
	stdx509 "crypto/x509"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/iotest"
	"time"

	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

// ---------------------------------------------------------------- the log under test and its environment

var logKey = sync.OnceValue(func() *Key { return ecKey("log key") })
var logID = sync.OnceValue(func() Hash { return sha256.Sum256(logKey().SPKI) })

func ecPEM(k *Key) []byte {
	d := must(stdx509.MarshalECPrivateKey(k.EC))
	return pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: d})
}

var scratchDir = sync.OnceValue(func() string {
	d := envScratch
	if d == "" {
		d = must(os.MkdirTemp("", "verifh"))
	}
	must0(os.MkdirAll(d, 0o755))
	return d
})

var logKeyFile = sync.OnceValue(func() string {
	p := filepath.Join(scratchDir(), "logkey.pem")
	must0(os.WriteFile(p, ecPEM(logKey()), 0o600))
	return p
})

// keyFile is the PEM file of a log key.
func keyFile(k *Key) string {
	if k == logKey() {
		return logKeyFile()
	}
	p := filepath.Join(scratchDir(), fmt.Sprintf("key-%x.pem", sha256.Sum256(k.SPKI)))
	must0(os.WriteFile(p, ecPEM(k), 0o600))
	return p
}

func dsSign(k *Key, msg []byte) []byte {
	h := sha256.Sum256(msg)
	sig := detSign(k.EC, h[:])
	return append([]byte{4, 3, byte(len(sig) >> 8), byte(len(sig))}, sig...)
}

func makeSTH(k *Key, h Head) []byte {
	b, _ := json.Marshal(map[string]any{"tree_size": h.Size, "timestamp": h.Ts, "sha256_root_hash": h.Root[:], "tree_head_signature": dsSign(k, sthSigInput(h))})
	return b
}

func rootsJSON(certs [][]byte) []byte {
	b, _ := json.Marshal(map[string]any{"certificates": certs})
	return b
}

const origin = "log.example/verif"

// World is one log: its store, its running instance, and what its clients know.
type World struct {
	c        *Case
	st       *Store
	aud      *Auditor
	mask     int
	flush    int
	fs       bool
	monDir   string    // the directory as monitors are told
	start    time.Time // window
	limit    time.Time
	zoneSalt int
	key      *Key
	name     string

	cur  *Proc
	old  []*Proc
	base uint64

	mu   sync.Mutex
	scts map[Hash][]*Reply // accepted replies by certificate fingerprint
	seq  int

	confMod          func([]byte) []byte // changes the configuration before it is stored; nil result: nothing is stored
	tileCache        map[string][]*Ent
	firstT0, firstT1 map[string]time.Time
}

// Proc is one instance of the submission service.
type Proc struct {
	inst   *Inst
	kv     string
	h      http.Handler
	cancel context.CancelFunc
	ctx    context.Context
	link   string // filesystem store: the instance's own name for the directory
}

// WorldOpts configures a World.
type WorldOpts struct {
	Base  uint64 // initial tree size
	Mask  int
	Flush int
	Crowd int // with mask 1: further records in every index and dedupe file
	FS    bool
	Start time.Time
	Limit time.Time
	Roots [][]byte
	Key   *Key   // of the log
	Name  string // of the log

	Near   []*Chain  // the dedupe map holds records that only begin like these (and like the logged ones, if there are any)
	Logged []*Logged // certificates that were logged long ago; Idx has to be in the last data tile of the base
}

// crowd gives some of the cases index and dedupe files with thousands of records.
func (o *WorldOpts) crowd(c *Case) {
	if o.Base > 0 && c.Chance("crowd", 12) {
		o.Mask, o.Crowd = 1, c.Uni("crowd-n", 1, 6)*c.Uni("crowd-m", 1, 500)
		c.Label("crowded index files")
		c.Note("%d further records in every index and dedupe file", o.Crowd)
	}
}

// Logged is a certificate that was logged before the history begins.
type Logged struct {
	Chain *Chain
	Idx   uint64
	Ts    uint64
}

func (l *Logged) ent() *Ent {
	e := l.Chain.expect()
	e.Ts, e.Idx = l.Ts, l.Idx
	return e
}

// sct is the response that was given when it was logged.
func (l *Logged) sct() sctJSON {
	id := logID()
	x := []byte{0, 0, 5, byte(l.Idx >> 32), byte(l.Idx >> 24), byte(l.Idx >> 16), byte(l.Idx >> 8), byte(l.Idx)}
	return sctJSON{ID: id[:], Timestamp: l.Ts, Extensions: base64.StdEncoding.EncodeToString(x)}
}

// baseEnt is the synthetic entry at an index of a virtual base tree.
func baseEnt(idx uint64) *Ent {
	p := prf(fmt.Sprintf("base entry %d", idx), 48)
	e := &Ent{Ts: 1600000000000 + idx%1000000, Idx: idx, Cert: p[:20+int(p[40])%24]}
	pk := pki()
	if p[41]%2 == 0 {
		e.Fps = []Hash{pk.I1.fp(), pk.R1.fp()}
	} else {
		e.Fps = []Hash{pk.R2.fp()}
	}
	if p[42]%3 == 0 {
		e.Pre = true
		e.IKH = sha256.Sum256(p)
		e.PreCert = append([]byte("pre"), p[:10+int(p[43])%30]...)
	}
	return e
}

// baseTree makes a virtual tree of the given size in which the right-most data tile is real.
func baseTree(size uint64, logged ...*Logged) (*Tree, map[uint64]*Ent) {
	over := map[uint64]Hash{}
	ents := map[uint64]*Ent{}
	if size > 0 {
		for i := (size - 1) / 256 * 256; i < size; i++ {
			e := baseEnt(i)
			for _, l := range logged {
				if l.Idx == i {
					e = l.ent()
				}
			}
			ents[i] = e
			over[i] = leafHash(e.leafInput())
		}
	}
	return newTree(size, over), ents
}

// virtTiles serves the tiles of a base tree: full ones, and partial ones at exactly the widths of that size.
func virtTiles(t *Tree, size uint64, ents func(i uint64) *Ent) func(key string) ([]byte, bool) {
	var mu sync.Mutex
	cache := map[string][]byte{}
	return func(key string) ([]byte, bool) {
		l, n, w, ok := parseTilePath(key)
		if !ok {
			return nil, false
		}
		lv := l
		if lv < 0 {
			lv = 0
		}
		if !hashTileExists(size, lv, n, w) {
			return nil, false
		}
		if w != 256 && n*256+uint64(w) != size>>(8*lv) {
			return nil, false
		}
		mu.Lock()
		defer mu.Unlock()
		if b, ok := cache[key]; ok {
			return b, true
		}
		var b []byte
		if l >= 0 {
			b = t.HashTile(l, n, w)
		} else {
			for i := n * 256; i < n*256+uint64(w); i++ {
				e := ents(i)
				if e == nil {
					return nil, false
				}
				b = append(b, e.tileLeaf()...)
			}
		}
		if len(cache) < 400 {
			cache[key] = b
		}
		return b, true
	}
}

func newWorld(c *Case, o WorldOpts) *World {
	if o.Mask == 0 {
		o.Mask = 3
	}
	if o.Flush == 0 {
		o.Flush = 10
	}
	if o.Start.IsZero() {
		o.Start = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if o.Limit.IsZero() {
		o.Limit = time.Date(2030, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if o.Roots == nil {
		o.Roots = pki().roots()
	}
	if o.Key == nil {
		o.Key = logKey()
	}
	if o.Name == "" {
		o.Name = origin
	}
	w := &World{c: c, key: o.Key, name: o.Name, mask: o.Mask, flush: o.Flush, fs: o.FS, start: o.Start, limit: o.Limit, base: o.Base, scts: map[Hash][]*Reply{}}
	w.st = newStore(o.Mask)
	tree, ents := baseTree(o.Base, o.Logged...)
	if o.FS {
		w.st.dir = filepath.Join(scratchDir(), w.st.ID)
		must0(os.MkdirAll(w.st.dir, 0o755))
		w.monDir = c.dirForm(w.st.dir)
	} else {
		w.st.drawStyle(c)
		w.st.virt = virtTiles(tree, o.Base, func(i uint64) *Ent { return ents[i] })
	}
	w.aud = newAuditor(o.Key, o.Name, o.Mask, tree, ents)
	files := map[string][]hashRec{}
	for i, e := range ents {
		h := leafHash(e.leafInput())
		k := "int/hashes/" + refBucketPath(h[:], o.Mask)
		files[k] = append(files[k], hashRec{[16]byte(h[:16]), i})
	}
	if o.Crowd > 0 && o.Mask == 1 {
		for d := 0; d < 16; d++ {
			x := fmt.Sprintf("%x", d)
			files["int/hashes/"+x] = append(files["int/hashes/"+x], crowdRecs("world-crowd", x, o.Crowd, o.Base)...)
		}
	}
	for k, recs := range files {
		sort.Slice(recs, func(i, j int) bool { return bytes.Compare(recs[i].H[:], recs[j].H[:]) < 0 })
		var b []byte
		for _, r := range recs {
			b = append(b, encHashRec(r)...)
		}
		w.st.put(k, b)
	}
	dfiles := map[string][]dedupeRec{}
	for _, l := range o.Logged {
		fp := l.Chain.expect().certFp()
		k := "int/dedupe/" + refBucketPath(fp[:], o.Mask)
		dfiles[k] = append(dfiles[k], dedupeRec{[16]byte(fp[:16]), l.Idx, l.Ts})
		for _, a := range l.Chain.Verified {
			w.st.put(fmt.Sprintf("issuer/%x", a.fp()), a.Cert)
		}
	}
	near := append([]*Chain{}, o.Near...)
	if len(near) > 0 {
		for _, l := range o.Logged {
			near = append(near, l.Chain)
		}
	}
	for i, ch := range near {
		fp := ch.expect().certFp()
		k := "int/dedupe/" + refBucketPath(fp[:], o.Mask)
		for j := 0; j < 3; j++ {
			p := prf(fmt.Sprintf("near %d %d %s", i, j, ch.Leaf.Spec.Label), 24)
			h := [16]byte(fp[:16])
			at := 4 + int(p[17])%12
			h[at] ^= 1 << (p[18] % 8)
			copy(h[at+1:], p)
			dfiles[k] = append(dfiles[k], dedupeRec{h, binary.LittleEndian.Uint64(p[16:]) % o.Base, 1500000000000 + uint64(p[16])})
		}
	}
	if o.Crowd > 0 && o.Mask == 1 {
		for d := 0; d < 16; d++ {
			x := fmt.Sprintf("%x", d)
			for _, r := range crowdRecs("world-crowd-dedupe", x, o.Crowd, o.Base) {
				dfiles["int/dedupe/"+x] = append(dfiles["int/dedupe/"+x], dedupeRec{r.H, r.Idx, 1500000000000 + r.Idx%1000})
			}
		}
	}
	for k, recs := range dfiles {
		sort.Slice(recs, func(i, j int) bool { return bytes.Compare(recs[i].H[:], recs[j].H[:]) < 0 })
		var b []byte
		for _, r := range recs {
			b = append(b, encDedupeRec(r)...)
		}
		w.st.put(k, b)
	}
	w.st.put("ct/v1/get-roots", rootsJSON(o.Roots))
	h0 := Head{o.Base, 1600001000000, tree.Root(o.Base)}
	w.st.put("ct/v1/get-sth", makeSTH(o.Key, h0))
	if o.Base > 0 {
		p := pki()
		for _, a := range []*CA{p.I1, p.R1, p.R2} {
			fp := a.fp()
			w.st.put(fmt.Sprintf("issuer/%x", fp), a.Cert)
		}
		if o.FS { // real tiles needed for loading and for proofs on the right edge
			v := virtTiles(tree, o.Base, func(i uint64) *Ent { return ents[i] })
			for l := -1; l < 6; l++ {
				lv := l
				if lv < 0 {
					lv = 0
				}
				cnt := o.Base >> (8 * lv)
				if cnt == 0 {
					continue
				}
				n := (cnt - 1) / 256
				k := refTilePath(l, n, int(cnt-n*256))
				if b, ok := v(k); ok {
					w.st.put(k, b)
				}
			}
		}
	}
	if !o.FS {
		w.st.aud = w.aud
	}
	return w
}

// close ends the world.
func (w *World) close() {
	if w.cur != nil {
		w.cur.kill()
		w.old = append(w.old, w.cur)
		w.cur = nil
	}
	for _, p := range w.old {
		p.inst.Quiesce()
		p.inst.closeConns()
		if p.link != "" {
			os.Remove(p.link)
		}
	}
	w.st.close()
	if w.fs {
		os.RemoveAll(w.st.dir)
	}
}

// kill is the loss of the process as seen from outside: no further operation succeeds.
func (p *Proc) kill() {
	p.inst.Kill()
	if p.link != "" { // nothing reaches the directory by that name any more
		must0(os.Symlink(keyFile(logKey()), p.link+".dead"))
		must0(os.Rename(p.link+".dead", p.link))
		time.Sleep(2 * time.Millisecond)
	}
	p.cancel()
}

var kvSeq int64

func (w *World) configJSON(inst *Inst, link string) []byte {
	id := sha256.Sum256(w.key.SPKI)
	m := map[string]any{
		"name": w.name, "keyPath": keyFile(w.key), "logID": base64.StdEncoding.EncodeToString(id[:]), "maskSize": w.mask,
		"notAfterStart": w.start.In(w.zone("start")).Format(time.RFC3339), "notAfterLimit": w.limit.In(w.zone("limit")).Format(time.RFC3339), "flushMs": w.flush, "listenAddress": "127.0.0.1:0",
	}
	if w.fs {
		m["rootDirectory"] = w.st.dir
		if link != "" {
			m["rootDirectory"] = link
		}
	} else {
		m["s3Bucket"] = inst.Name
		m["s3Region"] = "us-east-1"
		m["s3EndpointUrl"] = s3().url
		m["s3StaticCredentialUserName"] = "user"
		m["s3StaticCredentialPassword"] = "password"
	}
	b, _ := json.Marshal(m)
	return b
}

// zone is the time zone in which the configuration gives a bound of the window.
func (w *World) zone(which string) *time.Location {
	o := []int{0, 0, 120, -480, 345, 840, -720}[prf(fmt.Sprint(which, w.zoneSalt), 1)[0]%7]
	return time.FixedZone("", o*60)
}

// boot starts a new instance; plan applies from its first operation (loading included).
func (w *World) boot(plan func(op Op) Action) error {
	inst := w.st.newInst()
	inst.plan = plan
	var err error
	var msg string
	if err, msg = w.bootInst(inst); msg != "" {
		w.c.Violate("loading the log panicked: %s", msg)
	}
	return err
}

// startLog loads and starts a log under a lock that nobody holds; msg describes a panic.
func (c *Case) startLog(ctx context.Context, kv string, inst *Inst) (h http.Handler, err error, msg string) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		msg = Panics(func() {
			var lg *ctsubmit.Log
			if lg, err = ctsubmit.LoadLog(ctx, kv, consul().addr); err == nil {
				h, err = lg.Start(ctx)
			}
		})
	}()
	start, late0 := time.Now(), atomic.LoadInt64(&heartLate)
	for {
		select {
		case p := <-done:
			if p != nil {
				panic(p)
			}
			return h, err, msg
		case <-time.After(time.Second):
			late := 6 * time.Duration(atomic.LoadInt64(&heartLate)-late0)
			idle := time.Since(time.Unix(0, atomic.LoadInt64(&inst.last)))
			if t := time.Since(start); t-late > 45*time.Second && idle-late > 20*time.Second && atomic.LoadInt64(&inst.infl) == 0 {
				c.Violate("the log has not started after %v, although nobody holds its lock and the store does not keep it waiting", t)
			}
		}
	}
}

func (w *World) bootInst(inst *Inst) (error, string) {
	kv := fmt.Sprintf("verif/%d", atomic.AddInt64(&kvSeq, 1))
	link := ""
	if w.fs {
		link = w.st.dir + "." + inst.Name
		must0(os.Symlink(w.st.dir, link))
	}
	conf := w.configJSON(inst, link)
	if w.confMod != nil {
		conf = w.confMod(conf)
	}
	if conf != nil {
		consul().putKV(kv+"/config", conf)
	}
	ctx, cancel := context.WithCancel(context.Background())
	p := &Proc{inst: inst, kv: kv, cancel: cancel, ctx: ctx, link: link}
	loaded := false
	defer func() {
		if !loaded {
			p.kill()
			w.old = append(w.old, p)
		}
	}()
	h, err, msg := w.c.startLog(ctx, kv, inst)
	if err == nil && msg == "" {
		loaded = true
		p.h = h
		w.cur = p
	}
	return err, msg
}

// tryBoot starts an instance that need not start. To end with a panic is to refuse.
func (w *World) tryBoot(plan func(op Op) Action) (*Inst, error) {
	inst := w.st.newInst()
	inst.plan = plan
	err, msg := w.bootInst(inst)
	if msg != "" {
		return inst, fmt.Errorf("panic: %s", msg)
	}
	return inst, err
}

// mustBoot starts an instance that has to start; otherwise it is an oracle failure.
func (w *World) mustBoot(why string) {
	if err := w.boot(nil); err != nil {
		w.c.Violate("the log does not load (%s): %v", why, err)
	}
}

// retire ends the current instance.
func (w *World) retire() {
	if w.cur == nil {
		return
	}
	w.cur.kill()
	w.cur.inst.Quiesce()
	w.old = append(w.old, w.cur)
	w.cur.inst.closeConns()
	w.cur = nil
}

// released reports whether the instance gave up its leadership.
func (p *Proc) released() bool { return consul().releases(p.kv+"/lock") > 0 }

// ---------------------------------------------------------------- submissions

// Reply is the outcome of a submission.
type Reply struct {
	Chain      *Chain
	Code       int
	Body       []byte
	Panic      string
	T0, T1     time.Time
	Head       []byte // STH object visible at the instant of the reply
	Entry      []byte // data tile of the entry at that instant
	SCT        sctJSON
	Idx        uint64
	Ent        *Ent // entry found at Idx at that instant
	Err        string
	ErrClass   string
	Proc       *Proc
	FreshGuess bool
}

type sctJSON struct {
	Version    int    `json:"sct_version"`
	ID         []byte `json:"id"`
	Timestamp  uint64 `json:"timestamp"`
	Extensions string `json:"extensions"`
	Signature  []byte `json:"signature"`
}

func chainBody(posted [][]byte) []byte {
	b, _ := json.Marshal(map[string]any{"chain": posted})
	return b
}

// post sends a body to an endpoint of the current instance.
func (p *Proc) post(path string, body []byte) (code int, resp []byte, panicMsg string) {
	return p.postCtx(context.Background(), path, body)
}

// postCtx is post by a client that may go away.
func (p *Proc) postCtx(ctx context.Context, path string, body []byte) (code int, resp []byte, panicMsg string) {
	req := httptest.NewRequest("POST", path, bytes.NewReader(body)).WithContext(ctx)
	// what must not matter: the content type, whether the length is announced, how the body arrives
	h := sha256.Sum256(body)
	if ct := []string{"", "application/json", "application/json; charset=utf-8", "application/x-www-form-urlencoded", "text/plain", "multipart/form-data; boundary=x"}[h[0]%6]; ct != "" {
		req.Header.Set("Content-Type", ct)
	}
	if h[1]%3 == 0 {
		req.ContentLength, req.TransferEncoding = -1, []string{"chunked"}
	}
	if h[2]%3 == 0 {
		req.Body = io.NopCloser(iotest.HalfReader(req.Body))
	}
	if h[2]%3 == 1 {
		req.Body = io.NopCloser(iotest.DataErrReader(req.Body))
	}
	rec := httptest.NewRecorder()
	panicMsg = Panics(func() { p.h.ServeHTTP(rec, req) })
	return rec.Code, rec.Body.Bytes(), panicMsg
}

func endpoint(pre bool) string {
	if pre {
		return "/ct/v1/add-pre-chain"
	}
	return "/ct/v1/add-chain"
}

// submitOn posts the chain to an instance and evaluates the reply at that very instant.
func (w *World) submitOn(p *Proc, ch *Chain) *Reply {
	r := &Reply{Chain: ch, Proc: p}
	body := chainBody(ch.Posted)
	r.T0 = time.Now()
	r.Code, r.Body, r.Panic = p.post(endpoint(ch.Leaf.Spec.Pre), body)
	r.T1 = time.Now()
	if r.Code == 200 && r.Panic == "" {
		w.judge(r)
		w.mu.Lock()
		w.scts[sha256.Sum256(ch.Leaf.DER)] = append(w.scts[sha256.Sum256(ch.Leaf.DER)], r)
		w.mu.Unlock()
	}
	return r
}

func (w *World) submit(ch *Chain) *Reply { return w.submitOn(w.cur, ch) }

// submitAll posts all chains concurrently and waits.
func (w *World) submitAll(chs []*Chain) []*Reply {
	out := make([]*Reply, len(chs))
	var wg sync.WaitGroup
	p := w.cur
	for i := range chs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer w.recoverInfra()
			out[i] = w.submitOn(p, chs[i])
		}()
	}
	wg.Wait()
	return out
}

func (w *World) recoverInfra() { recoverInfraValue(recover()) }

// recoverInfra is deferred in goroutines of the harness.
func recoverInfra() { recoverInfraValue(recover()) }

func recoverInfraValue(r any) {
	if r != nil {
		if ie, ok := r.(infraError); ok {
			cur.mu.Lock()
			cur.res.Infra = append(cur.res.Infra, ie.msg)
			cur.mu.Unlock()
			return
		}
		panic(r)
	}
}

// judge checks a 200 reply against the store as it is now (property C01 and parts of others). Errors are classified:
// sct (malformed/ wrong signature), cover (head does not cover), entry (wrong entry), dedupe (record missing).
func (w *World) judge(r *Reply) {
	bad := func(class, format string, a ...any) {
		if r.Err == "" {
			r.ErrClass = class
			r.Err = fmt.Sprintf("[%s] %s: ", class, r.Chain.Desc) + fmt.Sprintf(format, a...)
		}
	}
	if err := json.Unmarshal(r.Body, &r.SCT); err != nil {
		bad("sct", "the response is not JSON: %v", err)
		return
	}
	id := sha256.Sum256(w.key.SPKI)
	if !bytes.Equal(r.SCT.ID, id[:]) || r.SCT.Version != 0 {
		bad("sct", "log ID or version is wrong: %s", r.Body)
		return
	}
	x, err := base64.StdEncoding.DecodeString(r.SCT.Extensions)
	if err != nil || len(x) != 8 || x[0] != 0 || x[1] != 0 || x[2] != 5 {
		bad("sct", "extensions are not a leaf_index: %q", r.SCT.Extensions)
		return
	}
	for _, b := range x[3:] {
		r.Idx = r.Idx<<8 | uint64(b)
	}
	sth, ok := w.st.get("ct/v1/get-sth")
	if !ok {
		bad("cover", "no STH is stored when the SCT is returned")
		return
	}
	h, err := parseSTH(sth, w.aud.pub)
	if err != nil {
		bad("cover", "no valid STH is stored when the SCT is returned: %v", err)
		return
	}
	if h.Size <= r.Idx {
		bad("cover", "an SCT for leaf index %d was returned while the published tree size is %d", r.Idx, h.Size)
		return
	}
	t := r.Idx / 256
	wd := 256
	if (t+1)*256 > h.Size {
		wd = int(h.Size - t*256)
	}
	key := refTilePath(-1, t, wd)
	b, ok := w.st.get(key)
	if !ok {
		bad("entry", "SCT for index %d, size %d is published, but data tile %s is not stored", r.Idx, h.Size, key)
		return
	}
	es, err := decTile(b)
	if err != nil || len(es) <= int(r.Idx%256) {
		bad("entry", "SCT for index %d: data tile %s has %d entries (%v)", r.Idx, key, len(es), err)
		return
	}
	e := es[r.Idx%256]
	r.Ent = e
	want := r.Chain.expect()
	want.Ts, want.Idx = r.SCT.Timestamp, r.Idx
	if !bytes.Equal(e.leafInput(), want.leafInput()) {
		why := "different certificate or issuer"
		if e.Ts != want.Ts {
			why = fmt.Sprintf("logged timestamp %d, SCT timestamp %d", e.Ts, want.Ts)
		} else if e.Idx != want.Idx {
			why = fmt.Sprintf("logged index %d", e.Idx)
		} else if e.Pre && e.IKH != want.IKH {
			why = "different issuer key hash"
		} else if !bytes.Equal(e.Cert, want.Cert) {
			why = "different certificate bytes"
		}
		bad("entry", "the entry stored at index %d is not what was submitted (%s)", r.Idx, why)
	}
	if e.Pre && !bytes.Equal(e.PreCert, want.PreCert) {
		bad("entry", "the precertificate stored at index %d differs from the submitted one", r.Idx)
	}
	if err := verifyDS(w.aud.pub, want.leafInput(), r.SCT.Signature); err != nil {
		bad("sct", "the SCT's signature does not verify over the submitted certificate's leaf (index %d): %v", r.Idx, err)
	}
	if err := verifyDS(w.aud.pub, e.leafInput(), r.SCT.Signature); err != nil {
		bad("entry", "the SCT's signature does not verify over the logged leaf (index %d): %v", r.Idx, err)
	}
	if !preIssued(e) {
		fp := e.certFp()
		dk := "int/dedupe/" + refBucketPath(fp[:], w.mask)
		db, _ := w.st.get(dk)
		recs, err := decDedupeFile(db)
		found := false
		for _, rc := range recs {
			found = found || rc == dedupeRec{[16]byte(fp[:16]), r.Idx, r.SCT.Timestamp}
		}
		if err != nil || !found {
			bad("dedupe", "the SCT (index %d, timestamp %d) was returned but %s does not record it for %x (%v)", r.Idx, r.SCT.Timestamp, dk, fp[:16], err)
		}
	}
}

// raise reports reply errors of the given classes ("panic" and all if none given).
func (w *World) raise(rs []*Reply, classes ...string) {
	for _, r := range rs {
		if r == nil {
			continue
		}
		if r.Panic != "" {
			w.c.Violate("submission of %s: %s", r.Chain.Desc, r.Panic)
		}
		if r.Err == "" {
			continue
		}
		if len(classes) == 0 {
			w.c.Violate("%s", r.Err)
		}
		for _, cl := range classes {
			if r.ErrClass == cl {
				w.c.Violate("%s", r.Err)
			}
		}
	}
}

// check raises auditor failures of the given classes.
func (w *World) check(classes ...string) {
	if w.fs {
		w.fsAudit()
	}
	if f := w.aud.failures(classes...); len(f) > 0 {
		w.c.Violate("%s\nlast writes:\n%s", strings.Join(f, "\n"), w.aud.putTail(25))
	}
}

// fsAudit samples the heads of a filesystem store.
func (w *World) fsAudit() {
	w.st.mu.Lock()
	defer w.st.mu.Unlock()
	if b, ok := w.st.getLocked("ct/v1/get-sth"); ok {
		w.aud.head(w.st.getLocked, "sth", b)
	}
	if b, ok := w.st.getLocked("checkpoint"); ok {
		w.aud.head(w.st.getLocked, "checkpoint", b)
	}
}

// publishedSize is the size of the visible STH.
func (w *World) publishedHead() Head {
	b, ok := w.st.get("ct/v1/get-sth")
	if !ok {
		w.c.Violate("the STH object is gone")
	}
	h, err := parseSTH(b, w.aud.pub)
	if err != nil {
		w.c.Violate("the visible STH is invalid: %v", err)
	}
	return h
}

// waitHeads waits for n further head writes (both streams count); false if the log seems stuck.
func (w *World) waitHeads(n int64) bool {
	if w.fs {
		seen := int64(0)
		var last [2]string
		first := true
		return w.waitFor(func() bool {
			for i, k := range []string{"ct/v1/get-sth", "checkpoint"} {
				b, _ := w.st.get(k)
				if string(b) != last[i] {
					last[i] = string(b)
					if !first {
						seen++
						w.st.bumpActivity()
					}
				}
			}
			first = false
			return seen >= n
		})
	}
	start := atomic.LoadInt64(&w.st.headPuts)
	return w.waitFor(func() bool { return atomic.LoadInt64(&w.st.headPuts) >= start+n })
}

// waitFor polls until cond holds. It gives up only after 20 s without any storage activity of the current instance, or 100 s with
// some, while this process was being scheduled.
func (w *World) waitFor(cond func() bool) bool {
	late0 := atomic.LoadInt64(&heartLate)
	start, lateStart := time.Now(), late0
	idleStart := time.Now()
	lastN := int64(-1)
	for d := 200 * time.Microsecond; ; {
		if cond() {
			return true
		}
		time.Sleep(d)
		if d < 5*time.Millisecond {
			d *= 2
		}
		n := atomic.LoadInt64(&w.st.nPuts) + atomic.LoadInt64(&w.st.reads)
		if n != lastN {
			lastN = n
			idleStart = time.Now()
			late0 = atomic.LoadInt64(&heartLate)
		}
		late := time.Duration(atomic.LoadInt64(&heartLate) - late0)
		if time.Since(idleStart)-4*late > 20*time.Second {
			return false
		}
		if time.Since(start)-6*time.Duration(atomic.LoadInt64(&heartLate)-lateStart) > 100*time.Second {
			return false
		}
		if time.Since(idleStart) > 120*time.Second {
			Infra("waited 120 s (process starved for %v)", late)
		}
	}
}

// ---------------------------------------------------------------- generators of submissions

// genChain draws an acceptable chain with a fresh leaf.
func (w *World) genChain(label string) *Chain {
	c := w.c
	w.seq++
	pre := c.Bool("pre")
	paths := goodPaths(pre)
	path := paths[c.Int("path", 0, len(paths)-1)]
	spec := LeafSpec{Label: fmt.Sprintf("%s-%d-%d", label, w.seq, c.Int("salt", 0, 1<<30)), Pre: pre}
	if c.Chance("big", 8) {
		spec.Pad = c.Int("pad", 1, 20000)
	}
	if pre {
		spec.PoisonPos = c.Int("poison", 0, 5)
	}
	return makeChain(makeLeaf(spec, path[0]), path, c.Bool("withRoot"))
}

// cheapChain makes a chain without drawing anything but its parameters.
func cheapChain(label string, pre bool, pathIx int, withRoot bool) *Chain {
	paths := goodPaths(pre)
	path := paths[pathIx%len(paths)]
	return makeChain(makeLeaf(LeafSpec{Label: label, Pre: pre}, path[0]), path, withRoot)
}

// genBatch draws n chains compactly (few draws).
func (w *World) genBatch(label string, n int) []*Chain {
	c := w.c
	salt := c.Int("salt", 0, 1<<30)
	var out []*Chain
	for i := 0; i < n; i++ {
		w.seq++
		r := prf(fmt.Sprintf("batch %d %d", salt, i), 4)
		out = append(out, cheapChain(fmt.Sprintf("%s-%d-%d", label, salt, w.seq), r[0]&1 == 1, int(r[1]), r[2]&1 == 1))
	}
	return out
}

// baseSizes is a generator of interesting starting sizes.
func (c *Case) baseSize(name string) uint64 {
	switch c.weighted(name+"-kind", 30, 25, 15, 12, 10, 8) {
	case 0:
		return uint64(c.Int(name, 0, 3))
	case 1: // near a tile boundary
		return uint64(c.Int(name+"-t", 1, 4)*256 + c.Int(name+"-d", -6, 3))
	case 2: // near a level-1 tile boundary
		return uint64(c.Int(name+"-t", 1, 3)*65536 + c.Int(name+"-d", -8, 3))
	case 3: // near 2^24, 2^32, 2^33
		return uint64(int64(1)<<pick(c, name+"-p", 24, 32, 33, 39) + int64(c.Int(name+"-d", -8, 3)))
	case 4:
		return c.U64(name, 0, 70000)
	default:
		return c.U64(name, 0, 1<<40-4096)
	}
}

// ---------------------------------------------------------------- monitor

// Mon is a read-path instance.
type Mon struct {
	h http.Handler
}

func (w *World) monitor() *Mon {
	if w.fs {
		return newMon(w.monDir, "", w.mask)
	}
	return newMon("", w.st.readURL(), w.mask)
}

func newMon(dir, url string, mask int) *Mon {
	return &Mon{must(ctmonitor.Start(context.Background(), dir, url, mask))}
}

// get performs a request; panics of the code under test are returned.
func (m *Mon) get(pathAndQuery string) (code int, body []byte, panicMsg string) {
	return m.do("GET", pathAndQuery)
}

func (m *Mon) do(method, pathAndQuery string) (code int, body []byte, panicMsg string) {
	return m.doCtx(context.Background(), method, pathAndQuery)
}

// noAnswer is how long a request may take although the store answers (or refuses) everything within moments.
const noAnswer = 25 * time.Second

func (m *Mon) doCtx(ctx context.Context, method, pathAndQuery string) (code int, body []byte, panicMsg string) {
	req := httptest.NewRequest(method, "http://monitor/", nil).WithContext(ctx)
	// the request line as a server would parse it, without the client's checks
	p, q, _ := strings.Cut(pathAndQuery, "?")
	req.URL.Path, req.URL.RawQuery = p, q
	req.RequestURI = pathAndQuery
	rec := httptest.NewRecorder()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		panicMsg = Panics(func() { m.h.ServeHTTP(rec, req) })
	}()
	start, late0 := time.Now(), atomic.LoadInt64(&heartLate)
	for {
		select {
		case p := <-done:
			if p != nil {
				panic(p)
			}
			return rec.Code, rec.Body.Bytes(), panicMsg
		case <-time.After(time.Second):
			if t := time.Since(start) - 6*time.Duration(atomic.LoadInt64(&heartLate)-late0); t > noAnswer {
				return 0, nil, fmt.Sprintf("no answer to %s after %v", pathAndQuery, t)
			}
		}
	}
}
