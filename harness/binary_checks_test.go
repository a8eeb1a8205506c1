package verifh

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	ct "github.com/google/certificate-transparency-go"
	"github.com/google/certificate-transparency-go/client"
	"github.com/google/certificate-transparency-go/jsonclient"
)

// ---------------------------------------------------------------- the programs of cmd/

// agent is the local Consul agent, at the address itko-submit expects it.
var agent = sync.OnceValue(func() *fakeConsul {
	for t0 := time.Now(); ; time.Sleep(500 * time.Millisecond) {
		l, err := net.Listen("tcp", "127.0.0.1:8500")
		if err == nil {
			return newFakeConsulOn(false, l)
		}
		if time.Since(t0) > 100*time.Second {
			Infra("127.0.0.1:8500 is in use: %v", err)
		}
	}
})

func program(name string) string {
	d := os.Getenv("VH_BINDIR")
	if d == "" {
		Infra("the programs were not built")
	}
	return filepath.Join(d, name)
}

var portSeq int64

// freePort finds a port below the ephemeral range, so that nothing else takes it.
func freePort() int {
	base := 12000 + atoiDef(os.Getenv("VH_WORKER"), 0)*1500
	for i := 0; i < 1500; i++ {
		p := base + int(atomic.AddInt64(&portSeq, 1))%1500
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
	Infra("no free port")
	return 0
}

// Prog is a running program.
type Prog struct {
	args []string
	cmd  *exec.Cmd
	exit chan struct{}
	code int
	log  logTail
	addr string // listen address
}

func startProg(name string, addr string, args ...string) *Prog {
	p := &Prog{args: append([]string{name}, args...), exit: make(chan struct{}), addr: addr}
	p.cmd = exec.Command(program(name), args...)
	p.cmd.Dir = scratchDir()
	p.cmd.Stdout, p.cmd.Stderr = &p.log, &p.log
	p.cmd.Env = os.Environ()
	must0(p.cmd.Start())
	go func() {
		p.cmd.Wait()
		p.code = p.cmd.ProcessState.ExitCode()
		close(p.exit)
	}()
	return p
}

func (p *Prog) gone() bool {
	select {
	case <-p.exit:
		return true
	default:
		return false
	}
}

func (p *Prog) kill() {
	p.cmd.Process.Kill()
	<-p.exit
}

func (p *Prog) String() string { return strings.Join(p.args, " ") }

// waitGone waits for the end of the program; false if it stays alive although this process is being scheduled.
func (p *Prog) waitGone(limit time.Duration) bool {
	n := &LNode{exit: p.exit}
	return n.waitGone(limit)
}

// listens waits until the program accepts connections; "" or why not.
func (p *Prog) listens(c *Case) string {
	t0 := time.Now()
	late0 := atomic.LoadInt64(&heartLate)
	for {
		conn, err := net.DialTimeout("tcp", p.addr, time.Second)
		if err == nil {
			conn.Close()
			return ""
		}
		if p.gone() {
			return fmt.Sprintf("%s ended with status %d: %s", p, p.code, p.log.String())
		}
		if time.Since(t0)-6*time.Duration(atomic.LoadInt64(&heartLate)-late0) > 60*time.Second {
			return fmt.Sprintf("%s does not listen: %v; %s", p, err, p.log.String())
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// flags renders options in one of the ways the command line allows.
func (c *Case) flags(kv ...string) []string {
	var out []string
	var order []int
	for i := 0; i < len(kv); i += 2 {
		order = append(order, i)
	}
	if c.Bool("reverse") {
		for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	}
	for _, i := range order {
		dash := pick(c, "dash", "-", "--")
		if c.Bool("equals") {
			out = append(out, dash+kv[i]+"="+kv[i+1])
		} else {
			out = append(out, dash+kv[i], kv[i+1])
		}
	}
	return out
}

func (c *Case) listenAddr() string {
	return fmt.Sprintf("%s:%d", pick(c, "host", "127.0.0.1", "localhost"), freePort())
}

// startMonitor starts itko-monitor over a store and returns it and a way to ask it.
func (c *Case) startMonitor(dir, url string, mask int) (*Prog, *Mon) {
	addr := c.listenAddr()
	kv := []string{"listen-address", addr, "mask-size", fmt.Sprint(mask)}
	if dir != "" {
		kv = append(kv, "store-directory", dir)
	} else {
		kv = append(kv, "store-address", url)
	}
	p := startProg("itko-monitor", addr, c.flags(kv...)...)
	if m := p.listens(c); m != "" {
		c.Violate("%s", m)
	}
	return p, &Mon{remoteHandler(addr)}
}

// refused checks that a program ends with a failure and serves nothing.
func (c *Case) refused(why string, p *Prog, served func() string) {
	defer p.kill()
	if !p.waitGone(30 * time.Second) {
		c.Violate("%s still runs although %s: %s", p, why, p.log.String())
	}
	if p.code <= 0 {
		c.Violate("%s ended with status %d although %s: %s", p, p.code, why, p.log.String())
	}
	if m := served(); m != "" {
		c.Violate("%s: %s although %s", p, m, why)
	}
	c.Label("refuses: " + why)
}

// TestC25Monitor: itko-monitor over generated logs in directories and object stores.
func TestC25Monitor(t *testing.T) {
	rule := "one itko-monitor process over one static log (as in C09: object store or directory, mask sizes, leftovers), asked by several clients at a time while the published size advances; plus command lines with which it must not start"
	runCheck(t, "C25", rule, 24, 700, func(c *Case) {
		if c.Chance("refuse", 35) {
			c.refusals()
		}
		s := genSLog(c, c.Chance("fs", 40), 3, 0)
		defer s.close()
		dir, url := s.dirArg, s.st.readURL()
		if s.fs {
			url = ""
		}
		p, m := c.startMonitor(dir, url, s.mask)
		defer p.kill()
		c.Note("%s, mask %d, sizes %v", p, s.mask, s.sizes)
		for k := max(0, len(s.sizes)-2); k < len(s.sizes); k++ {
			s.publish(k)
			v := s.view()
			sth, _ := s.object("ct/v1/get-sth")
			if s.fs {
				sth, _ = os.ReadFile(filepath.Join(dir, "ct/v1/get-sth"))
			}
			if a := m.ask("/ct/v1/get-sth"); a.code != 200 || !bytes.Equal(a.body, sth) {
				c.Violate("%s: get-sth: %d %s, published is %s", p, a.code, a.body, sth)
			}
			var qs []query
			for j := 0; j < 12; j++ {
				if q, ok := s.genEntriesQuery(1024); ok {
					qs = append(qs, q)
				}
				i, ok := s.realIdx("i")
				if !ok {
					qs = append(qs, err4("empty", qEntries(0, 0)))
					break
				}
				z := s.drawSize("z", i+1, v.size)
				h := leafHash(s.ents[i].leafInput())
				switch c.Uni("q", 0, 3) {
				case 0:
					qs = append(qs, query{"proof", qProof(h, z), func(a answer) string { return v.checkProof(a, i, z) }})
				case 1:
					qs = append(qs, query{"entry and proof", qEntryProof(i, z), func(a answer) string { return v.checkEntryProof(a, i, z) }})
				case 2:
					qs = append(qs, query{"consistency", qCons(i, z), func(a answer) string { return v.checkCons(a, i, z) }})
				case 3:
					qs = append(qs, err4("past the end", qEntries(v.size, v.size+3)))
				}
			}
			if !s.fs && c.Chance("slow", 5) { // two of the reads take seconds
				d := time.Duration(c.Int("slowMs", 2200, 6500)) * time.Millisecond
				var n atomic.Int64
				s.st.mu.Lock()
				s.st.readPlan = func(key string) (a Action) {
					if strings.HasPrefix(key, "tile/") && n.Add(1) <= 2 {
						a.Before = d
					}
					return
				}
				s.st.mu.Unlock()
				c.Label("slow store")
			}
			s.ask(m, qs)
			s.st.mu.Lock()
			s.st.readPlan = nil
			s.st.mu.Unlock()
			if p.gone() {
				c.Violate("%s ended with status %d: %s", p, p.code, p.log.String())
			}
			if v.size > 0 {
				c.NonTrivial()
			}
		}
		c.LabelIf(s.fs, "directory")
		c.LabelIf(!s.fs, "url")
	})
}

// refusals are command lines with which the programs must not start.
func (c *Case) refusals() {
	addr := c.listenAddr()
	dead := func() string {
		if conn, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			conn.Close()
			return "something listens at " + addr
		}
		return ""
	}
	st := newStore(3)
	defer st.close()
	mon := map[string]string{"store-address": st.readURL(), "mask-size": "3", "listen-address": addr}
	if c.Bool("dir") {
		delete(mon, "store-address")
		mon["store-directory"] = scratchDir()
	}
	render := func(m map[string]string) (out []string) {
		for _, k := range []string{"store-directory", "store-address", "mask-size", "kv-path", "listen-address"} {
			if v, ok := m[k]; ok {
				out = append(out, "-"+k, v)
			}
		}
		return
	}
	empty := func(m map[string]string, k, zero string) { // not given, or given without a value
		if c.Bool("given") {
			m[k] = zero
		} else {
			delete(m, k)
		}
	}
	switch c.Uni("what", 0, 4) {
	case 0:
		empty(mon, "listen-address", "")
		c.refused("no address to listen on is given", startProg("itko-monitor", addr, render(mon)...), dead)
	case 1:
		empty(mon, "mask-size", "0")
		c.refused("no mask size is given", startProg("itko-monitor", addr, render(mon)...), dead)
	case 2:
		empty(mon, "store-address", "")
		empty(mon, "store-directory", "")
		c.refused("no store is given", startProg("itko-monitor", addr, render(mon)...), dead)
	case 3:
		l := must(net.Listen("tcp", addr))
		defer l.Close()
		c.refused("its address is in use", startProg("itko-monitor", addr, render(mon)...), func() string { return "" })
	case 4:
		switch c.Uni("submit", 0, 2) {
		case 0:
			m := map[string]string{"listen-address": addr}
			empty(m, "kv-path", "")
			delete(m, "kv-path")
			c.refused("no KV path is given", startProg("itko-submit", addr, render(m)...), dead)
		case 1:
			m := map[string]string{"kv-path": "verif-none"}
			empty(m, "listen-address", "")
			c.refused("no address to listen on is given", startProg("itko-submit", addr, render(m)...), dead)
		case 2:
			l := must(net.Listen("tcp", addr))
			defer l.Close()
			c.refused("its address is in use", startProg("itko-submit", addr, render(map[string]string{"kv-path": "verif-none", "listen-address": addr})...), func() string { return "" })
		}
	}
}

// binLog is one log run by the programs.
type binLog struct {
	w    *World
	kv   string
	inst *Inst
	sub  *Prog
	mon  *Prog
	m    *Mon
	lead int // starts so far
}

func (b *binLog) start(c *Case, why string) {
	addr := c.listenAddr()
	b.sub = startProg("itko-submit", addr, c.flags("kv-path", b.kv, "listen-address", addr)...)
	c.Note("%s", b.sub)
	if m := b.sub.listens(c); m != "" {
		c.Violate("%s: %s", why, m)
	}
	b.lead++
	b.w.cur = &Proc{inst: b.inst, kv: b.kv, h: remoteHandler(addr), cancel: func() {}, ctx: context.Background()}
}

// slowReader gives what it reads in about eight pieces.
type slowReader struct {
	r     io.Reader
	buf   []byte
	read  bool
	piece int
	pause time.Duration
}

func (s *slowReader) Read(p []byte) (int, error) {
	if !s.read {
		s.read = true
		b, err := io.ReadAll(s.r)
		if err != nil {
			return 0, err
		}
		s.buf, s.piece = b, len(b)/8+1
	}
	if len(s.buf) == 0 {
		return 0, io.EOF
	}
	time.Sleep(s.pause)
	n := copy(p[:min(len(p), s.piece)], s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

// slow submits once where that takes seconds: the store is slow, or the client is.
func (b *binLog) slow(c *Case, li int) int {
	w := b.w
	ch := w.genChain("slow")
	d := time.Duration(c.Int("slowMs", 2200, 3200)) * time.Millisecond
	if w.fs || c.Bool("client") {
		d *= time.Duration(c.weighted("longer", 60, 30, 10) + 1) // up to 10 s
		p := *w.cur
		p.h = http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			r.Body = io.NopCloser(&slowReader{r: r.Body, pause: d / 8})
			w.cur.h.ServeHTTP(rw, r)
		})
		r := w.submitOn(&p, ch)
		if r.Code != 200 {
			c.Violate("log %d (%s), a client that takes %v to send its submission: %d %s; %s", li, b.sub, d, r.Code, r.Body, b.sub.log.String())
		}
		c.Note("log %d: %s sent within %v", li, ch.Desc, d)
		c.Label("slow client")
		w.raise([]*Reply{r}, "sct", "cover", "entry")
		return 1
	}
	var n atomic.Int64
	b.inst.SetPlan(func(op Op) (a Action) {
		if op.Kind == "PUT" && (op.Class == "data" || op.Class == "tile" || op.Class == "sth") && n.Add(1) == 1 {
			a.Before = d
		}
		return
	})
	t0 := time.Now()
	r := w.submit(ch)
	b.inst.SetPlan(nil)
	if late := time.Since(t0) > 4500*time.Millisecond; r.Code != 200 && !(r.Code == 503 && late) { // the log gives up after five seconds
		c.Violate("log %d (%s), whose store takes %v for a write: %d %s; %s", li, b.sub, d, r.Code, r.Body, b.sub.log.String())
	}
	c.Note("log %d: %s with a store that takes %v", li, ch.Desc, d)
	c.Label("slow store")
	if r.Code != 200 {
		return 0
	}
	w.raise([]*Reply{r}, "sct", "cover", "entry")
	return 1
}

// stop ends the submission program.
func (b *binLog) stop(c *Case, how string) {
	switch how {
	case "interrupt":
		b.sub.cmd.Process.Signal(syscall.SIGINT)
		if !b.sub.waitGone(20 * time.Second) {
			c.Violate("%s does not end on an interrupt: %s", b.sub, b.sub.log.String())
		}
	default:
		b.sub.kill()
		agent().invalidate(agent().holder(b.kv + "/lock"))
	}
	b.w.cur = nil
}

// TestC25: several logs with one Consul agent, run by the programs, used by a standard client.
func TestC25(t *testing.T) {
	rule := "1 to 3 logs with keys, names, windows, mask sizes and storage kinds of their own share a Consul agent (KV paths that are prefixes of each other), each run by an itko-submit and an itko-monitor process with drawn command lines; submissions by the harness's and by the certificate-transparency-go client, interrupts and kills with restarts, read-back of everything through the monitor. Non-trivial: a log accepted entries and they were read back."
	runCheck(t, "C25", rule, 24, 500, func(c *Case) {
		agent() // before anything is started
		c.Faults()
		n := c.Uni("logs", 1, 3)
		kvs := []string{"itko", "itko/2025h1", "itkoalpha"}
		salt := fmt.Sprintf("%d-%d", os.Getpid(), atomic.AddInt64(&kvSeq, 1))
		var logs []*binLog
		defer func() {
			for _, b := range logs {
				if b.sub != nil {
					b.sub.kill()
				}
				if b.mon != nil {
					b.mon.kill()
				}
				b.w.cur = nil
				b.inst.Kill()
				b.inst.Quiesce()
				b.inst.closeConns()
				b.w.close()
				agent().invalidate(agent().holder(b.kv + "/lock"))
			}
			http.DefaultClient.CloseIdleConnections()
		}()
		for i := 0; i < n; i++ {
			o := WorldOpts{Mask: c.Uni("mask", 1, 5), Flush: c.Uni("flush", 5, 60), FS: c.Chance("fs", 40), Name: fmt.Sprintf("log%d.example/%s", i, salt),
				Key: ecKey(fmt.Sprintf("program log key %d", c.Uni("key", 0, 9)*3+i))}
			if !o.FS {
				o.Base = uint64(pick(c, "base", 0, 0, 1, 255, 256, 300, 65536, 70000))
			}
			w := newWorld(c, o)
			b := &binLog{w: w, kv: "v" + salt + "/" + kvs[i], inst: w.st.newInst()}
			logs = append(logs, b)
			agent().putKV(b.kv+"/config", w.configJSON(b.inst, ""))
			c.Note("log %d: %s, base %d, fs %v, mask %d, flush %d", i, b.kv, o.Base, o.FS, o.Mask, o.Flush)
			b.start(c, "at first")
			dir, url := w.monDir, w.st.readURL()
			if o.FS {
				url = ""
			}
			b.mon, b.m = c.startMonitor(dir, url, o.Mask)
		}
		total := 0
		for step := c.Uni("steps", 3, 8); step > 0; step-- {
			li := c.Uni("log", 0, n-1)
			b := logs[li]
			w := b.w
			switch c.weighted("step", 42, 24, 30, 4) {
			case 3:
				total += b.slow(c, li)
			case 0:
				chs := w.genBatch(fmt.Sprintf("log%d", li), c.Uni("n", 1, 8))
				chs = append(chs, w.genDuplicates(chs)...)
				rs := w.submitAll(chs)
				w.raise(rs, "sct", "cover", "entry")
				for _, r := range rs {
					if r.Code != 200 {
						c.Violate("log %d (%s) refused %s: %d %s; %s", li, b.sub, r.Chain.Desc, r.Code, r.Body, b.sub.log.String())
					}
				}
				total += len(chs)
				c.Note("log %d: %s", li, descs(chs))
			case 1:
				how := pick(c, "how", "interrupt", "kill")
				h0 := w.publishedHead()
				var second *Prog
				if c.Chance("standby", 50) { // another instance waits for the lock
					addr := c.listenAddr()
					second = startProg("itko-submit", addr, c.flags("kv-path", b.kv, "listen-address", addr)...)
					if m := second.listens(c); m != "" {
						second.kill()
						c.Violate("a second instance: %s", m)
					}
				}
				b.stop(c, how)
				c.Note("log %d: %s, standby %v", li, how, second != nil)
				c.Label("end by " + how)
				if second != nil {
					b.sub = second
					w.cur = &Proc{inst: b.inst, kv: b.kv, h: remoteHandler(second.addr), cancel: func() {}, ctx: context.Background()}
				} else {
					b.start(c, "after "+how)
				}
				r := w.submit(w.genChain("after"))
				if r.Code != 200 {
					c.Violate("log %d does not accept submissions after %s and a restart: %d %s; %s", li, how, r.Code, r.Body, b.sub.log.String())
				}
				w.raise([]*Reply{r}, "sct", "cover", "entry")
				if r.Idx < h0.Size {
					c.Violate("log %d gave index %d to a new certificate; the tree had size %d before", li, r.Idx, h0.Size)
				}
				total++
				w.rejudge("after " + how)
			case 2:
				total += b.standardClient(c, li)
			}
			c.Sync()
			w.check("head", "append", "tiles")
		}
		for li, b := range logs {
			if b.sub.gone() {
				c.Violate("log %d: %s ended with status %d: %s", li, b.sub, b.sub.code, b.sub.log.String())
			}
			if m := b.w.viewOf().sweep(b.m, b.w.base, 24); m != "" { // the size does not change any more
				c.Violate("log %d, %s: %s", li, b.mon, m)
			}
			b.w.rejudge("at the end")
		}
		if total > 0 {
			c.NonTrivial()
		}
		c.LabelN("submissions", total)
	})
}

// standardClient uses a log as any RFC 6962 client does; the client library verifies what it gets.
func (b *binLog) standardClient(c *Case, li int) int {
	w := b.w
	opts := jsonclient.Options{PublicKeyDER: w.key.SPKI}
	cli := func(addr string) *client.LogClient {
		return must(client.New("http://"+addr, &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}, opts))
	}
	sub, mon := cli(b.sub.addr), cli(b.mon.addr)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	bad := func(what string, err error) {
		c.Violate("log %d, standard client: %s: %v; %s %s", li, what, err, b.sub.log.String(), b.mon.log.String())
	}
	before, err := mon.GetSTH(ctx)
	if err != nil {
		bad("get-sth", err)
	}
	ch := w.genChain("client")
	ch = makeChain(ch.Leaf, ch.Verified, true) // the client needs the issuer to verify the SCT
	var asn []ct.ASN1Cert
	for _, p := range ch.Posted {
		asn = append(asn, ct.ASN1Cert{Data: p})
	}
	var sct *ct.SignedCertificateTimestamp
	if ch.Leaf.Spec.Pre {
		sct, err = sub.AddPreChain(ctx, asn)
	} else {
		sct, err = sub.AddChain(ctx, asn)
	}
	if err != nil {
		bad("add "+ch.Desc, err)
	}
	after, err := mon.GetSTH(ctx)
	if err != nil {
		bad("get-sth", err)
	}
	e := ch.expect()
	e.Ts = sct.Timestamp
	x := []byte(sct.Extensions)
	if len(x) != 8 {
		bad("extensions", fmt.Errorf("%x", x))
	}
	for _, v := range x[3:] {
		e.Idx = e.Idx<<8 | uint64(v)
	}
	lh := leafHash(e.leafInput())
	pr, err := mon.GetProofByHash(ctx, lh[:], after.TreeSize)
	if err != nil {
		bad("get-proof-by-hash", err)
	}
	if uint64(pr.LeafIndex) != e.Idx {
		bad("get-proof-by-hash", fmt.Errorf("index %d, the SCT says %d", pr.LeafIndex, e.Idx))
	}
	if root, ok := rootFromPath(lh, e.Idx, after.TreeSize, pr.AuditPath); !ok || root != Hash(after.SHA256RootHash) {
		bad("get-proof-by-hash", fmt.Errorf("the proof does not verify"))
	}
	raw, err := mon.GetRawEntries(ctx, int64(e.Idx), int64(e.Idx))
	if err != nil || len(raw.Entries) != 1 {
		bad("get-entries", fmt.Errorf("%v %v", err, raw))
	}
	if !bytes.Equal(raw.Entries[0].LeafInput, e.leafInput()) {
		bad("get-entries", fmt.Errorf("another entry than the one submitted"))
	}
	ents, err := mon.GetEntries(ctx, int64(e.Idx), int64(e.Idx))
	if err != nil || len(ents) != 1 || ents[0].Index != int64(e.Idx) {
		bad("get-entries (parsed)", fmt.Errorf("%v %v", err, ents))
	}
	ep, err := mon.GetEntryAndProof(ctx, e.Idx, after.TreeSize)
	if err != nil || !bytes.Equal(ep.LeafInput, e.leafInput()) {
		bad("get-entry-and-proof", fmt.Errorf("%v", err))
	}
	if root, ok := rootFromPath(lh, e.Idx, after.TreeSize, ep.AuditPath); !ok || root != Hash(after.SHA256RootHash) {
		bad("get-entry-and-proof", fmt.Errorf("the proof does not verify"))
	}
	w.check("head", "append", "tiles")
	cons, err := mon.GetSTHConsistency(ctx, before.TreeSize, after.TreeSize)
	if err != nil || !sameHashes(w.aud.tree.Cons(before.TreeSize, after.TreeSize), cons) {
		bad("get-sth-consistency", fmt.Errorf("%v: %d hashes", err, len(cons)))
	}
	roots, err := mon.GetAcceptedRoots(ctx)
	if err != nil {
		bad("get-roots", err)
	}
	want := map[Hash]string{}
	for i, r := range pki().roots() {
		want[sha256.Sum256(r)] = fmt.Sprint("root ", i)
	}
	var list [][]byte
	for _, r := range roots {
		list = append(list, r.Data)
	}
	if m := sameRoots(rootsJSON(list), want); m != "" {
		bad("get-roots", fmt.Errorf("%s", m))
	}
	c.Label("standard client")
	return 1
}

// rootFromPath computes the root of the tree of this size from a leaf and its audit path (RFC 9162, 2.1.3.2).
func rootFromPath(leaf Hash, idx, size uint64, path [][]byte) (Hash, bool) {
	if idx >= size {
		return Hash{}, false
	}
	fn, sn, r := idx, size-1, leaf
	node := func(a, b []byte) Hash { return sha256.Sum256(append(append([]byte{1}, a...), b...)) }
	for _, p := range path {
		if sn == 0 || len(p) != 32 {
			return Hash{}, false
		}
		if fn&1 == 1 || fn == sn {
			r = node(p, r[:])
			for fn&1 == 0 && fn != 0 {
				fn >>= 1
				sn >>= 1
			}
		} else {
			r = node(r[:], p)
		}
		fn >>= 1
		sn >>= 1
	}
	return r, sn == 0
}
