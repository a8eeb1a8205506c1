package verifh

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// ---------------------------------------------------------------- C04

func TestC04(t *testing.T) {
	rule := "A case is one history: accepted batches, then a batch during which the writer dies at one drawn storage operation (that operation and every operation in flight having happened or not), possibly a second death during loading or during the next batch, then recovery, read-back of the recent tree through the read API and further submissions. Non-trivial: the crash point was reached."
	runCheck(t, "C04", rule, 36, 2500, func(c *Case) {
		wo := WorldOpts{Mask: c.Uni("mask", 1, 5), Flush: c.Uni("flush", 3, 12), Base: c.baseSize("base")}
		w := newWorld(c, wo)
		defer w.close()
		lat := genLatency(c, 6)
		c.Note("log: base size %d, mask %d, flush %d, %v", wo.Base, wo.Mask, wo.Flush, lat)
		w.mustBoot("first start")
		w.cur.inst.SetPlan(lat.plan)
		for i, n := 0, c.Uni("before", 0, 2); i < n; i++ {
			chs := w.genBatch("a", c.Int("n", 1, 12))
			c.Note("submit %s", descs(chs))
			w.raise(w.submitAll(chs))
		}
		crashes := 1 + c.weighted("crashes", 70, 30)
		reached := 0
		for k := 0; k < crashes; k++ {
			x := genCrash(c)
			n := c.Int("n", 1, 20)
			if c.Chance("cross", 30) { // across the tile boundary
				n = int(256-w.publishedHead().Size%256) + c.Uni("over", -2, 3)
				if n < 1 {
					n = 1
				}
				if c.Chance("full", 60) {
					x = crashAt{"", "", c.Uni("crash-n", 0, 6), c.Chance("crash-apply", 80), true}
				}
			}
			chs := w.genBatch("x", n)
			c.Note("submit %d (%s) and %v", len(chs), descs(chs), x)
			p := w.cur
			rs := w.crashDuring(x, chs, lat.plan)
			w.raise(rs)
			c.Label("crash:" + x.kind + " " + x.class)
			if p.inst.crashed() {
				reached++
			}
			if c.Chance("crash-loading", 15) {
				at := c.Uni("load-op", 0, 5)
				c.Note("crash at operation %d of the restart", at)
				c.Label("crash while loading")
				err := w.boot(func(op Op) Action { return Action{Crash: op.N == at} })
				if err == nil { // fewer operations than that: the instance runs; end it
					w.retire()
				}
			}
			published := w.publishedHead()
			w.mustBoot("after " + x.String())
			w.cur.inst.SetPlan(lat.plan)
			w.mustProgress(3, "after "+x.String())
			if h := w.publishedHead(); h.Size != published.Size || h.Root != published.Root {
				c.Violate("after %v the tree head was size %d root %x; the restarted instance published size %d root %x without submissions", x, published.Size, published.Root, h.Size, h.Root)
			}
			w.check("append", "root", "backing", "issuer", "sig", "hashidx", "dedupe")
			w.rejudge("after " + x.String())
			v := w.viewOf()
			lo := uint64(0)
			if v.size > 30 {
				lo = v.size - 30
			}
			if lo < wo.Base/256*256 && wo.Base > 0 {
				lo = (wo.Base - 1) / 256 * 256
			}
			if msg := v.sweep(w.monitor(), lo, 30); msg != "" {
				c.Violate("after %v (published size %d): %s", x, v.size, msg)
			}
			// leaves of the interrupted batch that are not part of the tree must not be found: their records may be left over
			if msg := w.staleLeaves(v); msg != "" {
				c.Violate("after %v: %s", x, msg)
			}
			chs = w.genBatch("b", c.Int("n", 1, 10))
			c.Note("submit %s", descs(chs))
			rs = w.submitAll(chs)
			w.raise(rs)
			for _, r := range rs {
				if r.Code != 200 {
					c.Violate("after %v a submission was answered %d: %s", x, r.Code, r.Body)
				}
			}
			v = w.viewOf()
			if _, ok := w.st.get(refTilePath(-1, v.size/256, 256)); ok {
				c.Label("full tile left over")
			}
			if msg := v.sweep(w.monitor(), lo, 45); msg != "" {
				c.Violate("after %v and further submissions (published size %d): %s", x, v.size, msg)
			}
			if msg := w.staleLeaves(v); msg != "" {
				c.Violate("after %v and further submissions: %s", x, msg)
			}
		}
		w.aud.recheck(w.st.get)
		w.check("append", "root", "backing", "issuer", "sig", "hashidx", "dedupe")
		if reached > 0 {
			c.NonTrivial()
		}
	})
}

// crashed reports whether the planned crash was executed (rather than the harness ending the instance).
func (i *Inst) crashed() bool { i.mu.Lock(); defer i.mu.Unlock(); return i.planCrash }

// staleLeaves asks for the leaf hashes of entries found in stored data tiles that are not part of the published tree.
func (w *World) staleLeaves(v *View) string {
	m := w.monitor()
	asked := 0
	for k, b := range w.st.snapshot() {
		if classOf(k) != "data" {
			continue
		}
		es, _ := decTile(b)
		for _, e := range es {
			if o := v.ent(e.Idx); e.Idx < v.size && (o == nil || o.equal(e)) {
				continue
			}
			asked++
			if asked > 60 {
				return ""
			}
			w.c.Label("stale leaf asked for")
			if a := m.ask(qProof(leafHash(e.leafInput()), v.size)); a.pan != "" || a.code == 200 {
				return fmt.Sprintf("get-proof-by-hash answers %d for a leaf (index %d) that is not in the published tree of size %d: %.300s %s", a.code, e.Idx, v.size, a.body, a.pan)
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- C24

type fault struct {
	kind, class string
	nth         int  // among matching operations of the batch
	status      int  // -1 drop connection, -2 cut body
	apply       bool // the write happens although an error is reported
	times       int  // number of failing operations
	onHit       func()
}

func (f fault) String() string {
	return fmt.Sprintf("%s %s #%d fails with %d (applied %v, %d times)", f.kind, f.class, f.nth, f.status, f.apply, f.times)
}

// faultPlan arms the fault for operations of the sequencer. The n submissions read dedupe records, too: if such a read is to
// fail, the first data tiles are held up until all of those have been seen (if that takes too long, nothing fails).
func faultPlan(st *Store, f fault, n0 int, hit, headsAtHit *int64, next func(op Op) Action) func(op Op) Action {
	armed := false
	dedupeReads := f.kind == "GET" && f.class == "dedupe"
	reads, late := 0, false
	var ready chan struct{}
	var mu sync.Mutex
	n, failed := 0, 0
	var key string
	return func(op Op) Action {
		a := next(op)
		if dedupeReads {
			mu.Lock()
			defer mu.Unlock()
			if op.Kind == "GET" && op.Class == "dedupe" {
				reads++
				if reads == n0 && ready != nil && !late {
					close(ready)
				}
			}
			if op.Kind == "PUT" && op.Class == "data" && ready == nil {
				ready = make(chan struct{})
				if reads >= n0 {
					close(ready)
				} else {
					time.AfterFunc(2*time.Second, func() {
						mu.Lock()
						defer mu.Unlock()
						if reads < n0 {
							late = true
							close(ready)
						}
					})
				}
			}
			if ready != nil {
				if op.Kind == "PUT" && op.Class == "data" {
					a.Gate = ready
				}
				if late || reads <= n0 { // reads of the submissions
					return a
				}
			}
		}
		if op.Kind == "PUT" && op.Class == "data" {
			armed = true
		}
		if !armed && (op.Class == "sth" || op.Class == "checkpoint") {
			return a // heads of empty batches before the one under test
		}
		if op.Kind != f.kind || !isClass(op, f.class) || (op.Class == "dedupe" && op.Kind == "GET" && !armed) {
			return a
		}
		if key == "" {
			if n < f.nth {
				n++
				return a
			}
			key = op.Key
		}
		if f.times < 1000 && op.Key != key { // a temporary failure concerns one object
			return a
		}
		if failed >= f.times {
			return a
		}
		failed++
		if atomic.AddInt64(hit, 1) == 1 {
			atomic.StoreInt64(headsAtHit, atomic.LoadInt64(&st.headPuts))
			if f.onHit != nil {
				f.onHit()
			}
		}
		st.bumpActivity()
		b, _ := st.get(op.Key)
		switch {
		case f.status == -2 && len(b) < 2: // nothing to cut
			a.Status = 403
		case f.status == -1:
			a.Drop, a.Apply = true, f.apply
		case f.status == -2:
			a.Cut = 1 + len(op.Key)%20
		default:
			a.Status, a.Apply = f.status, f.apply
		}
		return a
	}
}

var faultTargets = [][2]string{{"PUT", "data"}, {"PUT", "tile"}, {"PUT", "hashes"}, {"PUT", "issuer"}, {"PUT", "sth"}, {"PUT", "checkpoint"}, {"PUT", "dedupe"}, {"GET", "hashes"}, {"GET", "dedupe"}, {"HEAD", "issuer"}}

// fullTargets are the tiles of full width, for batches that complete one.
var fullTargets = [][2]string{{"PUT", "data-full"}, {"PUT", "tile-full"}, {"PUT", "data-part"}}

// isClass tells whether an operation belongs to a class, also one of the finer ones.
func isClass(op Op, class string) bool {
	base, kind, _ := strings.Cut(class, "-")
	part := strings.Contains(op.Key, ".p/")
	return op.Class == base && (kind == "" || part == (kind == "part"))
}

func TestC24(t *testing.T) {
	rule := "A case is one log with accepted entries and then a batch during which one storage operation (class, kind and ordinal drawn; object store or filesystem) fails for good or temporarily, a write having taken effect or not; then a restart. Non-trivial: the failure was injected."
	runCheck(t, "C24", rule, 45, 1500, func(c *Case) {
		fs := c.Chance("fs", 15)
		wo := WorldOpts{Mask: c.Uni("mask", 1, 4), Flush: c.Uni("flush", 3, 12), Base: c.baseSize("base"), FS: fs}
		if fs {
			wo.Base = uint64(c.Uni("fsbase", 0, 700))
		}
		w := newWorld(c, wo)
		defer w.close()
		c.Note("log: base size %d, mask %d, flush %d, fs %v", wo.Base, wo.Mask, wo.Flush, fs)
		w.mustBoot("first start")
		c.Faults()
		if c.Bool("before") {
			chs := w.genBatch("a", c.Int("n", 1, 8))
			c.Note("submit %s", descs(chs))
			w.raise(w.submitAll(chs))
		}
		if !w.waitHeads(2) {
			c.Violate("no tree heads are published")
		}
		before := w.publishedHead()
		n := c.Int("n", 1, 12)
		cross := c.Chance("cross", 30)
		if cross {
			n = int(256-before.Size%256) + c.Uni("over", -1, 3)
			if n < 1 {
				n = 1
			}
		}
		chs := w.genBatch("f", n)
		if fs {
			w.fsFault(before, chs)
			return
		}
		tgt := faultTargets[c.Uni("target", 0, len(faultTargets)-1)]
		if cross && c.Chance("full", 60) {
			tgt = fullTargets[c.Uni("full-target", 0, len(fullTargets)-1)]
		}
		f := fault{kind: tgt[0], class: tgt[1], nth: c.weighted("nth", 60, 20, 12, 8)}
		if strings.Contains(f.class, "-") {
			f.nth = 0
		}
		temporary := c.Chance("temporary", 15)
		if temporary {
			f.status, f.times = pick(c, "tstatus", 500, 503, -1), 1
		} else {
			f.status = []int{403, 400, 500, 503, -1, -2, 409, 404, 412, 501}[c.weighted("status", 35, 15, 5, 5, 5, 10, 10, 7, 5, 3)]
			if f.status == 404 && f.kind != "PUT" { // that would only mean that there is no such object
				f.status = 409
			}
			if f.status == -2 && f.kind != "GET" {
				f.status = 403
			}
			f.times = 1 << 30
		}
		if f.kind == "PUT" {
			f.apply = c.Chance("apply", 30)
		}
		var hit, headsAtHit int64
		var failedFrom uint64
		f.onHit = func() { atomic.StoreUint64(&failedFrom, w.batchStart(before, f.class)) }
		c.Note("submit %d (%s); %v", len(chs), descs(chs), f)
		p := w.cur
		p.inst.SetPlan(faultPlan(w.st, f, len(chs), &hit, &headsAtHit, func(Op) Action { return Action{} }))
		if temporary {
			c.Label("temporary " + f.kind + " " + f.class)
			rs := w.submitAll(chs)
			w.raise(rs, "sct", "cover", "entry")
			for _, r := range rs {
				if r.Code == 200 {
					continue
				}
				if r.Code != 503 || r.T1.Sub(r.T0) < 4500*time.Millisecond {
					c.Violate("%v: the submission of %s was answered %d after %v: %s", f, r.Chain.Desc, r.Code, r.T1.Sub(r.T0), r.Body)
				}
				c.Label("timeout")
			}
			if p.released() {
				c.Violate("%v: the instance gave up its leadership", f)
			}
			ok := false
			for try := 0; try < 5 && !ok; try++ {
				r := w.submit(w.genBatch("after", 1)[0])
				w.raise([]*Reply{r}, "sct", "cover", "entry")
				ok = r.Code == 200
			}
			if !ok {
				c.Violate("%v: no submission is accepted any more", f)
			}
			w.check("append", "root", "backing", "issuer", "hashidx", "dedupe", "sig")
			if hit > 0 {
				c.NonTrivial()
			}
			return
		}
		c.Label("permanent " + f.kind + " " + f.class)
		pd := w.submitAsync(chs)
		// while the failing operation is retried nothing is published; an instance that publishes on and on ignores the failure
		goesOn := func() bool {
			return atomic.LoadInt64(&hit) > 0 && atomic.LoadInt64(&w.st.headPuts) > atomic.LoadInt64(&headsAtHit)+20
		}
		w.waitFor(func() bool { return p.released() || goesOn() || pd.all() })
		if atomic.LoadInt64(&hit) > 0 { // the batch may have been answered while the operation is still being retried
			w.waitFor(func() bool { return p.released() || goesOn() })
		}
		if atomic.LoadInt64(&hit) == 0 { // the operation did not occur (e.g. all issuers known)
			c.Label("fault not reached")
			w.raise(pd.replies(), "sct", "cover", "entry")
			w.check("append", "root", "backing", "issuer", "hashidx", "dedupe", "sig")
			return
		}
		c.NonTrivial()
		if !p.released() {
			c.Violate("%v: the instance did not give up its leadership (it went on: %v); replies %s", f, goesOn(), replyCodes(pd.replies()))
		}
		// from here on nothing may be published by this instance
		headsAt := atomic.LoadInt64(&w.st.headPuts)
		rs := pd.replies()
		for _, r := range rs {
			if r.Panic != "" {
				c.Violate("%v: %s", f, r.Panic)
			}
			if r.Code == 200 && r.Idx >= atomic.LoadUint64(&failedFrom) {
				c.Violate("%v: %s was answered with an SCT for index %d, which belongs to the failed batch (starting at %d)", f, r.Chain.Desc, r.Idx, atomic.LoadUint64(&failedFrom))
			}
		}
		w.raise(rs, "sct", "cover", "entry")
		w.check("append", "root", "backing", "issuer", "hashidx", "sig")
		time.Sleep(time.Duration(3*w.flush+20) * time.Millisecond)
		if now := atomic.LoadInt64(&w.st.headPuts); now != headsAt {
			c.Violate("%v: the instance published %d more tree heads after it had given up its leadership", f, now-headsAt)
		}
		rs = pd.replies()
		for _, r := range rs {
			if r.Code == 200 && r.Idx >= atomic.LoadUint64(&failedFrom) {
				c.Violate("%v: %s was answered with an SCT for index %d of the failed batch", f, r.Chain.Desc, r.Idx)
			}
		}
		w.retire()
		w.mustBoot("after " + f.String())
		chs2 := w.genBatch("again", c.Int("n2", 1, 4))
		rs = w.submitAll(chs2)
		w.raise(rs, "sct", "cover", "entry")
		for _, r := range rs {
			if r.Code != 200 {
				c.Violate("after %v and a restart a submission was answered %d: %s", f, r.Code, r.Body)
			}
		}
		w.check("append", "root", "backing", "issuer", "hashidx", "dedupe", "sig")
	})
}

func replyCodes(rs []*Reply) string {
	var s []string
	for _, r := range rs {
		s = append(s, fmt.Sprint(r.Code))
	}
	return joinLimited(s, 10)
}

// batchStart is the first index of the batch that an operation of the given class is for, at the moment of that operation: the batch
// writes its tree heads after everything else but the dedupe records.
func (w *World) batchStart(before Head, class string) uint64 {
	w.st.mu.Lock()
	defer w.st.mu.Unlock()
	a := w.aud
	if class == "dedupe" {
		prev, last := before.Size, before.Size
		for _, h := range a.heads {
			if h.Size > last {
				prev, last = last, h.Size
			}
		}
		return prev
	}
	return min(a.lastHead["sth"].Size, a.lastHead["checkpoint"].Size)
}

// fsFault breaks an object of the batch in a filesystem store by putting a directory in its place.
func (w *World) fsFault(before Head, chs []*Chain) {
	c := w.c
	// the checkpoint and the STH are rewritten all the time; other objects are known by name
	var key string
	t := before.Size / 256
	wd := int(before.Size%256) + 1
	target := c.weighted("fs-target", 25, 25, 25, 25)
	if target <= 1 && len(chs) != 1 {
		chs = chs[:1]
	}
	switch target {
	case 0:
		key = refTilePath(-1, t, wd)
	case 1:
		key = refTilePath(0, t, wd)
	case 2:
		key = "ct/v1/get-sth"
	case 3:
		key = "checkpoint"
	}
	p := filepath.Join(w.st.dir, key)
	sthCopy, _ := w.st.get("ct/v1/get-sth")
	var once sync.Once
	block := func() {
		once.Do(func() {
			// a directory with a file in it cannot be replaced by a file
			os.MkdirAll(filepath.Dir(p), 0o755)
			for k := 0; k < 50; k++ {
				os.Remove(p)
				if os.Mkdir(p, 0o755) == nil {
					break
				}
			}
			must0(os.WriteFile(filepath.Join(p, "x"), []byte("x"), 0o644))
		})
	}
	c.Note("filesystem: %s cannot be written; submit %s", key, descs(chs))
	c.Label("permanent fs " + classOf(key))
	proc := w.cur
	block()
	pd := w.submitAsync(chs)
	if !w.waitFor(func() bool { return proc.released() }) {
		c.Violate("writing %s fails, but the instance does not give up its leadership", key)
	}
	c.NonTrivial()
	rs := pd.replies()
	for _, r := range rs {
		if r.Panic != "" {
			c.Violate("%s", r.Panic)
		}
		if r.Code == 200 {
			c.Violate("writing %s fails, but %s was answered with an SCT (index %d)", key, r.Chain.Desc, r.Idx)
		}
	}
	if !strings.HasSuffix(key, "get-sth") {
		if h := w.publishedHead(); h.Size != before.Size && key != "checkpoint" {
			c.Violate("writing %s fails, but a tree head of size %d was published", key, h.Size)
		}
	}
	w.retire()
	must0(os.RemoveAll(p))
	if key == "ct/v1/get-sth" {
		must0(os.WriteFile(p, sthCopy, 0o644))
	}
	w.mustBoot("after the failure of " + key)
	rs = w.submitAll(w.genBatch("again", 2))
	w.raise(rs, "sct", "cover", "entry")
	for _, r := range rs {
		if r.Code != 200 {
			c.Violate("after the failure of %s and a restart a submission was answered %d: %s", key, r.Code, r.Body)
		}
	}
	w.check("root", "sig", "append", "backing")
}
