package verifh

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// latency is a per-class delay plan whose concrete values are a function of a drawn salt and the key.
type latency struct {
	salt   int
	before map[string]int // max ms
	after  map[string]int
	early  bool
}

var writeClasses = []string{"data", "tile", "hashes", "issuer", "sth", "checkpoint", "dedupe"}

func genLatency(c *Case, maxMs int) *latency {
	l := &latency{before: map[string]int{}, after: map[string]int{}}
	if !c.Chance("latency", 70) {
		return l
	}
	l.salt = c.Int("lat-salt", 0, 1<<20)
	for _, cl := range writeClasses {
		switch c.weighted("lat-"+cl, 50, 35, 15) {
		case 1:
			l.before[cl] = c.Int("lat-ms", 1, maxMs)
		case 2:
			l.after[cl] = c.Int("lat-ms", 1, maxMs)
		}
	}
	return l
}

func (l *latency) String() string {
	var s []string
	for _, cl := range writeClasses {
		if v := l.before[cl]; v > 0 {
			s = append(s, fmt.Sprintf("%s<%dms", cl, v))
		}
		if v := l.after[cl]; v > 0 {
			s = append(s, fmt.Sprintf("%s>%dms", cl, v))
		}
	}
	return "latency[" + strings.Join(s, " ") + "]"
}

func (l *latency) plan(op Op) Action {
	var a Action
	if op.Kind == "PUT" {
		r := prf(fmt.Sprintf("lat %d %s %d", l.salt, op.Key, op.N), 3)
		if m := l.before[op.Class]; m > 0 {
			a.Before = time.Duration(int(r[0])*m/255) * time.Millisecond
		}
		if m := l.after[op.Class]; m > 0 {
			a.After = time.Duration(int(r[1])*m/255) * time.Millisecond
		}
		a.ApplyIfDead = r[2]&1 == 1
	}
	return a
}

// crashAt describes a crash point: the Nth operation (method+class, or any).
type crashAt struct {
	kind, class string // class "" = any operation
	n           int
	apply       bool
	full        bool // operations count once a full data tile is being written
}

func (x crashAt) String() string {
	if x.full {
		return fmt.Sprintf("crash at operation %d from a full data tile on, applied=%v", x.n, x.apply)
	}
	return fmt.Sprintf("crash at %s %s #%d applied=%v", x.kind, x.class, x.n, x.apply)
}

func genCrash(c *Case) crashAt {
	if c.Chance("crash-any", 30) {
		return crashAt{"", "", c.Int("crash-n", 0, 25), c.Bool("crash-apply"), false}
	}
	k := c.weighted("crash-class", 12, 12, 8, 6, 14, 10, 10, 8, 8, 6)
	t := [][2]string{{"PUT", "data"}, {"PUT", "tile"}, {"PUT", "hashes"}, {"PUT", "issuer"}, {"PUT", "sth"}, {"PUT", "checkpoint"}, {"PUT", "dedupe"}, {"GET", "hashes"}, {"GET", "dedupe"}, {"HEAD", "issuer"}}[k]
	return crashAt{t[0], t[1], c.weighted("crash-cn", 60, 20, 10, 10), c.Bool("crash-apply"), false}
}

// crashPlan arms a crash: operations are counted from now on.
func crashPlan(x crashAt, next func(op Op) Action) func(op Op) Action {
	n := -1
	armed := !x.full
	return func(op Op) Action {
		armed = armed || op.Kind == "PUT" && isClass(op, "data-full")
		if armed && (x.class == "" || (op.Kind == x.kind && op.Class == x.class)) {
			if x.class == "" && op.Class == "dedupe" && op.Kind == "GET" {
				// lookups before sequencing are not part of a batch
			} else {
				n++
				if n == x.n {
					return Action{Crash: true, Apply: x.apply}
				}
			}
		}
		return next(op)
	}
}

// pending is a set of submissions whose replies may not come.
type pending struct {
	mu   sync.Mutex
	rs   []*Reply
	done int
	n    int
}

func (w *World) submitAsync(chs []*Chain) *pending {
	pd := &pending{n: len(chs)}
	p := w.cur
	for _, ch := range chs {
		go func() {
			defer w.recoverInfra()
			r := w.submitOn(p, ch)
			pd.mu.Lock()
			pd.rs = append(pd.rs, r)
			pd.done++
			pd.mu.Unlock()
		}()
	}
	return pd
}

func (p *pending) replies() []*Reply {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]*Reply{}, p.rs...)
}

func (p *pending) all() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.done == p.n }

// accepted returns all accepted replies in a fixed order.
func (w *World) accepted() []*Reply {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []*Reply
	for _, rs := range w.scts {
		out = append(out, rs...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Idx < out[j].Idx })
	return out
}

// rejudge re-verifies all SCTs against the store as it is now.
func (w *World) rejudge(why string) {
	acc := w.accepted()
	if len(acc) == 0 {
		return
	}
	h := w.publishedHead()
	tiles := map[string][]*Ent{}
	for _, r := range acc {
		if r.Idx >= h.Size {
			w.c.Violate("%s: the published tree has size %d, but an SCT was issued for index %d", why, h.Size, r.Idx)
		}
		t := r.Idx / 256
		wd := 256
		if (t+1)*256 > h.Size {
			wd = int(h.Size - t*256)
		}
		key := refTilePath(-1, t, wd)
		es, ok := tiles[key]
		if !ok {
			b, have := w.st.get(key)
			if !have {
				w.c.Violate("%s: data tile %s of the published size %d is not stored; an SCT was issued for index %d", why, key, h.Size, r.Idx)
			}
			var err error
			es, err = decTile(b)
			if err != nil || len(es) != wd {
				w.c.Violate("%s: data tile %s: %d entries, %v", why, key, len(es), err)
			}
			tiles[key] = es
		}
		want := r.Chain.expect()
		want.Ts, want.Idx = r.SCT.Timestamp, r.Idx
		if !bytes.Equal(es[r.Idx%256].leafInput(), want.leafInput()) {
			w.c.Violate("%s: the entry at index %d is no longer the one the SCT was issued for (%s)", why, r.Idx, r.Chain.Desc)
		}
	}
}

// histOpts configures a random history.
type histOpts struct {
	maxSteps  int
	maxBatch  int
	crash     int // weights
	restart   int
	hold      int
	idle      int
	dup       int
	latencyMs int
	fsPct     int
	base      func(c *Case) uint64
	after     func(w *World, rs []*Reply) // after every step
	flushMax  int
	maskMax   int
	fault     int  // weight of batches that meet a failing storage operation
	bootFault int  // weight of restarts that meet failing reads
	stallPm   int  // per mille of the cases in which the sequencer is held up for longer than clients wait
	bigPct    int  // per cent of the cases with batches of up to 600
	names     bool // draw the log's name and key
}

// history runs a random history and returns the world (still open).
func history(c *Case, o histOpts) *World {
	if o.flushMax == 0 {
		o.flushMax = 25
	}
	if o.maskMax == 0 {
		o.maskMax = 6
	}
	wo := WorldOpts{Mask: c.Int("mask", 1, o.maskMax), Flush: c.Int("flush", 3, o.flushMax)}
	big := o.bigPct > 0 && c.Chance("bigbatch", o.bigPct)
	if big {
		o.maxBatch = 600
		if c.Bool("bigflush") { // so that batches fill up
			wo.Flush = c.Int("flush-big", 80, 250)
		}
	}
	if o.base != nil {
		wo.Base = o.base(c)
	}
	wo.FS = c.Chance("fs", o.fsPct)
	if o.names {
		wo.Name, wo.Key = c.genOrigin("name"), ecKey(fmt.Sprintf("c16-%d", c.Uni("key", 0, 40)))
		if c.Bool("longer") {
			wo.Name += pick(c, "tail", "/", "/Log", ".", "/2025H1/", "\u00c9", ":443/x")
		}
		c.Note("name %q, key %s", wo.Name, wo.Key.Name)
	}
	w := newWorld(c, wo)
	lat := genLatency(c, o.latencyMs)
	if wo.FS {
		lat = &latency{}
	}
	c.Note("log: base size %d, mask %d, flush %d ms, fs %v, %v", wo.Base, wo.Mask, wo.Flush, wo.FS, lat)
	c.Label(fmt.Sprintf("base:%s", sizeClass(wo.Base)))
	c.LabelIf(wo.FS, "backend:fs")
	w.mustBoot("first start")
	w.cur.inst.SetPlan(lat.plan)
	steps := c.Int("steps", 1, o.maxSteps)
	stall := -1
	if o.stallPm > 0 && !wo.FS && c.Int("stall", 0, 999) >= 1000-o.stallPm {
		stall = c.Int("stall-step", 0, steps-1)
	}
	for s := 0; s < steps; s++ {
		kind := c.weighted("op", 40, o.dup, o.restart, o.crash, o.hold, o.idle, o.fault, o.bootFault)
		if wo.FS && (kind == 3 || kind == 4 || kind >= 6) {
			kind = 0
		}
		if s == stall {
			kind = 8
		}
		var rs []*Reply
		switch kind {
		case 0, 1:
			n := c.weighted("n", 40, 30, 20, 10)
			if big && s == 0 {
				n = 3
			}
			n = []int{1, c.Int("n1", 2, 5), c.Int("n2", 6, 20), c.Int("n3", 1, o.maxBatch)}[n]
			var chs []*Chain
			if n == 1 {
				chs = []*Chain{w.genChain("h")}
			} else {
				chs = w.genBatch("h", n)
			}
			if kind == 1 {
				chs = append(chs, w.genDuplicates(chs)...)
				c.Label("op:duplicates")
			}
			c.Note("submit %d concurrently: %s", len(chs), descs(chs))
			c.Label("op:submit")
			rs = w.submitAll(chs)
		case 2:
			c.Note("restart")
			c.Label("op:restart")
			w.retire()
			w.mustBoot("restart")
			w.cur.inst.SetPlan(lat.plan)
		case 3:
			x := genCrash(c)
			chs := w.genBatch("x", c.Int("n", 1, 8))
			c.Note("submit %d (%s) and %v", len(chs), descs(chs), x)
			rs = w.crashDuring(x, chs, lat.plan)
			c.Label("op:crash")
			c.Label("crash:" + x.kind + " " + x.class)
			w.mustBoot("after " + x.String())
			w.cur.inst.SetPlan(lat.plan)
		case 4:
			gate := make(chan struct{})
			cls := pick(c, "gated", "sth", "checkpoint", "data", "tile", "hashes", "issuer", "dedupe")
			chs := w.genBatch("g", c.Int("n", 1, 12))
			c.Note("hold %s writes; submit %d: %s", cls, len(chs), descs(chs))
			c.Label("op:hold-" + cls)
			var once sync.Once
			w.cur.inst.SetPlan(func(op Op) Action {
				a := lat.plan(op)
				if op.Kind == "PUT" && op.Class == cls {
					a.Gate = gate
				}
				return a
			})
			pd := w.submitAsync(chs)
			time.Sleep(time.Duration(w.flush+5) * time.Millisecond)
			more := w.genBatch("g", c.Int("n", 0, 6))
			pd2 := w.submitAsync(more)
			time.Sleep(time.Duration(w.flush+5) * time.Millisecond)
			once.Do(func() { close(gate) })
			w.cur.inst.SetPlan(lat.plan)
			if !w.waitFor(func() bool { return pd.all() && pd2.all() }) {
				Infra("held submissions never returned")
			}
			rs = append(pd.replies(), pd2.replies()...)
		case 5:
			c.Note("idle")
			c.Label("op:idle")
			if !w.waitHeads(2) {
				c.Violate("the idle log does not publish tree heads any more")
			}
		case 6:
			rs = w.faultStep(lat.plan)
		case 7:
			w.bootFaultStep(lat.plan)
		case 8:
			rs = w.stallStep(lat.plan)
		}
		for _, r := range rs {
			if r.Code == 200 {
				c.Label("reply:200")
			} else {
				c.Label(fmt.Sprintf("reply:%d", r.Code))
			}
		}
		if o.after != nil {
			o.after(w, rs)
		}
	}
	return w
}

func sizeClass(n uint64) string {
	switch {
	case n == 0:
		return "0"
	case n < 256:
		return "<1 tile"
	case n < 65536:
		return "<1 L1 tile"
	case n < 1<<24:
		return "<2^24"
	case n < 1<<32:
		return "<2^32"
	}
	return ">=2^32"
}

func descs(chs []*Chain) string {
	var s []string
	for i, ch := range chs {
		if i == 6 {
			s = append(s, "...")
			break
		}
		s = append(s, ch.Desc)
	}
	return strings.Join(s, " ")
}

// genDuplicates picks chains for certificates that were submitted before (or are in the batch).
func (w *World) genDuplicates(batch []*Chain) []*Chain {
	c := w.c
	acc := w.accepted()
	n := c.Int("dups", 1, 4)
	var out []*Chain
	for i := 0; i < n; i++ {
		k := c.Int("dup", 0, len(acc)+len(batch)-1)
		var ch *Chain
		if k < len(acc) {
			ch = acc[k].Chain
		} else {
			ch = batch[k-len(acc)]
		}
		out = append(out, ch)
	}
	return out
}

// crashDuring submits the chains while the crash is armed and returns the replies that came before the death.
func (w *World) crashDuring(x crashAt, chs []*Chain, next func(op Op) Action) []*Reply {
	p := w.cur
	w.c.Faults()
	p.inst.SetPlan(crashPlan(x, next))
	pd := w.submitAsync(chs)
	end := time.Now().Add(time.Duration(10*w.flush+400) * time.Millisecond)
	for through := false; !p.inst.Dead() && time.Now().Before(end); {
		if !through && pd.all() && x.class != "" {
			// the batch is through; background heads may still reach the crash point, but do not insist
			through = true
			if soon := time.Now().Add(time.Duration(2*w.flush+20) * time.Millisecond); soon.Before(end) {
				end = soon
			}
		}
		time.Sleep(300 * time.Microsecond)
	}
	if p.inst.Dead() {
		w.c.Label("crash:reached")
	}
	p.kill()
	p.inst.Quiesce()
	time.Sleep(10 * time.Millisecond)
	w.old = append(w.old, p)
	p.inst.closeConns()
	w.cur = nil
	return pd.replies()
}

// faultStep submits a batch during which a storage operation fails once or for good; what the instance does about it is
// for property C24 to judge. If it gives up, a new one is started.
func (w *World) faultStep(next func(op Op) Action) []*Reply {
	c := w.c
	c.Faults()
	tgt := faultTargets[c.Uni("target", 0, len(faultTargets)-1)]
	f := fault{kind: tgt[0], class: tgt[1], nth: c.weighted("nth", 60, 20, 12, 8), status: pick(c, "status", 403, 403, 400, -2, 409), times: 1 << 30}
	if f.status == -2 && f.kind != "GET" {
		f.status = 403
	}
	if c.Bool("once") {
		f.times = 1
	}
	if f.kind == "PUT" {
		f.apply = c.Chance("apply", 30)
	}
	chs := w.genBatch("f", c.Int("n", 1, 8))
	c.Note("submit %d (%s); %v", len(chs), descs(chs), f)
	c.Label("op:fault")
	c.Label("fault:" + f.kind + " " + f.class)
	var hit, headsAtHit int64
	p := w.cur
	p.inst.SetPlan(faultPlan(w.st, f, len(chs), &hit, &headsAtHit, next))
	pd := w.submitAsync(chs)
	goesOn := func() bool {
		return atomic.LoadInt64(&hit) > 0 && atomic.LoadInt64(&w.st.headPuts) > atomic.LoadInt64(&headsAtHit)+4
	}
	w.waitFor(func() bool { return p.released() || goesOn() || pd.all() })
	if atomic.LoadInt64(&hit) > 0 {
		w.waitFor(func() bool { return p.released() || goesOn() })
	}
	if p.released() {
		w.retire()
		w.mustBoot("after " + f.String())
		w.cur.inst.SetPlan(next)
		return pd.replies()
	}
	if atomic.LoadInt64(&hit) > 0 { // it goes on (no property of its own demands that it does not): then everything has to hold, too
		c.Label("fault: goes on")
		p.inst.SetPlan(next)
		more := w.genBatch("g", c.Int("n", 1, 3))
		pd2 := w.submitAsync(more)
		w.waitFor(func() bool { return p.released() || pd2.all() })
		return append(pd.replies(), pd2.replies()...)
	}
	p.inst.SetPlan(next)
	return pd.replies()
}

// bootFaultStep restarts the log while some of its reads fail; it may refuse to start.
func (w *World) bootFaultStep(next func(op Op) Action) {
	c := w.c
	c.Faults()
	w.retire()
	for k := c.Int("tries", 1, 3); k > 0; k-- {
		cls := pick(c, "class", "sth", "roots", "tile", "data", "")
		nth := c.weighted("nth", 70, 15, 15)
		st := pick(c, "status", 404, 404, 403, -2)
		c.Note("start; the %d. read of class %q fails with %d", nth, cls, st)
		c.Label("op:boot-fault " + cls)
		n := 0
		_, err := w.tryBoot(func(op Op) Action {
			a := next(op)
			if op.Kind == "GET" && (cls == "" && op.Class != "dedupe" && op.Class != "hashes" || op.Class == cls) {
				n++
				if n == nth+1 {
					if st == -2 {
						a.Cut = 1 + len(op.Key)%40
					} else {
						a.Status = st
					}
				}
			}
			return a
		})
		if err == nil {
			c.Label("starts all the same")
			break
		}
	}
	if w.cur == nil {
		w.mustBoot("after failed starts")
	}
	w.cur.inst.SetPlan(next)
	if !w.waitHeads(2) {
		c.Violate("no tree heads are published after the restart")
	}
}

// stallStep holds up a write for longer than the clients wait.
func (w *World) stallStep(next func(op Op) Action) []*Reply {
	c := w.c
	gate := make(chan struct{})
	cls := pick(c, "stalled", "sth", "checkpoint", "data", "tile", "hashes", "dedupe")
	chs := w.genBatch("s", c.Int("n", 1, 12))
	c.Note("%s writes hang; submit %d: %s; wait until they are answered", cls, len(chs), descs(chs))
	c.Label("op:stall")
	w.cur.inst.SetPlan(func(op Op) Action {
		a := next(op)
		if op.Kind == "PUT" && op.Class == cls {
			a.Gate = gate
		}
		return a
	})
	pd := w.submitAsync(chs)
	end := time.Now().Add(8 * time.Second)
	for !pd.all() && time.Now().Before(end) {
		time.Sleep(5 * time.Millisecond)
	}
	early := pd.replies()
	close(gate)
	w.cur.inst.SetPlan(next)
	if !w.waitFor(pd.all) {
		Infra("stalled submissions never returned")
	}
	c.LabelN("stalled replies", len(early))
	return pd.replies()
}
