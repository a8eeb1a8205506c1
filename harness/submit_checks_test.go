package verifh

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

const histRule = "A case is one history over one log: submissions (fresh, duplicate, concurrent), restarts, crashes at a storage operation, failing storage operations, starts with failing reads, writes held up briefly or for longer than clients wait, idle periods, over a drawn starting size, bucket prefix length, flush interval, backend and per-class write latencies. Non-trivial: at least one submission was accepted and the history has at least two steps or a starting size above zero or concurrent submissions."

// counting wraps the bookkeeping of random histories.
type histCount struct{ accepted, steps int }

func (h *histCount) add(rs []*Reply) {
	h.steps++
	for _, r := range rs {
		if r.Code == 200 {
			h.accepted++
		}
	}
}

func (h *histCount) nontrivial(c *Case, w *World) {
	if h.accepted > 0 && (h.steps > 1 || w.base > 0 || h.accepted > 1) {
		c.NonTrivial()
	}
}

func (w *World) mustProgress(n int64, why string) {
	if !w.waitHeads(n) {
		w.c.Violate("no further tree heads are published (%s)", why)
	}
}

func TestC01(t *testing.T) {
	runCheck(t, "C01", histRule, 90, 2500, func(c *Case) {
		var hc histCount
		w := history(c, histOpts{maxSteps: 6, maxBatch: 60, crash: 14, restart: 10, hold: 16, idle: 3, dup: 20, latencyMs: 12, fsPct: 12, fault: 10, stallPm: 12, bigPct: 4,
			base: func(c *Case) uint64 { return c.baseSize("base") },
			after: func(w *World, rs []*Reply) {
				hc.add(rs)
				w.raise(rs, "sct", "cover", "entry")
				w.check("root")
				w.rejudge("later tree head")
			}})
		defer w.close()
		w.retire()
		w.mustBoot("final restart")
		w.mustProgress(3, "after the final restart")
		w.check("root")
		w.rejudge("after the final restart")
		hc.nontrivial(c, w)
	})
}

func TestC02(t *testing.T) {
	runCheck(t, "C02", histRule, 70, 2500, func(c *Case) {
		var hc histCount
		w := history(c, histOpts{maxSteps: 8, maxBatch: 40, bigPct: 12, crash: 20, restart: 16, hold: 8, idle: 4, dup: 6, latencyMs: 8, fsPct: 12, flushMax: 15,
			fault: 10, bootFault: 10, stallPm: 4,
			base: func(c *Case) uint64 { return c.baseSize("base") },
			after: func(w *World, rs []*Reply) {
				hc.add(rs)
				w.check("append", "root", "sig")
			}})
		defer w.close()
		w.retire()
		w.mustBoot("final restart")
		w.mustProgress(3, "after the final restart")
		rs := w.submitAll(w.genBatch("last", c.Int("last", 1, 3)))
		hc.add(rs)
		w.aud.recheck(w.st.get)
		w.check("append", "root", "sig")
		hc.nontrivial(c, w)
	})
}

func TestC03(t *testing.T) {
	runCheck(t, "C03", histRule, 70, 2500, func(c *Case) {
		var hc histCount
		w := history(c, histOpts{maxSteps: 5, maxBatch: 50, bigPct: 6, crash: 10, restart: 8, hold: 45, idle: 2, dup: 10, latencyMs: 25, fsPct: 8, flushMax: 15, fault: 10,
			base: func(c *Case) uint64 { return c.baseSize("base") },
			after: func(w *World, rs []*Reply) {
				hc.add(rs)
				w.check("backing", "issuer", "hashidx", "path", "root")
			}})
		defer w.close()
		hc.nontrivial(c, w)
	})
}

// ---------------------------------------------------------------- C05

// identity is what determines whether two submissions are the same to the log.
func identity(ch *Chain) string {
	e := ch.expect()
	return fmt.Sprintf("%v/%x/%x/%x", e.Pre, e.certFp(), e.IKH, leafHash(e.Cert))
}

// altPaths lists the issuing paths that are valid for a leaf of the given path.
func altPaths(path []*CA, pre bool) [][]*CA {
	var out [][]*CA
	for _, p := range goodPaths(pre) {
		if bytes.Equal(p[0].Subject, path[0].Subject) && bytes.Equal(p[0].Key.SPKI, path[0].Key.SPKI) {
			out = append(out, p)
		}
	}
	return out
}

func sameSCT(a, b sctJSON) bool {
	return a.Version == b.Version && bytes.Equal(a.ID, b.ID) && a.Timestamp == b.Timestamp && a.Extensions == b.Extensions &&
		(a.Signature == nil || bytes.Equal(a.Signature, b.Signature)) // the signature is not recorded for certificates logged before the history
}

func TestC05(t *testing.T) {
	rule := "A case is one log with first submissions (sequential, batched or several copies at once), then resubmissions of those certificates through the same and through other valid chains, with and without the root, repeated, concurrent, after further entries, after restarts and crashes, and while reads of the dedupe map fail or clients do not wait for them. Non-trivial: at least one resubmission was answered 200."
	runCheck(t, "C05", rule, 60, 1800, func(c *Case) {
		wo := WorldOpts{Mask: c.Int("mask", 1, 6), Flush: c.Int("flush", 3, 20), FS: c.Chance("fs", 12)}
		if c.Bool("hasbase") {
			wo.Base = c.baseSize("base")
		}
		wo.crowd(c)
		if wo.Base > 0 && c.Chance("logged", 60) { // certificates logged long ago
			lo := (wo.Base - 1) / 256 * 256
			for k, n := uint64(0), c.Uni("nlogged", 1, 6); k < uint64(n) && lo+k < wo.Base; k++ {
				idx := lo + k
				if c.Bool("fromEnd") {
					idx = wo.Base - 1 - k
				}
				dup := false
				for _, l := range wo.Logged {
					dup = dup || l.Idx == idx
				}
				ch := cheapChain(fmt.Sprintf("old-%d-%d", k, c.Int("salt", 0, 1<<30)), c.Bool("pre"), c.Uni("path", 0, 40), c.Bool("withRoot"))
				if dup || preIssued(ch.expect()) {
					continue
				}
				wo.Logged = append(wo.Logged, &Logged{Chain: ch, Idx: idx, Ts: 1600000000000 - c.U64("age", 0, 200000000000)})
			}
		}
		if wo.Base > 0 && c.Chance("near", 35) { // the dedupe map has records that begin like theirs
			for k, n := 0, c.Uni("n-near", 1, 4); k < n; k++ {
				wo.Near = append(wo.Near, cheapChain(fmt.Sprintf("near-%d-%d", k, c.Int("salt", 0, 1<<30)), c.Bool("pre"), c.Uni("path", 0, 40), c.Bool("withRoot")))
			}
			c.Label("records that begin alike")
			c.Note("the dedupe map holds records that begin like those of %s", descs(wo.Near))
		}
		near := wo.Near
		w := newWorld(c, wo)
		defer w.close()
		lat := &latency{}
		if !wo.FS {
			lat = genLatency(c, 10)
		}
		c.Note("log: base size %d, mask %d, flush %d, fs %v, %v", wo.Base, wo.Mask, wo.Flush, wo.FS, lat)
		w.mustBoot("first start")
		w.cur.inst.SetPlan(lat.plan)
		first := map[string][]sctJSON{} // accepted SCTs of a submission identity, while it was new
		var known []*Chain
		for _, l := range wo.Logged {
			c.Note("logged at %d, %d: %s", l.Idx, l.Ts, l.Chain.Desc)
			c.Label("logged before the history")
			first[identity(l.Chain)] = []sctJSON{l.sct()}
			known = append(known, l.Chain)
		}
		record := func(rs []*Reply) {
			w.raise(rs)
			for _, r := range rs {
				if r.Code == 200 {
					k := identity(r.Chain)
					first[k] = append(first[k], r.SCT)
					if len(first[k]) == 1 {
						known = append(known, r.Chain)
					}
				}
			}
		}
		variant := func(ch *Chain) *Chain {
			alts := altPaths(ch.Verified, ch.Leaf.Spec.Pre)
			return makeChain(ch.Leaf, alts[c.Int("alt", 0, len(alts)-1)], c.Bool("withRoot"))
		}
		resub := 0
		// settle makes sure that everything submitted so far is published
		for s, steps := 0, c.Int("steps", 2, 6); s < steps; s++ {
			kind := c.weighted("op", 30, 45, 10, 6, 9)
			if len(known) == 0 || (wo.FS && kind == 4) {
				kind = 0
			}
			switch kind {
			case 0: // new certificates
				var chs []*Chain
				if c.Chance("family", 40) { // one precertificate that several precert signing certificates can vouch for
					w.seq++
					pre := c.Chance("fam-pre", 70)
					path := goodPaths(pre)[c.Int("fam", 0, len(goodPaths(pre))-1)]
					chs = append(chs, makeChain(makeLeaf(LeafSpec{Label: fmt.Sprintf("fam-%d-%d", w.seq, c.Int("salt", 0, 1<<30)), Pre: pre}, path[0]), path, c.Bool("withRoot")))
				} else {
					chs = w.genBatch("d", c.weighted("n", 50, 20, 20, 10)*3+1)
				}
				if len(near) > 0 {
					chs, near = append(chs, near[0]), near[1:]
				}
				copies := c.weighted("copies", 60, 15, 15, 10) + 1
				var all []*Chain
				for _, ch := range chs {
					all = append(all, ch)
					for k := 1; k < copies; k++ {
						v := ch
						if c.Bool("var") {
							v = variant(ch)
						}
						all = append(all, v)
					}
				}
				c.Note("first submissions, %d copies each: %s", copies, descs(all))
				c.LabelIf(copies > 1, "concurrent first submissions")
				record(w.submitAll(all))
			case 1: // resubmissions
				if !w.waitHeads(3) {
					c.Violate("no further tree heads are published")
				}
				before := w.publishedHead()
				var chs []*Chain
				for k, n := 0, c.Int("n", 1, 4); k < n; k++ {
					ch := known[c.Int("known", 0, len(known)-1)]
					v := variant(ch)
					c.LabelIf(v.Verified[0] != ch.Verified[0] || len(v.Verified) != len(ch.Verified), "resubmitted through another chain")
					chs = append(chs, v)
				}
				var old, fresh []*Chain
				seen := map[string]bool{}
				for _, ch := range chs {
					id := identity(ch)
					if len(first[id]) > 0 {
						old = append(old, ch)
					} else if !seen[id] {
						seen[id] = true
						fresh = append(fresh, ch) // same precertificate, other final issuer: a new entry
					}
				}
				c.Note("resubmit %s; with a new issuer %s", descs(old), descs(fresh))
				conc := c.Bool("concurrently")
				var rs []*Reply
				if conc {
					rs = w.submitAll(append(append([]*Chain{}, old...), old...))
				} else {
					for _, ch := range old {
						rs = append(rs, w.submit(ch), w.submit(ch))
					}
				}
				w.raise(rs)
				for _, r := range rs {
					if r.Code != 200 {
						c.Violate("resubmission of %s was answered %d: %s", r.Chain.Desc, r.Code, r.Body)
					}
					resub++
					ok := false
					for _, s := range first[identity(r.Chain)] {
						ok = ok || sameSCT(s, r.SCT)
					}
					if !ok {
						c.Violate("resubmission of %s got the SCT %s, but the SCT issued before is %+v", r.Chain.Desc, r.Body, first[identity(r.Chain)])
					}
				}
				if !w.waitHeads(3) {
					c.Violate("no further tree heads are published")
				}
				if after := w.publishedHead(); after.Size != before.Size || after.Root != before.Root {
					c.Violate("the tree grew from %d to %d although only logged certificates were submitted again", before.Size, after.Size)
				}
				if len(fresh) > 0 {
					c.Label("same precertificate under another issuer")
					record(w.submitAll(fresh))
				}
			case 2:
				c.Note("restart")
				c.Label("restart")
				w.retire()
				w.mustBoot("restart")
				w.cur.inst.SetPlan(lat.plan)
			case 3:
				if wo.FS {
					continue
				}
				x := genCrash(c)
				chs := w.genBatch("x", c.Int("n", 1, 4))
				c.Note("submit %s and %v", descs(chs), x)
				rs := w.crashDuring(x, chs, lat.plan)
				w.mustBoot("after " + x.String())
				w.cur.inst.SetPlan(lat.plan)
				record(rs)
			case 4: // resubmissions whose duplicate lookup fails, or whose client does not wait for it
				if !w.waitHeads(3) {
					c.Violate("no further tree heads are published")
				}
				before := w.publishedHead()
				var old []*Chain
				for k, n := 0, c.Uni("n", 1, 4); k < n; k++ {
					if v := variant(known[c.Int("known", 0, len(known)-1)]); len(first[identity(v)]) > 0 {
						old = append(old, v)
					}
				}
				f := []int{403, 400, -2, 500, -1, 0}[c.weighted("fault", 32, 13, 20, 3, 3, 29)]
				what := fmt.Sprintf("reads of the dedupe map fail with %d", f)
				var wait time.Duration
				if f == 0 {
					wait = time.Duration(c.Uni("wait", 0, 20)) * time.Millisecond
					what = fmt.Sprintf("clients leave after %v, before the dedupe map is read", wait)
				}
				c.Note("resubmit %s; %s", descs(old), what)
				c.Label("resubmission without an answer from the dedupe map")
				c.Faults()
				w.cur.inst.SetPlan(func(op Op) Action {
					a := lat.plan(op)
					if op.Kind == "GET" && op.Class == "dedupe" {
						switch f {
						case 0:
							a.Before += wait + 40*time.Millisecond
						case -1:
							a.Drop = true
						case -2:
							a.Cut = 1 + len(op.Key)%40
						default:
							a.Status = f
						}
					}
					return a
				})
				var wg sync.WaitGroup
				bad := make([]string, len(old))
				p := w.cur
				for k, ch := range old {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer recoverInfra()
						ctx := context.Background()
						if f == 0 {
							var cancel context.CancelFunc
							ctx, cancel = context.WithTimeout(ctx, wait)
							defer cancel()
						}
						code, body, pm := p.postCtx(ctx, endpoint(ch.Leaf.Spec.Pre), chainBody(ch.Posted))
						var s sctJSON
						if pm != "" {
							bad[k] = pm
						} else if code == 200 {
							if err := json.Unmarshal(body, &s); err != nil {
								bad[k] = err.Error()
								return
							}
							bad[k] = fmt.Sprintf("resubmission of %s got the SCT %s, but the SCT issued before is %+v", ch.Desc, body, first[identity(ch)])
							for _, o := range first[identity(ch)] {
								if sameSCT(o, s) {
									bad[k] = ""
								}
							}
						}
					}()
				}
				wg.Wait()
				w.cur.inst.SetPlan(lat.plan)
				for _, b := range bad {
					if b != "" {
						c.Violate("%s: %s", what, b)
					}
				}
				if !w.waitHeads(3) {
					c.Violate("%s: no further tree heads are published", what)
				}
				if after := w.publishedHead(); after.Size != before.Size || after.Root != before.Root {
					c.Violate("the tree grew from %d to %d although only logged certificates were submitted again (%s)", before.Size, after.Size, what)
				}
			}
		}
		w.check("root")
		if resub > 0 {
			c.NonTrivial()
		}
	})
}

// ---------------------------------------------------------------- C06

// TestC06Trickle: a steady trickle of submissions, each within the flush interval of the one before.
func TestC06Trickle(t *testing.T) {
	runCheck(t, "C06", "submissions kept coming, for longer than clients wait, without ever a pause of a whole flush interval", 1, 12, func(c *Case) {
		flush := c.Int("flush", 150, 700)
		w := newWorld(c, WorldOpts{Mask: c.Int("mask", 1, 5), Flush: flush, Base: c.baseSize("base")})
		defer w.close()
		per := c.Uni("per-flush", 2, 12)
		gap := max(flush/per, 32)
		if gap > flush*9/10 {
			gap = flush * 9 / 10
		}
		jitter := c.Uni("jitter", 0, gap/4)
		lasts := time.Duration(c.Int("lasts", 5800, 6800)) * time.Millisecond
		c.Note("flush interval %d ms; a submission every %d to %d ms for %v", flush, gap-jitter, gap, lasts)
		w.mustBoot("first start")
		chs := w.genBatch("t", int(lasts/time.Millisecond)/max(gap-jitter, 1)+1)
		late0 := atomic.LoadInt64(&heartLate)
		rs := make([]*Reply, len(chs))
		var wg sync.WaitGroup
		t0, n := time.Now(), 0
		for i := range chs {
			if time.Since(t0) > lasts {
				break
			}
			n++
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer recoverInfra()
				rs[i] = w.submit(chs[i])
			}()
			time.Sleep(time.Duration(gap-int(prf(fmt.Sprint(i, jitter), 1)[0])*jitter/256) * time.Millisecond)
		}
		wg.Wait()
		c.Sync()
		rs = rs[:n]
		w.raise(rs, "sct", "cover", "entry")
		if time.Duration(atomic.LoadInt64(&heartLate)-late0) > 500*time.Millisecond {
			c.Label("busy machine, nothing judged")
			return
		}
		for i, r := range rs {
			if r.Code != 200 {
				c.Violate("submission %d of a steady trickle is answered %d %.200s after %v; the store works", i, r.Code, r.Body, r.T1.Sub(r.T0))
			}
			if d := r.T1.Sub(r.T0); d > time.Duration(flush)*time.Millisecond*3+2500*time.Millisecond {
				c.Violate("submission %d of a steady trickle is answered after %v; the flush interval is %d ms, and the store works", i, d, flush)
			}
		}
		w.check()
		c.NonTrivial()
		c.Label("steady trickle")
	})
}

func TestC06(t *testing.T) {
	rule := "A case is 1 to 1500 submissions of distinct certificates sent at once or in waves to one log (the sequencer's batch holds 255) under drawn storage latencies, flush interval and starting size. Non-trivial: at least two submissions were accepted."
	nq := 14
	if envRace() {
		nq = 5
	}
	runCheck(t, "C06", rule, nq, 25*nq, func(c *Case) {
		wo := WorldOpts{Mask: c.Int("mask", 1, 5), Flush: c.Int("flush", 2, 30), Base: c.baseSize("base"), FS: c.Chance("fs", 15)}
		// Writes of one class may hang for a while, with submissions trickling in all along (so that every queue of
		// the log fills up) or for longer than the clients of the waves wait.
		hold := 0
		if !wo.FS {
			hold = c.weighted("hold", 50, 35, 15)
		}
		if hold == 1 {
			wo.Flush = c.Int("flush-hold", 10, 60)
		} else if c.Chance("slowflush", 25) {
			wo.Flush = c.Int("flush", 100, 400)
		}
		w := newWorld(c, wo)
		defer w.close()
		lat := &latency{}
		if !wo.FS {
			lat = genLatency(c, 30)
		}
		top := 1500
		if envRace() {
			top = 300
		}
		waves := c.Int("waves", 1, 3)
		var chs []*Chain
		type wave struct{ n, gapMs int }
		var ws []wave
		for i := 0; i < waves; i++ {
			n := []int{c.Int("n-few", 1, 12), pick(c, "n-edge", 254, 255, 256, 257, 200, 400), c.Int("n-mid", 13, 300), c.Int("n-many", 300, top)}[c.weighted("n", 40, 25, 20, 15)]
			if len(chs)+n > top {
				n = c.Int("n-less", 1, 20)
			}
			ws = append(ws, wave{n, c.Int("gap", 0, 15)})
			chs = append(chs, w.genBatch("s", n)...)
		}
		holdMs, holdCls := 0, ""
		if hold > 0 {
			holdMs = c.Int("hold-long", 5200, 5600)
			if hold == 1 {
				n, gap := c.Int("trickle", 6, 14), wo.Flush+c.Int("trickle-gap", 1, 8)
				if c.Chance("steady", 60) { // never a whole flush interval without a submission
					gap = wo.Flush / c.Int("trickle-per-flush", 2, 3)
				}
				var t []wave
				for i := 0; i < n; i++ {
					t = append(t, wave{1, gap})
				}
				ws = append(t, ws...)
				chs = append(chs, w.genBatch("t", n)...)
				holdMs = n*gap + c.Int("hold-ms", 0, 400)
			}
			holdCls = pick(c, "hold-class", "sth", "checkpoint", "data", "tile", "hashes", "dedupe")
			c.LabelIf(hold == 1, "trickle while writes hang")
			c.LabelIf(hold == 2, "writes hang past the timeout")
		}
		c.Note("log: base size %d, mask %d, flush %d, fs %v, %v; waves %v; %s writes hang for %d ms", wo.Base, wo.Mask, wo.Flush, wo.FS, lat, ws, holdCls, holdMs)
		c.Label(fmt.Sprintf("submissions:%s", countClass(len(chs))))
		w.mustBoot("first start")
		w.cur.inst.SetPlan(lat.plan)
		if holdMs > 0 {
			gate, inst := make(chan struct{}), w.cur.inst
			inst.SetPlan(func(op Op) Action {
				a := lat.plan(op)
				if op.Kind == "PUT" && op.Class == holdCls {
					a.Gate = gate
				}
				return a
			})
			time.AfterFunc(time.Duration(holdMs)*time.Millisecond, func() {
				inst.SetPlan(lat.plan)
				close(gate)
			})
		}
		rs := make([]*Reply, len(chs))
		var wg sync.WaitGroup
		k := 0
		p := w.cur
		for _, wv := range ws {
			for i := 0; i < wv.n; i++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					defer w.recoverInfra()
					rs[k] = w.submitOn(p, chs[k])
				}(k)
				k++
			}
			time.Sleep(time.Duration(wv.gapMs) * time.Millisecond)
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		if !w.waitFor(func() bool {
			select {
			case <-done:
				return true
			default:
				return false
			}
		}) {
			c.Violate("the log stopped making progress: %d submissions are pending, no storage operation for 20 s", len(chs))
		}
		w.raise(rs, "sct", "entry", "cover")
		accepted, timeouts := 0, 0
		byIdx := map[uint64]*Reply{}
		for _, r := range rs {
			if r.Code != 200 {
				if r.Code != 503 || r.T1.Sub(r.T0) < 4*time.Second {
					c.Violate("submission of the acceptable chain %s was answered %d after %v: %s", r.Chain.Desc, r.Code, r.T1.Sub(r.T0), r.Body)
				}
				timeouts++
				continue
			}
			accepted++
			if o := byIdx[r.Idx]; o != nil {
				c.Violate("index %d was given to %s and to %s", r.Idx, o.Chain.Desc, r.Chain.Desc)
			}
			byIdx[r.Idx] = r
		}
		c.LabelN("timeouts", timeouts)
		// one more submission settles everything
		var last *Reply
		var lasts []*Chain
		for try := 0; try < 5; try++ {
			last = w.submit(w.genBatch("last", 1)[0])
			lasts = append(lasts, last.Chain)
			if last.Code == 200 {
				break
			}
		}
		if last.Code != 200 {
			c.Violate("a submission after the burst was answered %d: %s", last.Code, last.Body)
		}
		w.raise([]*Reply{last}, "sct", "entry", "cover")
		w.check("root", "append", "backing")
		h := w.publishedHead()
		if timeouts == 0 && len(lasts) == 1 && h.Size != wo.Base+uint64(len(chs))+1 {
			c.Violate("%d certificates were accepted on top of %d entries, but the tree has size %d", len(chs)+1, wo.Base, h.Size)
		}
		// every entry above the base belongs to one submission, and no certificate is logged twice
		sub := map[Hash]*Chain{}
		for _, ch := range append(chs, lasts...) {
			sub[ch.expect().certFp()] = ch
		}
		seen := map[Hash]uint64{}
		for i := wo.Base; i < h.Size; i++ {
			e := w.entryAt(i, h.Size)
			fp := e.certFp()
			if sub[fp] == nil {
				c.Violate("entry %d holds a certificate that was never submitted (%x)", i, fp)
			}
			if j, dup := seen[fp]; dup {
				c.Violate("the certificate of %s, submitted once, is logged at %d and %d", sub[fp].Desc, j, i)
			}
			seen[fp] = i
			if r := byIdx[i]; r != nil && r.Chain != sub[fp] {
				c.Violate("the SCT for index %d went to %s, the entry there is %s", i, r.Chain.Desc, sub[fp].Desc)
			}
		}
		if hold != 2 { // the store was never slow for long, so nothing may be given up on
			for _, r := range rs {
				if _, logged := seen[r.Chain.expect().certFp()]; !logged {
					c.Violate("the submission of %s was answered %d after %v and is not in the log", r.Chain.Desc, r.Code, r.T1.Sub(r.T0))
				}
			}
		}
		if accepted >= 2 {
			c.NonTrivial()
		}
	})
}

// entryAt reads an entry from the store through the data tile of the given published size.
func (w *World) entryAt(i, size uint64) *Ent {
	t := i / 256
	wd := 256
	if (t+1)*256 > size {
		wd = int(size - t*256)
	}
	key := refTilePath(-1, t, wd)
	if w.tileCache == nil {
		w.tileCache = map[string][]*Ent{}
	}
	ck := fmt.Sprintf("%s@%d", key, size)
	es, ok := w.tileCache[ck]
	if !ok {
		b, have := w.st.get(key)
		if !have {
			w.c.Violate("data tile %s of the published size %d is not stored", key, size)
		}
		var err error
		es, err = decTile(b)
		if err != nil || len(es) != wd {
			w.c.Violate("data tile %s of the published size %d holds %d entries (%v)", key, size, len(es), err)
		}
		w.tileCache[ck] = es
	}
	return es[i%256]
}

func countClass(n int) string {
	switch {
	case n == 1:
		return "1"
	case n <= 12:
		return "2-12"
	case n < 255:
		return "13-254"
	case n <= 510:
		return "255-510"
	}
	return ">510"
}

// ---------------------------------------------------------------- C18

func TestC18(t *testing.T) {
	rule := "A case is one history (submissions, duplicates, restarts, crashes, and reads of index files that fail for good, transiently or half-way during a batch) over a log with a short or long bucket prefix, so that files collect records from many batches. Every write of an index file is compared with its previous contents. Non-trivial: at least one accepted submission in a history of at least two steps."
	runCheck(t, "C18", rule, 30, 2000, func(c *Case) {
		wo := WorldOpts{Mask: pick(c, "mask", 1, 1, 2, 2, 3, 4, 5, 8, 20, 32), Flush: c.Int("flush", 3, 15), Base: c.baseSize("base"), FS: c.Chance("fs", 10)}
		wo.crowd(c)
		w := newWorld(c, wo)
		defer w.close()
		lat := &latency{}
		if !wo.FS {
			lat = genLatency(c, 8)
		}
		c.Note("log: base size %d, mask %d, flush %d, fs %v, %v", wo.Base, wo.Mask, wo.Flush, wo.FS, lat)
		var hc histCount
		w.mustBoot("first start")
		w.cur.inst.SetPlan(lat.plan)
		after := func(rs []*Reply) {
			hc.add(rs)
			w.raise(rs, "dedupe")
			w.check("hashidx", "dedupe")
		}
		for s, steps := 0, c.Int("steps", 2, 7); s < steps; s++ {
			kind := c.weighted("op", 58, 10, 12, 14, 6)
			if wo.FS && kind >= 2 {
				kind = 0
			}
			switch kind {
			case 0:
				n := []int{1, c.Int("n1", 2, 8), c.Int("n2", 9, 40)}[c.weighted("n", 30, 50, 20)]
				chs := w.genBatch("k", n)
				if c.Chance("dups", 25) {
					chs = append(chs, w.genDuplicates(chs)...)
				}
				c.Note("submit %d: %s", len(chs), descs(chs))
				after(w.submitAll(chs))
			case 1:
				c.Note("restart")
				w.retire()
				w.mustBoot("restart")
				w.cur.inst.SetPlan(lat.plan)
			case 2:
				x := genCrash(c)
				if c.Bool("idx-crash") {
					x.kind, x.class = pick(c, "idx-kind", "PUT", "GET"), pick(c, "idx-class", "hashes", "dedupe")
				}
				chs := w.genBatch("x", c.Int("n", 1, 8))
				c.Note("submit %s and %v", descs(chs), x)
				c.Label("crash")
				rs := w.crashDuring(x, chs, lat.plan)
				w.mustBoot("after " + x.String())
				w.cur.inst.SetPlan(lat.plan)
				after(rs)
			case 3: // reads that fail for good
				cls := pick(c, "class", "hashes", "dedupe")
				f := []int{403, 400, -2, 500, 503, -1}[c.weighted("fault", 35, 20, 35, 4, 3, 3)]
				nth := c.weighted("nth", 60, 20, 20)
				chs := w.genBatch("f", c.Int("n", 1, 8))
				c.Note("submit %s; from the %d. %s read on: fault %d", descs(chs), nth, cls, f)
				c.Label(fmt.Sprintf("permanent read fault %d", f))
				c.Faults()
				w.cur.inst.SetPlan(readFault(cls, nth, f, 1<<30, lat.plan))
				p := w.cur
				pd := w.submitAsync(chs)
				if !w.waitFor(func() bool { return p.released() || pd.all() }) {
					// property C24 demands that leadership is given up; here only the files matter
					c.Label("not released")
				}
				w.retire()
				w.mustBoot("after failing reads")
				w.cur.inst.SetPlan(lat.plan)
				after(pd.replies())
			case 4: // transient read failures
				cls := pick(c, "class", "hashes", "dedupe")
				f := pick(c, "fault", 500, 503, -1)
				chs := w.genBatch("t", c.Int("n", 1, 8))
				c.Note("submit %s; the first %s read fails once with %d", descs(chs), cls, f)
				c.Label("transient read fault")
				w.cur.inst.SetPlan(readFault(cls, 0, f, 1, lat.plan))
				c.Faults()
				rs := w.submitAll(chs)
				if w.cur.released() {
					w.retire()
					w.mustBoot("after a transient read failure")
				}
				w.cur.inst.SetPlan(lat.plan)
				after(rs)
			}
		}
		w.indexSweep()
		hc.nontrivial(c, w)
	})
}

// readFault lets reads of a class fail from the nth on, count times, once the batch's tiles are being written.
// -1 drops the connection, -2 cuts the body.
func readFault(cls string, nth, f, count int, next func(op Op) Action) func(op Op) Action {
	armed := false
	n, failed := 0, 0
	return func(op Op) Action {
		a := next(op)
		if op.Kind == "PUT" && op.Class == "data" {
			armed = true
		}
		if op.Kind != "GET" || op.Class != cls || (cls == "dedupe" && !armed) || failed >= count {
			return a
		}
		n++
		if n <= nth {
			return a
		}
		failed++
		switch f {
		case -1:
			a.Drop = true
		case -2:
			a.Cut = 1 + len(op.Key)%40
		default:
			a.Status = f
		}
		return a
	}
}

// indexSweep checks the complete contents of the index files against the log and the issued SCTs.
func (w *World) indexSweep() {
	c := w.c
	w.check("hashidx", "dedupe")
	h := w.publishedHead()
	for i := w.base; i < h.Size; i++ {
		e := w.entryAt(i, h.Size)
		lh := leafHash(e.leafInput())
		key := "int/hashes/" + refBucketPath(lh[:], w.mask)
		b, _ := w.st.get(key)
		recs, err := decHashFile(b)
		if err != nil {
			c.Violate("%s: %v", key, err)
		}
		found := false
		for _, r := range recs {
			if r.H == [16]byte(lh[:16]) {
				if r.Idx != i {
					c.Violate("%s records the leaf hash of entry %d as index %d", key, i, r.Idx)
				}
				found = true
			}
		}
		if !found {
			c.Violate("the leaf hash of entry %d is not in %s", i, key)
		}
	}
	for _, r := range w.accepted() {
		if preIssued(r.Chain.expect()) {
			continue
		}
		fp := r.Chain.expect().certFp()
		key := "int/dedupe/" + refBucketPath(fp[:], w.mask)
		b, _ := w.st.get(key)
		recs, err := decDedupeFile(b)
		if err != nil {
			c.Violate("%s: %v", key, err)
		}
		found := false
		for _, x := range recs {
			found = found || (x.H == [16]byte(fp[:16]) && x.Idx == r.Idx && x.Ts == r.SCT.Timestamp)
		}
		if !found {
			c.Violate("the SCT for %s (index %d, timestamp %d) is not recorded in %s", r.Chain.Desc, r.Idx, r.SCT.Timestamp, key)
		}
	}
}

// ---------------------------------------------------------------- C23

func TestC23(t *testing.T) {
	rule := "A case is one history over one log (empty ones included) with idle periods, restarts, crashes, held writes and latencies; every SCT's timestamp is compared with the wall clock around its first submission, every tree head's with the entries, the wall clock and the previous head, and after an idle period both published heads must be newer than its beginning. Non-trivial: an idle period was observed or a submission accepted."
	runCheck(t, "C23", rule, 60, 2000, func(c *Case) {
		w := history(c, histOpts{maxSteps: 5, maxBatch: 40, bigPct: 12, crash: 8, restart: 14, hold: 16, idle: 30, dup: 20, latencyMs: 25, fsPct: 15,
			base: func(c *Case) uint64 {
				if c.Chance("emptylog", 35) {
					return 0
				}
				return c.baseSize("base")
			},
			after: func(w *World, rs []*Reply) {
				w.noteTimes(rs)
				w.check("ts", "sig")
				if c.Chance("quiet", 50) {
					w.freshHeads()
				}
			}})
		defer w.close()
		w.check("ts", "sig")
		w.freshHeads()
		w.check("ts", "sig")
		c.NonTrivial()
	})
}

func (w *World) noteTimes(rs []*Reply) {
	if w.firstT0 == nil {
		w.firstT0 = map[string]time.Time{}
		w.firstT1 = map[string]time.Time{}
	}
	for _, r := range rs {
		id := identity(r.Chain)
		if t, ok := w.firstT0[id]; !ok || r.T0.Before(t) {
			w.firstT0[id] = r.T0
		}
	}
	for _, r := range rs {
		if r.Code != 200 {
			continue
		}
		id := identity(r.Chain)
		lo, hi := uint64(w.firstT0[id].UnixMilli()), uint64(r.T1.UnixMilli())
		if r.SCT.Timestamp < lo || r.SCT.Timestamp > hi {
			w.c.Violate("the SCT for %s has timestamp %d; the certificate was first submitted at %d and this SCT was returned at %d", r.Chain.Desc, r.SCT.Timestamp, lo, hi)
		}
	}
}

// freshHeads waits for new heads and checks that both streams are fresh and unchanged in contents.
func (w *World) freshHeads() {
	c := w.c
	c.Label("freshness observed")
	before := w.publishedHead()
	start := time.Now()
	check := func() string {
		s, _ := w.st.get("ct/v1/get-sth")
		cp, _ := w.st.get("checkpoint")
		h1, err := parseSTH(s, w.aud.pub)
		if err != nil {
			return fmt.Sprintf("the STH is invalid: %v", err)
		}
		h2, err := parseCheckpointNote(cp, w.name, w.aud.pub, w.aud.spki)
		if err != nil {
			return fmt.Sprintf("the checkpoint is invalid: %v\n%s", err, cp)
		}
		lo := uint64(start.UnixMilli())
		if h1.Ts < lo || h2.Ts < lo {
			return fmt.Sprintf("STH %d and checkpoint %d are older than %d", h1.Ts, h2.Ts, lo)
		}
		hi := uint64(time.Now().UnixMilli())
		if h1.Ts > hi || h2.Ts > hi {
			return fmt.Sprintf("STH %d or checkpoint %d is in the future (%d)", h1.Ts, h2.Ts, hi)
		}
		if h1.Size < before.Size || h2.Size < before.Size {
			return fmt.Sprintf("sizes %d, %d shrank from %d", h1.Size, h2.Size, before.Size)
		}
		return ""
	}
	msg := ""
	n0 := atomic.LoadInt64(&w.st.headPuts)
	if !w.waitFor(func() bool {
		msg = check()
		// with the object store, give up early when many heads were published and one stream stays stale
		return msg == "" || (!w.fs && atomic.LoadInt64(&w.st.headPuts) > n0+40)
	}) || msg != "" {
		c.Violate("an idle log (size %d) does not publish fresh tree heads: %s", before.Size, msg)
	}
}
