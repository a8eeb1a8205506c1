package verifh

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

// ---------------------------------------------------------------- the published policy, restated

// certInfo is what the harness knows about a certificate it built.
type certInfo struct {
	ca        *CA // an authority, or
	leaf      *Leaf
	badPoison bool
}

func (i certInfo) issuedBy(b *CA) bool {
	if b.notCA {
		return false
	}
	p := i.ca
	if p != nil {
		if p.Parent != nil {
			p = p.Parent
		}
	} else {
		p = i.leaf.Issuer
	}
	return bytes.Equal(p.Subject, b.Subject) && p.Key == b.Key
}

func (i certInfo) notAfter() time.Time {
	if i.ca != nil {
		return i.ca.until
	}
	if i.leaf.Spec.NotAfter.IsZero() {
		return defaultNotAfter
	}
	return i.leaf.Spec.NotAfter
}

// policy decides whether the decoded chain has to be accepted, and with which verified chain.
func (w *World) policy(known func(der []byte) (certInfo, bool), roots []*CA, list [][]byte, preEndpoint bool) (ok bool, verified []*CA, why string) {
	if len(list) == 0 {
		return false, nil, "empty chain"
	}
	var infos []certInfo
	seen := map[string]bool{}
	for _, d := range list {
		i, ok := known(d)
		if !ok {
			return false, nil, "not a certificate (or a broken one)"
		}
		if seen[string(d)] {
			return false, nil, "repeated certificate"
		}
		seen[string(d)] = true
		infos = append(infos, i)
	}
	isRoot := func(a *CA) bool {
		for _, r := range roots {
			if r == a {
				return true
			}
		}
		return false
	}
	if na := infos[0].notAfter(); na.Before(w.start) || !na.Before(w.limit) {
		return false, nil, "outside of the window"
	}
	for k := 0; k+1 < len(infos); k++ {
		if infos[k+1].ca == nil || !infos[k].issuedBy(infos[k+1].ca) {
			return false, nil, "does not chain up"
		}
	}
	for _, i := range infos[1:] {
		verified = append(verified, i.ca)
	}
	last := infos[len(infos)-1]
	if len(infos) > 1 && infos[0].ca != nil && isRoot(infos[0].ca) {
		return false, nil, "certificates after a root"
	}
	if last.ca == nil || !isRoot(last.ca) {
		found := false
		for _, r := range roots {
			if last.issuedBy(r) {
				verified, found = append(verified, r), true
				break
			}
		}
		if !found {
			return false, nil, "no accepted root"
		}
	}
	l := infos[0].leaf
	if l == nil {
		if preEndpoint {
			return false, nil, "wrong endpoint"
		}
		return true, verified, ""
	}
	if infos[0].badPoison {
		return false, nil, "malformed poison"
	}
	if l.Spec.Pre != preEndpoint {
		return false, nil, "wrong endpoint"
	}
	if l.Spec.Pre && (len(verified) < 1 || verified[0].PreIss && len(verified) < 2) {
		return false, nil, "no real issuer"
	}
	return true, verified, ""
}

func allCAs() []*CA {
	p := pki()
	return []*CA{p.R1, p.R2, p.R3, p.RX, p.RI, p.RP, p.I1, p.I2, p.I3, p.I1x, p.J, p.IX, p.I1bad, p.NC, p.P1, p.P1b, p.P2, p.PR, p.P3, p.RE, p.IR, p.IE, p.RL, p.IL, p.PL, p.PM1, p.PM2, p.T1, p.T2, p.T2I, p.IN, p.PN, p.RV}
}

// attempt is one request to the submission API.
type attempt struct {
	desc   string
	body   []byte
	pre    bool // endpoint
	want   bool
	chain  *Chain // if want
	why    string
	code   int
	resp   []byte
	pan    string
	dedupe bool // may be answered from the dedupe map
	reply  *Reply
}

// deepPath is a long issuing path below R1 (issuer first).
var deepPath = sync.OnceValue(func() []*CA {
	p := pki()
	path := []*CA{p.R1}
	for k := 1; k <= 18; k++ {
		a := newCA(fmt.Sprintf("D%d", k), fmt.Sprintf("Deep %d", k), ecKey(fmt.Sprintf("D%d", k)), path[0], nil)
		path = append([]*CA{a}, path...)
	}
	return path
})

// deep draws where to begin in the long path.
func (c *Case) deep() int {
	if c.Chance("very-deep", 15) {
		return c.Uni("deep", 0, 11)
	}
	return c.Uni("deep", 11, 18)
}

func TestC07(t *testing.T) {
	rule := "A case is one log (drawn window and root list) and 8-30 concurrent requests drawn from a grammar of certificate chains (paths through a graph of roots, intermediates, precertificate signing certificates, forged, unknown and non-CA issuers; mutated by dropping, swapping, repeating, inserting, corrupting certificates), leaves (poison forms, NotAfter around the window), endpoints, and wire forms (whitespace, escapes, unknown fields, malformed JSON and base64, sizes around the limit). Non-trivial: some requests had to be accepted and some refused."
	runCheck(t, "C07", rule, 110, 4000, func(c *Case) {
		p := pki()
		wo := WorldOpts{Mask: c.Uni("mask", 1, 4), Flush: c.Uni("flush", 3, 8), Base: uint64(c.Uni("base", 0, 300))}
		switch c.weighted("window", 50, 25, 25) {
		case 1: // authorities fit, too
			wo.Start, wo.Limit = time.Date(2010, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2060, 1, 1, 0, 0, 0, 0, time.UTC)
		case 2: // everything has expired
			wo.Start, wo.Limit = time.Date(2022, 3, 4, 5, 6, 7, 0, time.UTC), time.Date(2024, 3, 4, 5, 6, 7, 0, time.UTC)
		}
		roots := append([]*CA{}, p.RootList...)
		if c.Chance("fewer-roots", 30) {
			k := c.Uni("root", 0, len(roots)-1)
			roots = append(roots[:k], roots[k+1:]...)
		}
		for _, r := range roots {
			wo.Roots = append(wo.Roots, r.Cert)
		}
		w := newWorld(c, wo)
		w.zoneSalt = c.Uni("zones", 0, 40)
		defer w.close()
		var rn []string
		for _, r := range roots {
			rn = append(rn, r.Name)
		}
		c.Note("log: roots %v, window %s .. %s", rn, w.start.Format(time.RFC3339), w.limit.Format(time.RFC3339))
		w.mustBoot("first start")
		table := map[Hash]certInfo{}
		for _, a := range append(allCAs(), deepPath()...) {
			table[sha256.Sum256(a.Cert)] = certInfo{ca: a}
		}
		known := func(d []byte) (certInfo, bool) { i, ok := table[sha256.Sum256(d)]; return i, ok }
		var as []*attempt
		for i, n := 0, c.Uni("requests", 8, 30); i < n; i++ {
			as = append(as, w.genAttempt(i, nil, table, known, roots))
		}
		first := len(as)
		if c.Chance("again", 70) { // a second wave with certificates that were logged in the first one
			var logged []*Chain
			for _, a := range as {
				if a.want && a.chain != nil && a.chain.Leaf.Issuer != nil {
					logged = append(logged, a.chain)
				}
			}
			for i, n := 0, c.Uni("n-again", 2, 12); i < n && len(logged) > 0; i++ {
				as = append(as, w.genAttempt(first+i, logged[c.Uni("logged", 0, len(logged)-1)], table, known, roots))
			}
			c.LabelIf(len(as) > first, "logged certificates again")
		}
		acc, ref := 0, 0
		for i, a := range as {
			if i == first {
				c.Note("then, with certificates from above:")
			}
			c.Note("%s -> accept=%v %s", a.desc, a.want, a.why)
			if a.want {
				acc++
			} else {
				ref++
				c.Label("refuse: " + a.why)
			}
		}
		c.LabelN("accept", acc)
		if acc > 0 && ref > 0 {
			c.NonTrivial()
		}
		var wg sync.WaitGroup
		pr := w.cur
		if ref > 0 && c.Chance("storm", 8) { // some hundred requests that are refused
			n := c.Uni("storm-n", 100, 700)
			c.Note("before these: %d requests, all of those that have to be refused again and again", n)
			c.Label("hundreds of refused requests")
			var bad []*attempt
			for _, a := range as {
				if !a.want {
					bad = append(bad, a)
				}
			}
			msgs := make([]string, 8)
			for k := range msgs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer w.recoverInfra()
					for i := k; i < n && msgs[k] == ""; i += len(msgs) {
						a := bad[i%len(bad)]
						if code, resp, pan := pr.post(endpoint(a.pre), a.body); pan != "" || code < 400 || code > 599 {
							msgs[k] = fmt.Sprintf("%s has to be refused (%s), but was answered %d: %.300s %s", a.desc, a.why, code, resp, pan)
						}
					}
				}()
			}
			c.answered(&wg)
			for _, m := range msgs {
				if m != "" {
					c.Violate("%s", m)
				}
			}
		}
		for i, a := range as {
			if i == first {
				c.answered(&wg)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer w.recoverInfra()
				a.code, a.resp, a.pan = pr.post(endpoint(a.pre), a.body)
				if a.code == 200 && a.pan == "" && a.want && a.chain != nil {
					a.reply = &Reply{Chain: a.chain, Proc: pr, Code: a.code, Body: a.resp}
					w.judge(a.reply)
				}
			}()
		}
		c.answered(&wg)
		distinct := map[string]int{}
		okIssuers := map[Hash]bool{}
		for _, a := range []*CA{p.I1, p.R1, p.R2} { // stored with the base tree
			okIssuers[a.fp()] = true
		}
		for _, a := range as {
			if a.pan != "" {
				c.Violate("%s: %s", a.desc, a.pan)
			}
			if a.want {
				if a.code != 200 {
					c.Violate("%s has to be accepted, but was answered %d: %.300s", a.desc, a.code, a.resp)
				}
				if a.reply != nil {
					w.raise([]*Reply{a.reply}, "sct", "cover", "entry")
					distinct[identityCA(a.chain)]++
				}
				for _, x := range a.chain.Verified {
					okIssuers[x.fp()] = true
				}
				continue
			}
			if a.code < 400 || a.code > 599 {
				c.Violate("%s has to be refused (%s), but was answered %d: %.300s", a.desc, a.why, a.code, a.resp)
			}
		}
		w.mustProgress(4, "after the requests")
		// nothing but the accepted submissions has left traces
		size := w.publishedHead().Size
		lo, hi := wo.Base+uint64(len(distinct)), wo.Base
		for _, n := range distinct {
			hi += uint64(n)
		}
		if size < lo || size > hi {
			c.Violate("%d requests for %d distinct certificates were accepted, but the tree grew from %d to %d", acc, len(distinct), wo.Base, size)
		}
		nd := 0
		for k, b := range w.st.snapshot() {
			switch classOf(k) {
			case "issuer":
				if h := sha256.Sum256(b); !okIssuers[h] {
					c.Violate("the issuer %s was stored, but no accepted chain contains it", k)
				}
			case "dedupe":
				recs, err := decDedupeFile(b)
				if err != nil {
					c.Violate("%s: %v", k, err)
				}
				nd += len(recs)
				for _, r := range recs {
					if r.Idx < wo.Base || r.Idx >= size {
						c.Violate("%s records index %d, the published size is %d", k, r.Idx, size)
					}
				}
			}
		}
		if nd > int(size-wo.Base) {
			c.Violate("%d dedupe records for %d new entries", nd, size-wo.Base)
		}
		w.check("root", "append", "backing", "issuer")
		// still alive
		ch := cheapChain(fmt.Sprintf("alive-%d", c.Int("alive", 0, 1<<20)), false, 0, true)
		if roots[0] == p.R1 && w.start.Year() == 2020 {
			if r := w.submit(ch); r.Code != 200 {
				c.Violate("after the requests a good submission is answered %d: %.300s", r.Code, r.Body)
			} else {
				w.raise([]*Reply{r}, "sct", "cover", "entry")
			}
		}
	})
}

// answered waits for requests to a log whose store works at once.
func (c *Case) answered(wg *sync.WaitGroup) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	start, late0 := time.Now(), atomic.LoadInt64(&heartLate)
	for {
		select {
		case <-done:
			return
		case <-time.After(time.Second):
			if t := time.Since(start) - 6*time.Duration(atomic.LoadInt64(&heartLate)-late0); t > 40*time.Second {
				c.Violate("some requests are not answered after %v", t)
			}
		}
	}
}

func identityCA(ch *Chain) string {
	if ch.Leaf == nil {
		return fmt.Sprintf("%x", ch.Posted[0])
	}
	return identity(ch)
}

// genAttempt draws one request, with the certificate of a logged chain if there is one.
func (w *World) genAttempt(i int, again *Chain, table map[Hash]certInfo, known func([]byte) (certInfo, bool), roots []*CA) *attempt {
	c := w.c
	a := &attempt{}
	if again == nil && c.Chance("raw", 14) {
		return w.rawAttempt(i, a)
	}
	cas := allCAs()
	if again != nil {
		var names []string
		for _, x := range again.Verified {
			names = append(names, x.Name)
		}
		list := [][]byte{again.Leaf.DER}
		for _, x := range again.Verified {
			list = append(list, x.Cert)
		}
		return w.mangle(a, again.Leaf.Spec.Pre, list, append([]string{"the leaf of " + again.Desc}, names...), 35, table, known, roots)
	}
	spec := LeafSpec{Label: fmt.Sprintf("q%d-%d", i, c.Int("salt", 0, 1<<30)), Pre: c.Bool("pre"), Key: c.Uni("key", 0, 2), PoisonPos: c.Uni("poison", 0, 4)}
	switch c.weighted("notAfter", 60, 6, 6, 6, 6, 8, 8) {
	case 0:
		spec.NotAfter = w.start.Add(w.limit.Sub(w.start) / 1000 * time.Duration(c.Uni("at", 1, 999))).Truncate(time.Second)
	case 1:
		spec.NotAfter = w.start
	case 2:
		spec.NotAfter = w.start.Add(-time.Second)
	case 3:
		spec.NotAfter = w.limit
	case 4:
		spec.NotAfter = w.limit.Add(-time.Second)
	case 5:
		spec.NotAfter = w.start.AddDate(-c.Uni("years", 1, 30), 0, 0)
	case 6:
		spec.NotAfter = w.limit.AddDate(c.Uni("years", 1, 60), 0, 0)
	}
	bad := false
	if c.Chance("eku", 20) {
		spec.Extra = append(spec.Extra, pick(c, "ekus", extEKU([]int{1, 3, 6, 1, 5, 5, 7, 3, 1}), extEKU([]int{1, 3, 6, 1, 5, 5, 7, 3, 9}), extEKU([]int{1, 2, 3, 4, 5, 6}), extEKU([]int{2, 5, 29, 37, 0}), extEKU()))
	}
	if c.Chance("bad-poison", 8) {
		bad = true
		spec.Extra = append(spec.Extra, pick(c, "poisons", ext{oidPoison, false, []byte{5, 0}}, ext{oidPoison, true, []byte{4, 0}}, ext{oidPoison, true, []byte{}}, ext{oidPoison, true, []byte{5, 0, 0}}))
		spec.Pre = false
		if c.Bool("double") {
			spec.Pre, spec.Extra[len(spec.Extra)-1] = true, extPoison()
		}
	}
	// the path: mostly good ones
	var path []*CA
	var list [][]byte
	var names []string
	var leaf *Leaf
	switch c.weighted("path", 60, 25, 5, 10) {
	case 0:
		paths := goodPaths(spec.Pre || c.Chance("anyway", 20))
		path = paths[c.Uni("good", 0, len(paths)-1)]
	case 1: // follow the real issuers from anywhere
		x := cas[c.Uni("issuer", 0, len(cas)-1)]
		path = []*CA{x}
		for x.Parent != nil && len(path) < 6 {
			x = x.Parent
			if x.Cert == nil { // the forged parent: post the real one
				x = pki().R1
			}
			path = append(path, x)
		}
	case 2:
		path = deepPath()[c.deep():]
	case 3: // an authority as the leaf
		x := cas[c.Uni("ca", 0, len(cas)-1)]
		list, names = append(list, x.Cert), append(names, "CA:"+x.Name)
		for x.Parent != nil && x.Parent.Cert != nil {
			x = x.Parent
			path = append(path, x)
		}
	}
	if list == nil {
		leaf = makeLeaf(spec, path[0])
		table[sha256.Sum256(leaf.DER)] = certInfo{leaf: leaf, badPoison: bad}
		list = append(list, leaf.DER)
		n := fmt.Sprintf("leaf(%s", spec.Label)
		if spec.Pre {
			n += ",pre"
		}
		if bad {
			n += ",bad poison"
		}
		names = append(names, n+",until "+spec.NotAfter.UTC().Format(time.RFC3339)+")")
	}
	for _, x := range path {
		list, names = append(list, x.Cert), append(names, x.Name)
	}
	return w.mangle(a, spec.Pre && leaf != nil, list, names, 58, table, known, roots)
}

// mangle makes the request from a chain, mostly a good one.
func (w *World) mangle(a *attempt, pre bool, list [][]byte, names []string, untouched int, table map[Hash]certInfo, known func([]byte) (certInfo, bool), roots []*CA) *attempt {
	c := w.c
	cas := allCAs()
	if len(list) > 1 && c.Chance("without-root", 45) {
		list, names = list[:len(list)-1], names[:len(names)-1]
	}
	for m := c.weighted("mutations", untouched, 92-untouched, 8); m > 0; m-- {
		k := c.Uni("k", 0, len(list)-1)
		switch c.weighted("mutation", 18, 16, 14, 18, 14, 10, 10) {
		case 0: // drop
			list, names = append(append([][]byte{}, list[:k]...), list[k+1:]...), append(append([]string{}, names[:k]...), names[k+1:]...)
		case 1: // swap
			j := c.Uni("j", 0, len(list)-1)
			list[k], list[j], names[k], names[j] = list[j], list[k], names[j], names[k]
		case 2: // repeat
			list, names = append(list, list[k]), append(names, names[k])
		case 3: // insert
			x := cas[c.Uni("x", 0, len(cas)-1)]
			list = append(append(append([][]byte{}, list[:k+1]...), x.Cert), list[k+1:]...)
			names = append(append(append([]string{}, names[:k+1]...), x.Name), names[k+1:]...)
		case 4: // corrupt the signature or the signed part
			b := append([]byte{}, list[k]...)
			if len(b) < 64 {
				continue // cut by an earlier mutation
			}
			if c.Bool("sig") {
				b[len(b)-1-c.Uni("off", 0, 20)] ^= byte(1 << c.Uni("bit", 0, 7))
			} else {
				b[10+c.Uni("off", 0, len(b)/2)] ^= byte(1 << c.Uni("bit", 0, 7))
			}
			list[k] = b
			names[k] += "(corrupted)"
		case 5: // truncated or trailing bytes, empty
			b := append([]byte{}, list[k]...)
			switch c.Uni("cut", 0, 2) {
			case 0:
				b = b[:c.Uni("len", 0, max(len(b)-1, 0))]
			case 1:
				b = append(b, 0)
			case 2:
				b = []byte{}
			}
			list[k] = b
			names[k] += "(cut or extended)"
		case 6: // replace
			x := cas[c.Uni("x", 0, len(cas)-1)]
			list[k], names[k] = x.Cert, x.Name
		}
		if len(list) == 0 {
			break
		}
	}
	a.pre = pre
	if c.Chance("wrong-endpoint", 10) {
		a.pre = !a.pre
	}
	a.body = chainBody(list)
	a.desc = fmt.Sprintf("%s of %s", endpoint(a.pre)[7:], strings.Join(names, ","))
	switch c.weighted("wire", 70, 8, 8, 8, 6) {
	case 1: // white space, an unknown field
		a.body = bytes.ReplaceAll(a.body, []byte(","), []byte(" ,\n\t"))
		a.body = append([]byte("\r\n {\"x\": [1, {}], "), append(a.body[1:], ' ', '\n')...)
		a.desc += " (white space)"
	case 2: // escapes
		a.body = bytes.Replace(a.body, []byte("chain"), []byte("\\u0063hain"), 1)
		a.body = bytes.ReplaceAll(a.body, []byte("/"), []byte("\\/"))
		a.desc += " (escapes)"
	case 3: // the size limit
		if n := 128*1024 - c.Uni("less", 0, 2); len(a.body) < n {
			a.body = append(a.body, bytes.Repeat([]byte(" "), n-len(a.body))...)
			a.desc += fmt.Sprintf(" (padded to %d)", len(a.body))
		}
	case 4:
		a.body = append(a.body, bytes.Repeat([]byte(" "), 140000)...)
		a.desc += " (oversize)"
		a.why = "oversize"
		return a
	}
	a.decide(w, known, roots)
	return a
}

// decide applies the policy to what the body says.
func (a *attempt) decide(w *World, known func([]byte) (certInfo, bool), roots []*CA) {
	var req struct {
		Chain [][]byte `json:"chain"`
	}
	if err := json.Unmarshal(a.body, &req); err != nil {
		a.why = "malformed JSON"
		return
	}
	ok, verified, why := w.policy(known, roots, req.Chain, a.pre)
	a.want, a.why = ok, why
	if ok {
		i, _ := known(req.Chain[0])
		a.chain = &Chain{Leaf: i.leaf, Posted: req.Chain, Verified: verified, Desc: a.desc}
		if i.leaf == nil {
			a.chain.Leaf = &Leaf{Spec: LeafSpec{Label: "CA:" + i.ca.Name}, DER: i.ca.Cert}
		}
	}
}

// rawAttempt draws a body that is not a chain at all, or a good one broken on the wire.
func (w *World) rawAttempt(i int, a *attempt) *attempt {
	c := w.c
	p := pki()
	leaf := makeLeaf(LeafSpec{Label: fmt.Sprintf("raw%d-%d", i, c.Int("salt", 0, 1<<30)), NotAfter: w.start.Add(w.limit.Sub(w.start) / 2)}, p.R2)
	good := chainBody([][]byte{leaf.DER, p.R2.Cert})
	b64 := base64.StdEncoding.EncodeToString(leaf.DER)
	k := c.Uni("raw-kind", 0, 15)
	a.pre = c.Bool("raw-pre")
	a.body = [][]byte{
		{}, []byte("null"), []byte("{}"), []byte(`{"chain":[]}`), []byte(`{"chain":null}`), []byte(`{"chain":"` + b64 + `"}`), []byte(`{"chain":[""]}`),
		[]byte(`{"chain":[1,2]}`), []byte(`{"chain":["` + b64 + `!"]}`), []byte(`{"chain":["` + strings.TrimRight(b64, "=") + `A"]}`), []byte(`[` + string(good) + `]`),
		good[:c.Uni("cut", 0, 1000)*(len(good)-1)/1000], append(append([]byte{}, good...), '}'), bytes.Repeat([]byte("["), 20000), []byte(`{"chain":[null]}`), c.Seeded("garbage", 300),
	}[k]
	if k == 9 && len(strings.TrimRight(b64, "="))%4 == 3 {
		a.body = []byte(`{"chain":["` + b64[:len(b64)-1] + `"]}`)
		if b64[len(b64)-1] != '=' {
			a.body = []byte(`{"chain":["` + b64 + `="]}`)
		}
	}
	a.desc = fmt.Sprintf("body of kind %d (%.60q)", k, a.body)
	a.why = "malformed body"
	return a
}

// TestC07Routes: only POST to the two paths submits.
func TestC07Routes(t *testing.T) {
	rule := "A case is one request with a good chain to a drawn method and path of the submission API. Non-trivial: the method or the path is not one that submits."
	var w *World
	runCheck(t, "C07", rule, 60, 3000, func(c *Case) {
		if w == nil {
			w = newWorld(c, WorldOpts{Flush: 5})
			w.mustBoot("first start")
		}
		w.c = c
		m := pick(c, "method", "GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "POST")
		path := pick(c, "path", "/ct/v1/add-chain", "/ct/v1/add-pre-chain", "/ct/v1/add-chain/", "/ct/v1/", "/", "/ct/v1/get-sth", "/ct/v2/add-chain", "/add-chain", "/ct/v1/ADD-CHAIN")
		if m == "POST" && (path == "/ct/v1/add-chain" || path == "/ct/v1/add-pre-chain") {
			path += "x"
		}
		w.seq++
		ch := cheapChain(fmt.Sprintf("route-%d-%d", w.seq, c.Int("salt", 0, 1<<30)), strings.Contains(path, "pre"), 0, true)
		c.Note("%s %s", m, path)
		c.NonTrivial()
		size := w.publishedHead().Size
		req := httptest.NewRequest(m, path, bytes.NewReader(chainBody(ch.Posted)))
		rec := httptest.NewRecorder()
		if msg := Panics(func() { w.cur.h.ServeHTTP(rec, req) }); msg != "" {
			c.Violate("%s %s: %s", m, path, msg)
		}
		if rec.Code < 300 || rec.Code > 599 {
			c.Violate("%s %s is answered %d: %.200s", m, path, rec.Code, rec.Body.Bytes())
		}
		w.mustProgress(2, "after the request")
		if s := w.publishedHead().Size; s != size {
			c.Violate("%s %s made the tree grow from %d to %d", m, path, size, s)
		}
	})
	if w != nil {
		w.close()
	}
}

// ---------------------------------------------------------------- C08

func TestC08(t *testing.T) {
	rule := "A case is one log and 2-14 accepted submissions with drawn leaves (certificate or precertificate, poison position, sizes of extensions and of the chain around the DER and TLS length boundaries, key types, with and without authority key id) and issuing paths (direct, deep, precertificate signing certificates), read back from the data tiles, get-entries and get-entry-and-proof. Non-trivial: at least one precertificate among them."
	runCheck(t, "C08", rule, 80, 3000, func(c *Case) {
		wo := WorldOpts{Mask: c.Uni("mask", 1, 4), Flush: c.Uni("flush", 3, 8), Base: c.baseSize("base")}
		w := newWorld(c, wo)
		defer w.close()
		c.Note("log: base size %d", wo.Base)
		w.mustBoot("first start")
		var chs []*Chain
		for i, n := 0, c.Uni("n", 2, 14); i < n; i++ {
			spec := LeafSpec{Label: fmt.Sprintf("e%d-%d", i, c.Int("salt", 0, 1<<30)), Pre: c.Chance("pre", 65), Key: c.Uni("key", 0, 2)}
			if spec.Pre {
				spec.PoisonPos = c.Uni("poison", 0, 7)
				c.NonTrivial()
			}
			switch c.weighted("pad", 40, 20, 15, 10, 5) {
			case 1:
				spec.Pad = c.Uni("padn", 1, 300)
			case 2: // lengths around 255/256 and 65535/65536 in the surrounding DER
				spec.Pad = c.Uni("padn", 0, 40) + pick(c, "padb", 100, 200, 215, 245)
			case 3:
				spec.Pad = 65536 - c.Uni("padn", 0, 700)
			case 4:
				spec.Pad = 4000 * c.Uni("padn", 1, 20)
			}
			for k := c.weighted("extra", 50, 25, 15, 10); k > 0; k-- {
				spec.Extra = append(spec.Extra, ext{[]int{1, 3, 6, 1, 4, 1, 99999, 1 + k}, false, c.Seeded("x", c.Uni("xn", 0, 140))})
			}
			var path []*CA
			if c.Chance("deep", 10) {
				path = deepPath()[c.deep():]
			} else {
				paths := goodPaths(spec.Pre || c.Chance("anyway", 20))
				path = paths[c.Uni("path", 0, len(paths)-1)]
			}
			if !(spec.Pre && path[0].PreIss) {
				spec.NoAKI = c.Chance("no-aki", 25)
			}
			ch := makeChain(makeLeaf(spec, path[0]), path, c.Bool("root"))
			if len(chainBody(ch.Posted)) > 128*1024 {
				continue
			}
			c.Note("%s pad %d, poison %d, aki %v, %d extras", ch.Desc, spec.Pad, spec.PoisonPos, !spec.NoAKI, len(spec.Extra))
			c.Label(fmt.Sprintf("pre=%v preissuer=%v", spec.Pre, path[0].PreIss))
			chs = append(chs, ch)
		}
		// the same precertificate under another final issuer, at the same time
		for _, ch := range chs[:len(chs):len(chs)] {
			if !ch.Leaf.Spec.Pre || !ch.Verified[0].PreIss || !c.Chance("other-issuer", 60) {
				continue
			}
			seen := map[string]bool{identity(ch): true}
			for _, p := range altPaths(ch.Verified, true) {
				if o := makeChain(ch.Leaf, p, true); !seen[identity(o)] && len(chainBody(o.Posted)) <= 128*1024 {
					seen[identity(o)] = true
					c.Note("also as %s", o.Desc)
					c.Label("the same precertificate under another issuer")
					chs = append(chs, o)
				}
			}
		}
		rs := w.submitAll(chs)
		for _, r := range rs {
			if r.Panic != "" {
				c.Violate("%s: %s", r.Chain.Desc, r.Panic)
			}
			if r.Code != 200 {
				c.Violate("%s was answered %d: %.300s", r.Chain.Desc, r.Code, r.Body)
			}
		}
		w.raise(rs, "entry", "sct")
		m := w.monitor()
		h := w.publishedHead()
		for _, r := range rs {
			want := r.Chain.expect()
			want.Ts, want.Idx = r.SCT.Timestamp, r.Idx
			if r.Ent == nil || !bytes.Equal(r.Ent.tileLeaf(), want.tileLeaf()) {
				c.Violate("%s: the data tile entry at index %d is %v, want %v", r.Chain.Desc, r.Idx, r.Ent, want)
			}
			var chain [][]byte
			for _, a := range r.Chain.Verified {
				chain = append(chain, a.Cert)
			}
			extra := want.extraData(chain)
			var es struct {
				Entries []leafJSON `json:"entries"`
			}
			var ep leafJSON
			if msg := m.ask(qEntries(r.Idx, r.Idx)).decode(&es); msg != "" || len(es.Entries) != 1 {
				c.Violate("get-entries %d: %d entries, %s", r.Idx, len(es.Entries), msg)
			}
			if msg := m.ask(qEntryProof(r.Idx, h.Size)).decode(&ep); msg != "" {
				c.Violate("get-entry-and-proof %d %d: %s", r.Idx, h.Size, msg)
			}
			for k, l := range []leafJSON{es.Entries[0], ep} {
				what := []string{"get-entries", "get-entry-and-proof"}[k]
				if !bytes.Equal(l.LeafInput, want.leafInput()) {
					c.Violate("%s: %s returns leaf_input %x for index %d, want %x", r.Chain.Desc, what, trunc(l.LeafInput), r.Idx, trunc(want.leafInput()))
				}
				if !bytes.Equal(l.ExtraData, extra) {
					c.Violate("%s: %s returns extra_data %d bytes %x for index %d, want %d bytes %x", r.Chain.Desc, what, len(l.ExtraData), trunc(l.ExtraData), r.Idx, len(extra), trunc(extra))
				}
			}
		}
	})
}
