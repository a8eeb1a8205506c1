package verifh

import (
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"net/url"
	"testing"
)

const slogRule = "one static log (published history, partial tiles at exactly the published widths, leftovers of interrupted batches, index records of entries that were never published; sizes up to 2^40; object store or directory) read through one monitor instance while the published size advances"

// epochs asks the queries of gen at successive published sizes of the log through one monitor.
func (s *SLog) epochs(n int, gen func(k int) []query) {
	c := s.c
	m := s.monitor()
	first := 0
	if len(s.sizes) > 1 {
		first = len(s.sizes) - 1 - c.Uni("epochs", 0, min(2, len(s.sizes)-1))
	}
	for k := first; k < len(s.sizes); k++ {
		s.publish(k)
		c.Note("published size %d", s.size())
		qs := gen(n)
		for _, q := range qs {
			c.NoteQuiet("%s", q.path)
		}
		s.ask(m, qs)
	}
}

func err4(desc, path string) query {
	return query{desc, path, func(a answer) string { return a.want4xx() }}
}

// genEntriesQuery draws a get-entries request with a real answer.
func (s *SLog) genEntriesQuery(limit int) (query, bool) {
	c := s.c
	v := s.view()
	start, ok := s.realIdx("start")
	if !ok {
		return query{}, false
	}
	// the window start lies in
	hi := uint64(0)
	for _, w := range s.wins {
		if start >= w[0] && start < w[1] && min(w[1], v.size) > hi {
			hi = min(w[1], v.size)
		}
	}
	var end uint64
	switch c.weighted("len", 15, 20, 20, 25, 20) {
	case 0:
		end = start
	case 1:
		end = start + uint64(c.Uni("n", 1, 300))
	case 2:
		end = start + uint64(c.Uni("n", 1, 1023))
	case 3:
		end = start + uint64(limit) - 2 + uint64(c.Uni("n", 0, 3))
	case 4:
		end = pick(c, "huge", start+5000, v.size-1, v.size, v.size+1, v.size+100000, 1<<62, 1<<63-1)
		if end < start {
			end = start
		}
	}
	if last := start + uint64(v.entriesCount(start, end, limit)) - 1; last >= hi { // entries the harness does not know
		end = hi - 1
	}
	return query{"entries", qEntries(start, end), func(a answer) string { return v.checkEntries(a, start, end, limit) }}, true
}

func TestC09(t *testing.T) {
	rule := "A case is " + slogRule + "; 25 get-entries requests per size: ranges inside tiles, across tiles, around the limit of 1024, reaching or lying past the end. Non-trivial: the log has entries and requests with an answer were made."
	runCheck(t, "C09", rule, 36, 2500, func(c *Case) {
		s := genSLog(c, c.Chance("fs", 20), 6, 0)
		defer s.close()
		s.epochs(25, func(n int) (qs []query) {
			size := s.size()
			for i := 0; i < n; i++ {
				if c.Chance("refused", 25) {
					var a, b uint64
					switch c.Uni("how", 0, 3) {
					case 0: // at or past the end
						a = size + uint64(c.Uni("past", 0, 3))*uint64(c.Uni("past2", 0, 300))
						b = a + uint64(c.Uni("n", 0, 2000))
					case 1:
						a, b = c.U64("a", size, 1<<62), 1<<63-1
					case 2: // reversed
						b = c.U64("b", 0, size+5)
						a = b + 1 + uint64(c.Uni("n", 0, 400))
					case 3:
						qs = append(qs, err4("negative", fmt.Sprintf("/ct/v1/get-entries?start=-%d&end=%d", 1+c.Uni("a", 0, 300), c.Uni("b", 0, 300)-150)))
						continue
					}
					qs = append(qs, err4("no entries", qEntries(a, b)))
					c.Label("refused")
				} else if q, ok := s.genEntriesQuery(1024); ok {
					qs = append(qs, q)
					c.Label("answered")
					c.NonTrivial()
				}
			}
			return
		})
	})
}

func TestC10(t *testing.T) {
	rule := "A case is " + slogRule + "; 25 get-proof-by-hash requests per size: logged leaves at drawn tree sizes, and hashes that are not logged (unknown, sharing the first 16 bytes with a logged leaf, recorded by an interrupted batch, logged but outside of the given size). Non-trivial: the log has entries and requests with an answer were made."
	runCheck(t, "C10", rule, 80, 2500, func(c *Case) {
		s := genSLog(c, c.Chance("fs", 15), 3, 0)
		defer s.close()
		s.epochs(25, func(n int) (qs []query) {
			v := s.view()
			bad := func(desc string, h Hash, z uint64) {
				c.Label("not logged: " + desc)
				qs = append(qs, query{desc, qProof(h, z), func(a answer) string { return a.wantError() }})
			}
			for k := 0; k < n; k++ {
				i, ok := s.realIdx("i")
				if !ok {
					bad("empty log", Hash(sha256.Sum256([]byte{byte(k)})), uint64(k%2))
					continue
				}
				h := leafHash(s.ents[i].leafInput())
				switch c.weighted("kind", 64, 6, 8, 10, 6, 6) {
				case 0:
					z := s.drawSize("z", i+1, v.size)
					qs = append(qs, query{fmt.Sprintf("leaf %d", i), qProof(h, z), func(a answer) string { return v.checkProof(a, i, z) }})
					c.Label("answered")
					c.NonTrivial()
				case 1:
					bad("unknown", Hash(sha256.Sum256([]byte(fmt.Sprint("x", k, c.Int("u", 0, 1<<30))))), s.drawSize("z", 1, v.size))
				case 2:
					g := h
					g[16+c.Uni("at", 0, 15)] ^= byte(1 << c.Uni("bit", 0, 7))
					bad("same prefix", g, s.drawSize("z", i+1, v.size))
				case 3:
					if len(s.stale) > 0 {
						x := s.stale[c.Uni("stale", 0, len(s.stale)-1)]
						bad("leftover", x.h, s.drawSize("z", 1, v.size))
					}
				case 4:
					if i > 0 {
						bad("outside of the size", h, s.drawSize("z", 0, i))
					}
				case 5:
					bad("beyond the published size", h, v.size+1+uint64(c.Uni("more", 0, 3))*c.U64("z", 0, 1<<61))
				}
			}
			return
		})
	})
}

func TestC11(t *testing.T) {
	rule := "A case is " + slogRule + "; 30 get-sth-consistency requests per size with drawn pairs of sizes (tile boundaries, powers of two, published sizes, zero, equal), and pairs that must be refused. Non-trivial: a non-empty proof was asked for."
	runCheck(t, "C11", rule, 90, 2500, func(c *Case) {
		s := genSLog(c, c.Chance("fs", 15), 1, 0)
		defer s.close()
		s.epochs(30, func(n int) (qs []query) {
			v := s.view()
			for k := 0; k < n; k++ {
				b := s.drawSize("b", 0, v.size)
				a := s.drawSize("a", 0, b)
				switch c.weighted("kind", 76, 8, 8, 8) {
				case 0:
					qs = append(qs, query{"consistency", qCons(a, b), func(x answer) string { return v.checkCons(x, a, b) }})
					if a > 0 && a < b {
						c.NonTrivial()
						c.Label("proof")
					} else {
						c.Label("empty proof")
					}
				case 1:
					if a < b {
						qs = append(qs, err4("reversed", qCons(b, a)))
					}
				case 2:
					z := v.size + 1 + uint64(c.Uni("more", 0, 3))*c.U64("z", 0, 1<<61)
					qs = append(qs, err4("second beyond the published size", qCons(a, z)))
					if c.Bool("both") {
						qs = append(qs, err4("both beyond the published size", qCons(z, z)))
					}
				case 3:
					qs = append(qs, err4("negative", fmt.Sprintf("/ct/v1/get-sth-consistency?first=-%d&second=%d", 1+c.Uni("neg", 0, 5), a)))
				}
			}
			return
		})
	})
}

func TestC12(t *testing.T) {
	rule := "A case is " + slogRule + "; 25 get-entry-and-proof requests per size with drawn indexes and sizes, and pairs that must be refused. Non-trivial: the log has entries and requests with an answer were made."
	runCheck(t, "C12", rule, 80, 2500, func(c *Case) {
		s := genSLog(c, c.Chance("fs", 15), 3, 0)
		defer s.close()
		s.epochs(25, func(n int) (qs []query) {
			v := s.view()
			for k := 0; k < n; k++ {
				i, ok := s.realIdx("i")
				if !ok || c.Chance("refused", 25) {
					switch c.Uni("how", 0, 3) {
					case 0: // index not below the size
						z := s.drawSize("z", 0, v.size)
						qs = append(qs, err4("index not below the size", qEntryProof(z+uint64(c.Uni("n", 0, 3))*uint64(c.Uni("m", 0, 300)), z)))
					case 1: // beyond the published size
						z := v.size + 1 + uint64(c.Uni("more", 0, 3))*c.U64("z", 0, 1<<61)
						qs = append(qs, err4("size beyond the published one", qEntryProof(i, z)))
					case 2:
						qs = append(qs, err4("index and size beyond the published one", qEntryProof(v.size, v.size+1)))
					case 3:
						qs = append(qs, err4("negative", fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=-%d&tree_size=%d", 1+c.Uni("neg", 0, 300), v.size)))
					}
					c.Label("refused")
					continue
				}
				z := s.drawSize("z", i+1, v.size)
				qs = append(qs, query{"entry and proof", qEntryProof(i, z), func(a answer) string { return v.checkEntryProof(a, i, z) }})
				c.Label("answered")
				c.NonTrivial()
			}
			return
		})
	})
}

// ---------------------------------------------------------------- C13

// badValue draws a parameter value that is certainly not a non-negative int64.
func badValue(c *Case, name string) string {
	return pick(c, name, "", "abc", "1e3", "0x10", "1.0", " 7", "7 ", "-1", "-9223372036854775808", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "--1", "1,2", "٣", "\x00", "null", "1 OR 1=1", "１")
}

// cleanCut is a place between two entries of a data tile or two hashes of another object.
func cleanCut(key string, b []byte, r byte) int {
	if classOf(key) != "data" {
		return max(1, (len(b)*int(r)/256)/32*32)
	}
	n := 0
	if es, err := decTile(b); err == nil && len(es) > 1 {
		for _, e := range es[:1+int(r)%(len(es)-1)] {
			n += len(e.tileLeaf())
		}
	}
	return max(1, n)
}

func TestC13(t *testing.T) {
	rule := "A case is " + slogRule + ", with failures of the tile store (drawn per object: error status, dropped connection, cut-off body with or without a stated length, missing object); 40 requests: proper ones, ones with missing, repeated, malformed, negative or overflowing parameters, other methods and paths. Non-trivial: requests were made while the store failed, or malformed ones."
	runCheck(t, "C13", rule, 130, 2500, func(c *Case) {
		s := genSLog(c, false, 3, 0)
		defer s.close()
		m := s.monitor()
		v := s.view()
		// failures
		mode := c.weighted("faults", 30, 70)
		if mode == 1 {
			pct := pick(c, "pct", 5, 15, 40, 100)
			only := c.weighted("only", 40, 10, 15, 15, 10, 10, 3)
			classes := []string{"", "sth", "data", "tile", "hashes", "issuer", "roots"}
			cls := classes[only]
			salt := c.Int("fault-salt", 0, 1<<30)
			kind := c.weighted("fault-kind", 30, 10, 15, 15, 15, 15)
			c.Note("store fails: class %q, %d%%, kind %d, salt %d", cls, pct, kind, salt)
			c.NonTrivial()
			c.Label(fmt.Sprintf("faults:%s kind %d", cls, kind))
			s.st.readPlan = func(key string) (a Action) {
				if cls != "" && classOf(key) != cls {
					return
				}
				r := prf(fmt.Sprintf("fault %d %s", salt, key), 6)
				if int(r[0])*100/256 >= pct {
					return
				}
				k := kind
				if k == 0 {
					k = 1 + int(r[1])%5
				}
				switch k {
				case 1:
					a.Status = []int{500, 503, 403, 429, 301, 204, 206, 400, 206, 202}[r[2]%10]
					if b, ok := s.object(key); ok && a.Status == 206 && r[3]%2 == 0 {
						a.Body = b[:min(len(b), cleanCut(key, b, r[4]))]
					}
				case 2:
					a.Drop = true
				case 3: // connection breaks in the body
					a.Cut = 1 + int(r[3])*int(r[4])/8
				case 4: // the body just ends
					a.Cut, a.Close = 1+int(r[3])*int(r[4])/8, true
					if r[5]%2 == 0 { // between two entries or hashes
						if b, ok := s.object(key); ok {
							a.Cut = cleanCut(key, b, r[3])
						}
					}
					if b, ok := s.object(key); ok && a.Cut >= len(b) {
						a.Cut = len(b) - 1
					}
					if a.Cut < 1 {
						a.Cut, a.Close, a.Status = 0, false, 500
					}
				case 5:
					a.Status = 404
				}
				return
			}
		}
		faulty := mode == 1
		// an answer is right, or (under failures) an error
		orErr := func(q query) query {
			j := q.judge
			q.judge = func(a answer) string {
				if faulty && a.pan == "" && a.code >= 400 && a.code <= 599 {
					return ""
				}
				return j(a)
			}
			return q
		}
		size := v.size
		num := func(name string) string {
			if i, ok := s.realIdx(name); ok {
				return fmt.Sprint(i)
			}
			return "0"
		}
		b64 := func() string {
			h := sha256.Sum256([]byte(fmt.Sprint(c.Int("h", 0, 9))))
			if i, ok := s.realIdx("hi"); ok {
				h = leafHash(s.ents[i].leafInput())
			}
			return base64.StdEncoding.EncodeToString(h[:])
		}
		type ep struct {
			path   string
			params []string
		}
		eps := []ep{{"get-entries", []string{"start", "end"}}, {"get-proof-by-hash", []string{"hash", "tree_size"}}, {"get-sth-consistency", []string{"first", "second"}}, {"get-entry-and-proof", []string{"leaf_index", "tree_size"}}}
		var qs, proper []query
		for k := 0; k < 40; k++ {
			from := len(qs)
			isProper := false
			switch c.weighted("request", 50, 40, 10) {
			case 0: // proper
				isProper = true
				i, ok := s.realIdx("i")
				if !ok {
					continue
				}
				z := s.drawSize("z", i+1, size)
				switch c.weighted("proper", 40, 20, 15, 25) {
				case 0:
					if q, ok := s.genEntriesQuery(1024); ok {
						qs = append(qs, orErr(q))
					}
				case 1:
					qs = append(qs, orErr(query{"proof", qProof(leafHash(s.ents[i].leafInput()), z), func(a answer) string { return v.checkProof(a, i, z) }}))
				case 2:
					a := s.drawSize("a", 0, z)
					qs = append(qs, orErr(query{"consistency", qCons(a, z), func(x answer) string { return v.checkCons(x, a, z) }}))
				case 3:
					qs = append(qs, orErr(query{"entry and proof", qEntryProof(i, z), func(a answer) string { return v.checkEntryProof(a, i, z) }}))
				}
			case 1: // bad parameters
				c.NonTrivial()
				e := eps[c.Uni("endpoint", 0, 3)]
				vals := map[string]string{}
				for _, p := range e.params {
					vals[p] = num(p)
					if p == "hash" {
						vals[p] = b64()
					} else if p == "tree_size" || p == "second" || p == "end" {
						vals[p] = fmt.Sprint(size)
					}
				}
				bad := e.params[c.Uni("which", 0, 1)]
				var raw string
				switch c.weighted("how", 20, 60, 20) {
				case 0: // missing
					delete(vals, bad)
				case 1:
					if bad == "hash" {
						vals[bad] = pick(c, "badhash", "", "AAAA", "!!!!", b64()[:43], b64()+"AAAA", base64.URLEncoding.EncodeToString([]byte("\xff\xfe\xfd")), base64.StdEncoding.EncodeToString(make([]byte, 31)), base64.StdEncoding.EncodeToString(make([]byte, 33)), "=", string(make([]byte, 44)))
					} else {
						vals[bad] = badValue(c, "value")
					}
				case 2: // broken query syntax
					raw = pick(c, "raw", "", "&&&", "%zz", "=", "start", "start=1;end=2", "%00=%00", "a[]=1", "start=%", "hash=%zz&tree_size=1")
					qs = append(qs, orErr(err4("broken query", "/ct/v1/"+e.path+"?"+raw)))
					continue
				}
				u := url.Values{}
				for p, x := range vals {
					u.Set(p, x)
				}
				qs = append(qs, orErr(err4("bad "+bad, "/ct/v1/"+e.path+"?"+u.Encode())))
			case 2: // repeated parameters: any reading of them may be refused; what is answered has to be right
				i, ok := s.realIdx("i")
				if !ok {
					continue
				}
				j, _ := s.realIdx("j")
				qs = append(qs, query{"repeated", fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d&leaf_index=%d&leaf_index=%s", i, size, j, url.QueryEscape(badValue(c, "v"))), func(a answer) string {
					if a.pan == "" && a.code >= 400 && a.code <= 599 {
						return ""
					}
					if msg := v.checkEntryProof(a, i, size); msg == "" {
						return ""
					}
					return v.checkEntryProof(a, j, size)
				}})
			}
			if isProper {
				proper = append(proper, qs[from:]...)
			}
		}
		for _, q := range qs {
			c.NoteQuiet("%s", q.path)
		}
		base := s3().openNow()
		if c.Chance("storm", 5) {
			c.Label("hundreds of requests")
			for k := 0; k < 6; k++ {
				s.ask(m, qs)
			}
		}
		s.ask(m, qs)
		// the two documents that are passed through
		for _, k := range []string{"ct/v1/get-sth", "ct/v1/get-roots"} {
			if faulty && s.st.readPlan(k).Close { // a cut that nothing tells from the end
				continue
			}
			want, _ := s.object(k)
			a := m.ask("/" + k)
			if faulty && a.pan == "" && a.code >= 400 && a.code <= 599 {
				continue
			}
			if a.pan != "" || a.code != 200 || string(a.body) != string(want) {
				c.Violate("%s is answered %d %.200s %s", k, a.code, a.body, a.pan)
			}
		}
		s.st.readPlan = nil
		if faulty && c.Chance("after", 60) {
			// the store works again, and so does the monitor
			faulty = false
			c.Label("asked again after the failures")
			for i := range proper {
				proper[i].desc += " (after the failures)"
			}
			s.ask(m, proper)
		}
		// other methods and paths
		meth := pick(c, "method", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "CONNECT", "TRACE", "FOO")
		p := pick(c, "path", "/ct/v1/get-sth", "/ct/v1/get-entries?start=0&end=0", "/ct/v1/get-roots", "/ct/v1/get-proof-by-hash")
		if code, body, pan := m.do(meth, p); pan != "" || code < 400 || code > 499 {
			c.Violate("%s %s is answered %d %.200s %s", meth, p, code, body, pan)
		}
		p = pick(c, "nopath", "/", "/ct", "/ct/v1", "/ct/v1/", "/ct/v1/get-sth/", "/ct/v1/add-chain", "/ct/v1/get-sthx", "/ct/v2/get-sth", "/tile/0/000", "/ct/v1/GET-STH", "/..%2fct/v1/get-sth")
		if a := m.ask(p); a.pan != "" || a.code < 300 || a.code > 499 {
			c.Violate("GET %s is answered %d %.200s %s", p, a.code, a.body, a.pan)
		}
		s3().noLeak(c, base)
	})
}
