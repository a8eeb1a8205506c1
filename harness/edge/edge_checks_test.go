package verifh

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/url"
	"os"
	"slices"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/fastly/compute-sdk-go/fsthttp"
	"github.com/fastly/compute-sdk-go/fsttest"
	"github.com/fastly/compute-sdk-go/verifhost"
	"itko.dev/internal/ctmonitor"
)

// ---------------------------------------------------------------- C22

const edgeLimit, edgeBudget, edgeMask = 75, 10, 5

// edgeLog is one log behind the edge.
type edgeLog struct {
	s             *SLog
	host, backend string
	cc            map[string][]string // cache-control per class of object
	fetched       []edgeFetch
}

type edgeFetch struct {
	key   string
	cur   int // published version at that time
	until time.Time
}

// edge is the Compute service with its host.
type edge struct {
	mu       sync.Mutex
	logs     []*edgeLog
	now      time.Time
	requests int      // to backends
	keys     []string // asked for
	bad      string
	fault    func(l *edgeLog, key string) *edgeFault
	noStore  bool
}

type edgeFault struct {
	status int
	err    bool
	cut    int  // bytes before the body breaks
	silent bool // the body just ends
}

type brokenBody struct {
	r io.Reader
}

func (b brokenBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF {
		err = errors.New("the backend closed the connection")
	}
	return n, err
}

// ttlUpper is the longest time for which an object with these headers may be kept (as documented in the code: 12 hours without max-age).
func ttlUpper(h []string) time.Duration {
	ttl := 12 * time.Hour
	if len(h) > 0 {
		for _, d := range strings.Split(h[0], ",") {
			d = strings.TrimSpace(d)
			if strings.HasPrefix(d, "max-age=") {
				var n int
				if _, err := fmt.Sscanf(d[8:]+"\n", "%d\n", &n); err == nil {
					return time.Duration(n) * time.Second
				}
				return ttl
			}
		}
	}
	return ttl
}

func newEdge(logs ...*edgeLog) *edge {
	e := &edge{logs: logs, now: time.Unix(1700000000, 0)}
	verifhost.ClearCache()
	verifhost.Set(func() time.Time { e.mu.Lock(); defer e.mu.Unlock(); return e.now }, func(store string) map[string]string {
		if store != "hostmap" || e.noStore {
			return nil
		}
		m := map[string]string{}
		for _, l := range logs {
			m[l.host] = l.backend
		}
		return m
	}, e.send)
	return e
}

func (e *edge) send(backend, method, uri string, header map[string][]string) (*verifhost.Response, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.requests++
	var l *edgeLog
	for _, x := range e.logs {
		if x.backend == backend {
			l = x
		}
	}
	if l == nil {
		return nil, verifhost.ErrNoBackend
	}
	u, err := url.Parse(uri)
	if err != nil || method != "GET" || u.Host != backend || !strings.HasPrefix(u.Path, "/") {
		// a backend that serves one site only would not mind, but it is not what was configured
		e.bad = fmt.Sprintf("backend %q is asked %s %s", backend, method, uri)
		return &verifhost.Response{Status: 421, Header: map[string][]string{}, Body: strings.NewReader("")}, nil
	}
	key := u.Path[1:]
	e.keys = append(e.keys, key)
	var f *edgeFault
	if e.fault != nil {
		f = e.fault(l, key)
	}
	if f != nil && f.err {
		return nil, errors.New("backend unreachable")
	}
	h := map[string][]string{"Content-Type": {"application/octet-stream"}}
	cc := l.cc[classOf(key)]
	if cc != nil {
		h["Cache-Control"] = cc
	}
	if f != nil && f.status != 0 {
		body := "<Error><Code>SlowDown</Code></Error>"
		if b, ok := l.s.object(key); ok && f.silent {
			body = string(b)
		}
		return &verifhost.Response{Status: f.status, Header: h, Body: strings.NewReader(body)}, nil
	}
	b, ok := l.s.object(key)
	if !ok {
		return &verifhost.Response{Status: 404, Header: h, Body: strings.NewReader("<Error><Code>NoSuchKey</Code></Error>")}, nil
	}
	l.fetched = append(l.fetched, edgeFetch{key, l.s.cur, e.now.Add(ttlUpper(cc))})
	if f != nil && f.cut < len(b) {
		b = b[:f.cut]
		if f.silent {
			return &verifhost.Response{Status: 200, Header: h, Body: bytes.NewReader(b)}, nil
		}
		return &verifhost.Response{Status: 200, Header: h, Body: brokenBody{bytes.NewReader(b)}}, nil
	}
	return &verifhost.Response{Status: 200, Header: h, Body: bytes.NewReader(b)}, nil
}

// do performs a request at the edge.
func (e *edge) do(method, host, pathAndQuery string) (a answer, ok bool) {
	req, err := fsthttp.NewRequest(method, "https://"+host+pathAndQuery, io.NopCloser(strings.NewReader("")))
	if err != nil { // never reaches the service
		return answer{}, false
	}
	rec := fsttest.NewRecorder()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	a.pan = Panics(func() { ctmonitor.FastlyServe(ctx, rec, req) })
	a.code, a.body = rec.Code, rec.Body.Bytes()
	return a, true
}

// views are the published versions an answer may be based on.
func (e *edge) views(l *edgeLog, keys []string) (vs []*View) {
	e.mu.Lock()
	defer e.mu.Unlock()
	ok := map[int]bool{l.s.cur: true}
	for _, f := range l.fetched {
		if f.until.After(e.now) && (keys == nil || slices.Contains(keys, f.key)) {
			ok[f.cur] = true
		}
	}
	for k := range l.s.sizes {
		if ok[k] {
			v := l.s.view()
			v.size = l.s.sizes[k]
			vs = append(vs, v)
		}
	}
	return
}

// edgeQuery is a request and what has to come back for a log of a given published size.
type edgeQuery struct {
	path  string
	judge func(v *View, a answer, used int, asked map[string]bool) string
	keys  []string // the objects whose age matters (nil: all)
}

// edgeEntries judges get-entries.
func edgeEntries(start, end uint64) edgeQuery {
	return edgeQuery{path: qEntries(start, end), judge: func(v *View, a answer, used int, asked map[string]bool) string {
		if start > end || start >= v.size {
			return a.want4xx()
		}
		n := v.entriesCount(start, end, edgeLimit)
		if m := v.entriesPrefix(a, start, 0, n); m != "" {
			return m
		}
		var j struct {
			Entries []json.RawMessage `json:"entries"`
		}
		if m := a.decode(&j); m != "" {
			return m
		}
		if used > edgeBudget {
			return fmt.Sprintf("one get-entries took %d backend requests, the limit is %d", used, edgeBudget)
		}
		if k := len(j.Entries); k < n && used >= 0 {
			need := map[Hash]bool{}
			for _, fp := range v.ent(start + uint64(k)).Fps {
				if !asked[fmt.Sprintf("issuer/%x", fp)] {
					need[fp] = true
				}
			}
			if used < edgeBudget && used+len(need) <= edgeBudget {
				return fmt.Sprintf("only %d of %d entries, though only %d of %d backend requests were used", k, n, used, edgeBudget)
			}
			if used >= edgeBudget && len(v.ent(start+uint64(k)).Fps) == 0 {
				return fmt.Sprintf("only %d of %d entries, though the next one needs no issuer", k, n)
			}
		}
		return ""
	}}
}

func plainQuery(path string, ok func(v *View) bool, check func(v *View, a answer) string) edgeQuery {
	return edgeQuery{path: path, judge: func(v *View, a answer, used int, asked map[string]bool) string {
		if ok(v) {
			return check(v, a)
		}
		return a.wantError()
	}}
}

// genEdgeQuery draws a request about the current published tree.
func (s *SLog) genEdgeQuery() edgeQuery {
	c := s.c
	v := s.view()
	i, ok := s.realIdx("i")
	if !ok {
		z := uint64(c.Uni("z", 0, 2))
		switch c.Uni("on-empty", 0, 2) {
		case 0:
			return edgeEntries(z, z+uint64(c.Uni("n", 0, 2)))
		case 1:
			return plainQuery(qCons(0, z), func(v *View) bool { return z <= v.size }, func(v *View, a answer) string { return v.checkCons(a, 0, z) })
		default:
			return plainQuery(qEntryProof(0, z), func(v *View) bool { return false }, nil)
		}
	}
	switch c.weighted("query", 45, 15, 15, 15, 10) {
	case 0:
		hi := i
		for _, w := range s.wins {
			if i >= w[0] && i < w[1] && min(w[1], v.size) > hi {
				hi = min(w[1], v.size)
			}
		}
		end := i
		switch c.weighted("len", 10, 20, 40, 30) {
		case 1:
			end = i + uint64(c.Uni("n", 1, 20))
		case 2:
			end = i + uint64(c.Uni("n", 60, 90))
		case 3:
			end = pick(c, "far", i+300, i+1023, i+5000, v.size-1, v.size, v.size+1, 1<<62, 1<<63-1)
		}
		if end < i {
			end = i
		}
		if last := i + uint64(v.entriesCount(i, end, edgeLimit)) - 1; last >= hi {
			end = hi - 1
		}
		return edgeEntries(i, end)
	case 1:
		z := s.drawSize("z", i+1, v.size)
		return plainQuery(qProof(leafHash(s.ents[i].leafInput()), z), func(v *View) bool { return z <= v.size }, func(v *View, a answer) string { return v.checkProof(a, i, z) })
	case 2:
		b := s.drawSize("b", 0, v.size)
		a := s.drawSize("a", 0, b)
		return plainQuery(qCons(a, b), func(v *View) bool { return b <= v.size }, func(v *View, x answer) string { return v.checkCons(x, a, b) })
	case 3:
		z := s.drawSize("z", i+1, v.size)
		return plainQuery(qEntryProof(i, z), func(v *View) bool { return z <= v.size }, func(v *View, a answer) string { return v.checkEntryProof(a, i, z) })
	default:
		never := func(v *View) bool { return false }
		past := v.size + uint64(c.Uni("past", 0, 2))
		switch c.Uni("refused", 0, 7) {
		case 0:
			return edgeEntries(past, past+uint64(c.Uni("n", 0, 200)))
		case 1:
			return edgeEntries(i+1+uint64(c.Uni("n", 0, 100)), i)
		case 2:
			return plainQuery(qEntryProof(i, past+1), never, nil)
		case 3:
			return plainQuery(qCons(i, past+1), never, nil)
		case 4:
			h := leafHash(s.ents[i].leafInput())
			h[16+c.Uni("at", 0, 15)] ^= 1
			return plainQuery(qProof(h, v.size), never, nil)
		case 5:
			if len(s.stale) > 0 {
				return plainQuery(qProof(s.stale[c.Uni("stale", 0, len(s.stale)-1)].h, v.size), never, nil)
			}
			return plainQuery(qEntryProof(i, i), never, nil)
		case 6:
			e := pick(c, "endpoint", "get-entries?start=%s&end=5", "get-entries?start=0&end=%s", "get-entry-and-proof?leaf_index=%s&tree_size=1", "get-entry-and-proof?leaf_index=0&tree_size=%s", "get-sth-consistency?first=%s&second=1", "get-sth-consistency?first=0&second=%s", "get-proof-by-hash?hash=AAAA&tree_size=%s")
			path := "/ct/v1/" + fmt.Sprintf(e, url.QueryEscape(badValue(c, "value")))
			return edgeQuery{path: path, judge: func(v *View, a answer, used int, asked map[string]bool) string { return a.want4xx() }}
		default:
			return plainQuery(qEntryProof(i, i-i/2), never, nil)
		}
	}
}

// genFutureQuery asks for the proof of an entry of the next published version.
func (s *SLog) genFutureQuery() (early, late edgeQuery, ok bool) {
	if s.cur+1 >= len(s.sizes) {
		return
	}
	from, to := s.sizes[s.cur], s.sizes[s.cur+1]
	i := from + uint64(s.c.Uni("future", 0, 1023))*(to-from)/1024
	if s.ents[i] == nil {
		i = to - 1
	}
	if s.ents[i] == nil {
		return
	}
	h := leafHash(s.ents[i].leafInput())
	z := to
	if s.c.Chance("future-z", 30) {
		z = s.drawSize("z", i+1, to)
	}
	ask := func(z uint64) edgeQuery {
		q := plainQuery(qProof(h, z), func(v *View) bool { return i < z && z <= v.size }, func(v *View, a answer) string { return v.checkProof(a, i, z) })
		q.keys = []string{"ct/v1/get-sth", "int/hashes/" + refBucketPath(h[:], s.mask)}
		return q
	}
	late = ask(z)
	early = late
	if s.c.Chance("early-z", 80) {
		early = ask(s.drawSize("early-z", 0, from))
	}
	return early, late, true
}

func TestC22(t *testing.T) {
	rule := "A case is one or two static logs (sizes up to 2^40, history, leftovers, sometimes long chains of many issuers) behind one edge service whose host (config store, backends, cache with a clock) is the harness; cache-control headers drawn per object class, local or edge caching; requests alone or four at once, repeated, with published growth, expiry of the clock and dropped cache objects in between, with and without failing backends. Non-trivial: requests with an answer were made on a log with entries."
	runCheck(t, "C22", rule, 110, 2500, func(c *Case) {
		n := 1 + c.weighted("logs", 60, 40)
		var logs []*edgeLog
		ccs := []string{"", "max-age=60", "public, max-age=3600", "no-store", "max-age=abc, max-age=5", "s-maxage=9, max-age=10", "immutable,max-age=31536000", "max-age=0", "public,max-age=120 , must-revalidate", " max-age=7"}
		for k := 0; k < n; k++ {
			issuers := 5
			if c.Chance("many-issuers", 50) {
				issuers = 60
			}
			l := &edgeLog{s: genSLogIssuers(c, false, 3, edgeMask, issuers), host: fmt.Sprintf("log%d.example.com", k), backend: fmt.Sprintf("tiles%d.example.net", k), cc: map[string][]string{}}
			defer l.s.close()
			if c.Chance("odd-host", 10) {
				l.host += ":8443"
			}
			same := pick(c, "cc", ccs...)
			for _, cl := range []string{"sth", "data", "tile", "hashes", "issuer"} {
				x := same
				if c.Chance("own-cc", 30) {
					x = pick(c, "cc-"+cl, ccs...)
				}
				if cl == "sth" && c.Chance("short-sth", 40) {
					x = pick(c, "cc-short", "max-age=0", "no-cache, max-age=0", "max-age=5")
				}
				if x != "" {
					l.cc[cl] = []string{x}
				}
			}
			logs = append(logs, l)
			c.Note("log %d: host %s, cache-control %v, %d issuers", k, l.host, l.cc, issuers)
		}
		e := newEdge(logs...)
		local := c.Chance("local", 15)
		os.Setenv("FASTLY_HOSTNAME", map[bool]string{true: "localhost", false: "cache-xyz1234"}[local])
		os.Setenv("FASTLY_SERVICE_VERSION", fmt.Sprint(c.Uni("version", 1, 3)))
		c.LabelIf(local, "local")
		// start with an earlier version of the log
		for _, l := range logs {
			l.s.publish(max(0, len(l.s.sizes)-1-c.weighted("behind", 50, 30, 20)))
		}
		var dirty bool // silently cut-off objects may be in the cache
		ask := func(l *edgeLog, q edgeQuery, single bool, faulty bool) string {
			vs := e.views(l, q.keys)
			e.mu.Lock()
			before, kb := e.requests, len(e.keys)
			e.mu.Unlock()
			a, ok := e.do("GET", l.host, q.path)
			if !ok {
				return ""
			}
			e.mu.Lock()
			used := e.requests - before
			asked := map[string]bool{}
			for _, k := range e.keys[kb:] {
				asked[k] = true
			}
			e.mu.Unlock()
			if !single || faulty {
				used = -1
			}
			if (faulty || dirty) && a.pan == "" && a.code >= 400 && a.code <= 599 {
				return ""
			}
			var msg string
			for _, v := range vs {
				m := q.judge(v, a, used, asked)
				if m == "" {
					return ""
				}
				msg += fmt.Sprintf("\n(for size %d) %s", v.size, m)
			}
			return msg
		}
		rounds := c.Uni("rounds", 2, 7)
		for r := 0; r < rounds; r++ {
			l := logs[c.Uni("log", 0, n-1)]
			if c.Chance("too-early", 35) {
				// entries are asked for before and after they are published
				var early, late []edgeQuery
				for k := c.Uni("future-n", 1, 4); k > 0; k-- {
					if q, q2, ok := l.s.genFutureQuery(); ok {
						early, late = append(early, q), append(late, q2)
					}
				}
				if len(early) > 0 {
					c.Label("asked too early")
					for _, q := range early {
						c.NoteQuiet("%s (not yet published)", q.path)
						if m := ask(l, q, true, false); m != "" {
							c.Violate("published size %d, edge, %s (not yet published): %s", l.s.size(), q.path, m)
						}
					}
					l.s.publish(l.s.cur + 1)
					d := pick(c, "future-wait", 0, 3, 6, 11, 31, 61, 121)
					e.mu.Lock()
					e.now = e.now.Add(time.Duration(d) * time.Second)
					e.mu.Unlock()
					c.Note("%s grows to %d, and %d s pass", l.host, l.s.size(), d)
					for _, q := range late {
						if m := ask(l, q, true, false); m != "" {
							c.Violate("published size %d, edge, %s (asked for %d s ago, when it was not yet published): %s", l.s.size(), q.path, d, m)
						}
					}
				}
			}
			faulty := c.Chance("faulty", 25)
			if faulty {
				kind := c.weighted("kind", 40, 20, 20, 20)
				pct := pick(c, "pct", 10, 40, 100)
				salt := c.Int("salt", 0, 1<<30)
				e.fault = func(l *edgeLog, key string) *edgeFault {
					p := prf(fmt.Sprintf("%d %s", salt, key), 5)
					if int(p[0])*100/256 >= pct {
						return nil
					}
					switch kind {
					case 0:
						return &edgeFault{status: []int{404, 500, 503, 429, 403, 301, 206, 204}[p[1]%8], silent: p[2]%2 == 0}
					case 1:
						return &edgeFault{err: true}
					case 2:
						return &edgeFault{cut: int(p[3]) * int(p[4]) / 16}
					default:
						return &edgeFault{cut: int(p[3]) * int(p[4]) / 16, silent: true}
					}
				}
				if kind == 3 {
					dirty = true
				}
				c.Note("backends fail: kind %d, %d%%", kind, pct)
				c.Label(fmt.Sprintf("failing backends, kind %d", kind))
			}
			var qs []edgeQuery
			for k := c.Uni("queries", 1, 8); k > 0; k-- {
				qs = append(qs, l.s.genEdgeQuery())
			}
			c.Note("%s size %d: requests", l.host, l.s.size())
			for _, q := range qs {
				c.NoteQuiet("%s", q.path)
			}
			if l.s.size() > 0 {
				c.NonTrivial()
			}
			again := 1 + c.weighted("again", 60, 25, 15)
			for k := 0; k < again; k++ {
				if c.Chance("at-once", 20) {
					c.Label("at once")
					msgs := make([]string, len(qs))
					var wg sync.WaitGroup
					for i := range qs {
						wg.Add(1)
						go func() {
							defer wg.Done()
							defer recoverInfra()
							msgs[i] = ask(l, qs[i], false, faulty)
						}()
					}
					wg.Wait()
					for i := range msgs {
						if msgs[i] != "" {
							c.Violate("published size %d, edge, %s (several at once): %s", l.s.size(), qs[i].path, msgs[i])
						}
					}
					continue
				}
				for _, q := range qs {
					if m := ask(l, q, true, faulty); m != "" {
						c.Violate("published size %d, edge, %s (request %d of the same): %s", l.s.size(), q.path, k+1, m)
					}
				}
			}
			if e.bad != "" {
				c.Violate("%s", e.bad)
			}
			e.fault = nil
			switch c.weighted("then", 25, 25, 20, 15, 15) {
			case 1: // the log grows
				if l.s.cur+1 < len(l.s.sizes) {
					l.s.publish(l.s.cur + 1)
					c.Label("grew")
					c.Note("%s grows to %d", l.host, l.s.size())
				}
			case 2:
				d := pick(c, "wait", 6, 61, 3601, 43201, 31536001)
				e.mu.Lock()
				e.now = e.now.Add(time.Duration(d) * time.Second)
				e.mu.Unlock()
				if d > 31536000 {
					dirty = false
				}
				c.Note("%d s pass", d)
				c.Label("time passes")
			case 3:
				verifhost.ClearCache()
				dirty = false
				c.Note("the cache is emptied")
			case 4:
				pct, salt := c.Uni("drop", 10, 90), c.Int("drop-salt", 0, 1<<30)
				verifhost.DropCached(func(k string) bool { return int(prf(fmt.Sprint(salt, k), 1)[0])*100/256 < pct })
				c.Note("%d%% of the cache is dropped", pct)
			}
		}
		// methods, hosts, paths
		l := logs[0]
		path := pick(c, "path", qEntries(0, 0), qCons(0, 0), "/ct/v1/get-sth", "/", "/ct/v1/add-chain")
		m := pick(c, "method", "POST", "PUT", "PATCH", "DELETE")
		if a, ok := e.do(m, pick(c, "mhost", l.host, "unknown.example.com"), path); ok && (a.pan != "" || a.code != 405) {
			c.Violate("%s %s is answered %d %.200s %s", m, path, a.code, a.body, a.pan)
		}
		h := pick(c, "unknown host", "unknown.example.com", "xlog0.example.com", l.backend, "log0.example.com.", "log9.example.com")
		if a, ok := e.do("GET", h, path); ok && (a.pan != "" || a.code != 404) {
			c.Violate("GET https://%s%s (unknown host) is answered %d %.200s %s", h, path, a.code, a.body, a.pan)
		}
		p := pick(c, "unknown path", "/", "/ct/v1/get-entriesx?start=0&end=0", "/ct/v1/", "/ct/v1/add-chain", "/ct/v1/add-pre-chain", "/get-entries?start=0&end=0", "/ct/v1/get-entries/", "//ct/v1/get-entries", "/tile/0/000", "/CT/V1/GET-ENTRIES", "/int/dedupe/00")
		if a, ok := e.do("GET", l.host, p); ok && (a.pan != "" || a.code != 404) {
			c.Violate("GET %s (unknown path) is answered %d %.200s %s", p, a.code, a.body, a.pan)
		}
		if c.Chance("no config", 20) {
			e.noStore = true
			if a, ok := e.do("GET", l.host, qEntries(0, 0)); ok && (a.pan != "" || a.code < 400 || a.code > 599) {
				c.Violate("without its config store the edge answers %d %.200s %s", a.code, a.body, a.pan)
			}
		}
	})
}
