package verifh

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"
)

// fakeConsul implements the part of the Consul HTTP API that locks and KV reads need.
type fakeConsul struct {
	mu       sync.Mutex
	cond     chan struct{} // closed and replaced on every change
	idx      uint64
	kv       map[string]*kvEnt
	sessions map[string]*sess
	addr     string
	hold     bool // never answer blocking queries (in-process instances must not see their lock go away)
	sseq     int
	srv      *http.Server
	released map[string]int // lock key -> number of releases by the holder
	lockHist []lockEvent
	trace    func(ev lockEvent)
	expired  int

	// for instances in processes of their own, each with an address of its own
	sub     func(client, key string, val []byte, latest bool) ([]byte, bool) // what a client reads; latest: it asked for a consistent read
	gate    func(client, key string) bool                                    // may this client acquire now (lock delay)?
	clients map[string]*consulClient
}

// consulClient is the address of one instance.
type consulClient struct {
	id    string
	addr  string
	l     net.Listener
	srv   *http.Server
	cut   bool // partitioned
	conns map[net.Conn]struct{}
	sess  []string
}

type clientKey struct{}

// client makes an address for one instance.
func (f *fakeConsul) client(id string) *consulClient {
	cl := &consulClient{id: id, l: must(net.Listen("tcp", "127.0.0.1:0")), conns: map[net.Conn]struct{}{}}
	cl.addr = cl.l.Addr().String()
	cl.srv = &http.Server{Handler: f, ConnContext: func(ctx context.Context, c net.Conn) context.Context {
		return context.WithValue(ctx, clientKey{}, cl)
	}, ConnState: func(c net.Conn, st http.ConnState) {
		f.mu.Lock()
		defer f.mu.Unlock()
		switch st {
		case http.StateNew:
			cl.conns[c] = struct{}{}
			if cl.cut {
				c.Close()
			}
		case http.StateClosed:
			delete(cl.conns, c)
		}
	}}
	f.mu.Lock()
	f.clients[id] = cl
	f.mu.Unlock()
	go cl.srv.Serve(cl.l)
	return cl
}

// partition cuts an instance off; its sessions end (as if their TTL had expired) with end.
func (f *fakeConsul) partition(cl *consulClient, end bool) {
	f.mu.Lock()
	cl.cut = true
	for c := range cl.conns {
		c.Close()
	}
	f.mu.Unlock()
	if end {
		f.endSessions(cl)
	}
}

// endSessions invalidates all sessions of an instance.
func (f *fakeConsul) endSessions(cl *consulClient) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, s := range cl.sess {
		f.endSession(s)
	}
}

// expire ends sessions that are not renewed, until stop is closed. Time in which this process was not scheduled does not count.
func (f *fakeConsul) expire(stop chan struct{}) {
	t := time.NewTicker(200 * time.Millisecond)
	defer t.Stop()
	prev := time.Now()
	for {
		select {
		case <-stop:
			return
		case <-t.C:
		}
		now := time.Now()
		lag := now.Sub(prev) - 200*time.Millisecond
		prev = now
		f.mu.Lock()
		for id, s := range f.sessions {
			if lag > 100*time.Millisecond {
				s.last = s.last.Add(4 * lag)
			}
			if s.ttl > 0 && now.Sub(s.last) > s.ttl+s.ttl/5 {
				f.expired++
				f.endSession(id)
			}
		}
		f.mu.Unlock()
	}
}

// closeAll ends the server of a case.
func (f *fakeConsul) closeAll() {
	f.mu.Lock()
	cls := f.clients
	f.mu.Unlock()
	for _, cl := range cls {
		cl.srv.Close()
	}
	f.srv.Close()
}

type lockEvent struct {
	Key, Session, What string // acquire, release, invalidate
	At                 time.Time
}

type kvEnt struct {
	key         string
	val         []byte
	flags       uint64
	session     string
	create, mod uint64
	lockIdx     uint64
}

type sess struct {
	id    string
	ttl   time.Duration
	alive bool
	last  time.Time // created or renewed
}

func newFakeConsul(hold bool) *fakeConsul {
	return newFakeConsulOn(hold, must(net.Listen("tcp", "127.0.0.1:0")))
}

func newFakeConsulOn(hold bool, l net.Listener) *fakeConsul {
	f := &fakeConsul{cond: make(chan struct{}), idx: 10, kv: map[string]*kvEnt{}, sessions: map[string]*sess{}, hold: hold, released: map[string]int{}, clients: map[string]*consulClient{}}
	f.addr = l.Addr().String()
	f.srv = &http.Server{Handler: f}
	go f.srv.Serve(l)
	return f
}

// consul is the process-wide instance for in-process logs.
var consul = sync.OnceValue(func() *fakeConsul { return newFakeConsul(true) })

func (f *fakeConsul) bump() {
	f.idx++
	close(f.cond)
	f.cond = make(chan struct{})
}

func (f *fakeConsul) putKV(key string, val []byte) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.idx++
	e := f.kv[key]
	if e == nil {
		e = &kvEnt{key: key, create: f.idx}
		f.kv[key] = e
	}
	e.val = append([]byte{}, val...)
	e.mod = f.idx
	f.bump()
}

func (f *fakeConsul) getKV(key string) ([]byte, bool) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if e := f.kv[key]; e != nil {
		return e.val, true
	}
	return nil, false
}

// holder returns the session that holds the lock.
func (f *fakeConsul) holder(key string) string {
	f.mu.Lock()
	defer f.mu.Unlock()
	if e := f.kv[key]; e != nil {
		return e.session
	}
	return ""
}

func (f *fakeConsul) releases(key string) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.released[key]
}

// invalidate ends a session (TTL expiry, operator, partition): its locks are released.
func (f *fakeConsul) invalidate(id string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.endSession(id)
}

func (f *fakeConsul) endSession(id string) {
	if s := f.sessions[id]; s != nil {
		delete(f.sessions, id)
	}
	for _, e := range f.kv {
		if e.session == id && id != "" {
			e.session = ""
			f.idx++
			e.mod = f.idx
			f.event(lockEvent{e.key, id, "invalidate", time.Now()})
		}
	}
	f.bump()
}

func (f *fakeConsul) event(ev lockEvent) {
	f.lockHist = append(f.lockHist, ev)
	if f.trace != nil {
		f.trace(ev)
	}
}

func (f *fakeConsul) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	cl, _ := r.Context().Value(clientKey{}).(*consulClient)
	if cl == nil {
		cl = &consulClient{}
	}
	p := r.URL.Path
	q := r.URL.Query()
	switch {
	case p == "/v1/session/create":
		var req struct{ TTL string }
		_ = json.Unmarshal(body, &req)
		ttl, _ := time.ParseDuration(req.TTL)
		f.mu.Lock()
		f.sseq++
		id := fmt.Sprintf("00000000-0000-0000-0000-%012d", f.sseq)
		f.sessions[id] = &sess{id: id, ttl: ttl, alive: true, last: time.Now()}
		cl.sess = append(cl.sess, id)
		f.mu.Unlock()
		writeJSON(w, map[string]string{"ID": id})
	case strings.HasPrefix(p, "/v1/session/renew/"):
		id := strings.TrimPrefix(p, "/v1/session/renew/")
		f.mu.Lock()
		s := f.sessions[id]
		if s != nil {
			s.last = time.Now()
		}
		f.mu.Unlock()
		if s == nil {
			http.Error(w, "session not found", 404)
			return
		}
		writeJSON(w, []map[string]any{{"ID": id, "TTL": s.ttl.String(), "Behavior": "release"}})
	case strings.HasPrefix(p, "/v1/session/destroy/"):
		f.invalidate(strings.TrimPrefix(p, "/v1/session/destroy/"))
		io.WriteString(w, "true")
	case strings.HasPrefix(p, "/v1/kv/"):
		f.serveKV(w, r, cl, strings.TrimPrefix(p, "/v1/kv/"), q, body)
	default:
		http.Error(w, "not implemented", 404)
	}
}

func writeJSON(w http.ResponseWriter, v any) {
	w.Header().Set("Content-Type", "application/json")
	b, _ := json.Marshal(v)
	w.Write(b)
}

func (f *fakeConsul) serveKV(w http.ResponseWriter, r *http.Request, cl *consulClient, key string, q map[string][]string, body []byte) {
	get := func(n string) string {
		if v, ok := q[n]; ok && len(v) > 0 {
			return v[0]
		}
		return ""
	}
	switch r.Method {
	case "GET":
		wait := 5 * time.Minute
		if s := get("wait"); s != "" {
			if d, err := time.ParseDuration(s); err == nil {
				wait = d
			}
		}
		minIdx, _ := strconv.ParseUint(get("index"), 10, 64)
		deadline := time.After(wait)
		for {
			f.mu.Lock()
			e := f.kv[key]
			var mod uint64 = 1
			if e != nil {
				mod = e.mod
			} else {
				mod = f.idx
			}
			ch := f.cond
			if f.hold && strings.HasSuffix(key, "/lock") && e != nil && e.session == "" {
				// a released lock: the monitor goroutine may have been too slow to look before; it must not end this process
				f.mu.Unlock()
				<-r.Context().Done()
				return
			}
			if minIdx == 0 || (mod > minIdx && !f.hold) {
				w.Header().Set("X-Consul-Index", fmt.Sprint(mod))
				w.Header().Set("X-Consul-KnownLeader", "true")
				w.Header().Set("X-Consul-LastContact", "0")
				if e == nil {
					f.mu.Unlock()
					w.WriteHeader(404)
					return
				}
				val := e.val
				if f.sub != nil {
					_, latest := q["consistent"] // other reads may be answered with what was there before
					v, ok := f.sub(cl.id, key, val, latest)
					if !ok {
						f.mu.Unlock()
						w.WriteHeader(404)
						return
					}
					val = v
				}
				m := map[string]any{"LockIndex": e.lockIdx, "Key": e.key, "Flags": e.flags, "Value": base64.StdEncoding.EncodeToString(val), "CreateIndex": e.create, "ModifyIndex": e.mod}
				if e.session != "" {
					m["Session"] = e.session
				}
				f.mu.Unlock()
				writeJSON(w, []any{m})
				return
			}
			hold := f.hold
			f.mu.Unlock()
			if hold {
				<-r.Context().Done()
				return
			}
			select {
			case <-ch:
			case <-deadline:
				minIdx = 0
			case <-r.Context().Done():
				return
			}
		}
	case "PUT":
		if get("acquire") != "" && f.gate != nil && !f.gate(cl.id, key) {
			io.WriteString(w, "false")
			return
		}
		f.mu.Lock()
		defer f.mu.Unlock()
		flags, _ := strconv.ParseUint(get("flags"), 10, 64)
		e := f.kv[key]
		if s := get("acquire"); s != "" {
			if f.sessions[s] == nil {
				http.Error(w, "invalid session", 500)
				return
			}
			if e != nil && e.session != "" && e.session != s {
				io.WriteString(w, "false")
				return
			}
			f.idx++
			if e == nil {
				e = &kvEnt{key: key, create: f.idx}
				f.kv[key] = e
			}
			if e.session != s {
				e.lockIdx++
				f.event(lockEvent{key, s, "acquire", time.Now()})
			}
			e.val, e.flags, e.session, e.mod = body, flags, s, f.idx
			f.bump()
			io.WriteString(w, "true")
			return
		}
		if s := get("release"); s != "" {
			if e == nil || e.session != s {
				io.WriteString(w, "false")
				return
			}
			f.idx++
			e.session, e.mod = "", f.idx
			f.released[key]++
			f.event(lockEvent{key, s, "release", time.Now()})
			f.bump()
			io.WriteString(w, "true")
			return
		}
		f.idx++
		if e == nil {
			e = &kvEnt{key: key, create: f.idx}
			f.kv[key] = e
		}
		e.val, e.flags, e.mod = body, flags, f.idx
		f.bump()
		io.WriteString(w, "true")
	case "DELETE":
		f.mu.Lock()
		delete(f.kv, key)
		f.bump()
		f.mu.Unlock()
		io.WriteString(w, "true")
	}
}
