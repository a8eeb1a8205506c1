package verifh

import (
	"bytes"
	"compress/gzip"
	"context"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---------------------------------------------------------------- object store model

// Store is one log's object store; several instances (one after the other) write to it.
type Store struct {
	ID   string
	Mask int
	mu   sync.Mutex
	objs map[string][]byte
	virt func(key string) ([]byte, bool) // lazily generated objects of a virtual base tree
	aud  *Auditor
	dir  string // filesystem backend: the directory; objs is unused

	// read side (monitor)
	readPlan func(key string) Action
	slow     func(key string) time.Duration
	reads    int64
	style    int // how it answers monitors: 0 plainly, 1 in chunks, 2 compressed if the client allows it, 3 with a redirect

	lastPut   int64
	nPuts     int64
	headPuts  int64
	onPut     func(inst *Inst, key string, data []byte) // called with mu held, before the object becomes visible
	onHeadPut []chan struct{}
}

// Op is a storage operation of an instance.
type Op struct {
	N     int    // ordinal within the instance
	Class string // data tile hashes dedupe issuer sth checkpoint roots other
	CN    int    // ordinal within instance, method and class
	Kind  string // GET PUT HEAD
	Key   string
}

func (o Op) String() string { return fmt.Sprintf("%s %s #%d", o.Kind, o.Key, o.N) }

// Action is what the store does with an operation.
type Action struct {
	Before, After time.Duration // delay before / after the operation takes effect
	Status        int           // refuse with this status (after the delay); 0 = serve
	Apply         bool          // with Status: apply a PUT nevertheless
	Cut           int           // serve only this many bytes of a GET (then drop the connection), if Cut > 0
	Drop          bool          // drop the connection without an answer
	Gate          chan struct{} // wait for this before proceeding
	Crash         bool          // the instance dies now; Apply tells whether this operation still happens
	ApplyIfDead   bool          // if the instance dies while this operation is in flight, does it happen?
	Body          []byte        // serve this instead (GET)
	Close         bool          // with Cut: the body's end is the end of the connection (no length given)
}

// Inst is the store's view of one writer instance (one bucket name).
type Inst struct {
	Name      string
	St        *Store
	mu        sync.Mutex
	dead      bool
	planCrash bool
	deadC     chan struct{}
	n         int
	cn        map[string]int
	plan      func(op Op) Action // may be nil
	ops       []Op
	infl      int64
	last      int64 // time of last activity
	conns     map[net.Conn]struct{}
	failed    int64 // operations refused by plan
}

func (i *Inst) SetPlan(p func(op Op) Action) { i.mu.Lock(); i.plan = p; i.mu.Unlock() }

func (i *Inst) Dead() bool { i.mu.Lock(); defer i.mu.Unlock(); return i.dead }

// Kill makes every further operation of the instance fail.
func (i *Inst) Kill() {
	i.mu.Lock()
	if !i.dead {
		i.dead = true
		close(i.deadC)
	}
	i.mu.Unlock()
}

// Quiesce waits until no operation of the (dead) instance is in flight.
func (i *Inst) Quiesce() {
	for k := 0; atomic.LoadInt64(&i.infl) > 0; k++ {
		time.Sleep(time.Millisecond)
		if k > 20000 {
			Infra("operations of dead instance %s stay in flight", i.Name)
		}
	}
}

func (i *Inst) closeConns() {
	i.mu.Lock()
	cs := i.conns
	i.conns = map[net.Conn]struct{}{}
	i.mu.Unlock()
	for c := range cs {
		c.Close()
	}
}

func classOf(key string) string {
	switch {
	case strings.HasPrefix(key, "tile/data/"):
		return "data"
	case strings.HasPrefix(key, "tile/"):
		return "tile"
	case strings.HasPrefix(key, "int/hashes/"):
		return "hashes"
	case strings.HasPrefix(key, "int/dedupe/"):
		return "dedupe"
	case strings.HasPrefix(key, "issuer/"):
		return "issuer"
	case key == "ct/v1/get-sth":
		return "sth"
	case key == "checkpoint":
		return "checkpoint"
	case key == "ct/v1/get-roots":
		return "roots"
	}
	return "other"
}

// get returns a visible object.
func (s *Store) get(key string) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.getLocked(key)
}

func (s *Store) getLocked(key string) ([]byte, bool) {
	if s.dir != "" {
		b, err := os.ReadFile(filepath.Join(s.dir, key))
		if err == nil {
			return b, true
		}
		return nil, false
	}
	if b, ok := s.objs[key]; ok {
		return b, true
	}
	if s.virt != nil {
		return s.virt(key)
	}
	return nil, false
}

// put stores an object written by the harness itself (no auditing).
func (s *Store) put(key string, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.dir != "" {
		p := filepath.Join(s.dir, key)
		must0(os.MkdirAll(filepath.Dir(p), 0o755))
		must0(os.WriteFile(p, b, 0o644))
		return
	}
	s.objs[key] = append([]byte{}, b...)
}

// write is a write by an instance.
func (s *Store) write(inst *Inst, key string, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.onPut != nil {
		s.onPut(inst, key, b)
	}
	old, had := s.getLocked(key)
	s.objs[key] = append([]byte{}, b...)
	atomic.AddInt64(&s.nPuts, 1)
	if s.aud != nil {
		s.aud.onPut(s, inst, key, b, old, had)
	}
	if key == "ct/v1/get-sth" || key == "checkpoint" {
		atomic.AddInt64(&s.headPuts, 1)
	}
}

func (s *Store) bumpActivity() { atomic.AddInt64(&s.reads, 1) }

// snapshot copies the written objects.
func (s *Store) snapshot() map[string][]byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	m := make(map[string][]byte, len(s.objs))
	for k, v := range s.objs {
		m[k] = v
	}
	return m
}

// ---------------------------------------------------------------- fake S3 server

type s3server struct {
	mu     sync.Mutex
	insts  map[string]*Inst
	stores map[string]*Store // for readers
	url    string
	open   int64 // open connections
	accept int64
	cmu    sync.Mutex
	conns  map[net.Conn]bool // open connections; true: in use by a request
	halved map[net.Conn]bool
}

type connKey struct{}

var s3 = sync.OnceValue(func() *s3server {
	s := &s3server{insts: map[string]*Inst{}, stores: map[string]*Store{}, conns: map[net.Conn]bool{}, halved: map[net.Conn]bool{}}
	l := must(net.Listen("tcp", "127.0.0.1:0"))
	s.url = "http://" + l.Addr().String()
	srv := &http.Server{Handler: s, ConnContext: func(ctx context.Context, c net.Conn) context.Context {
		return context.WithValue(ctx, connKey{}, c)
	}, ConnState: func(c net.Conn, st http.ConnState) {
		s.cmu.Lock()
		defer s.cmu.Unlock()
		switch st {
		case http.StateNew:
			atomic.AddInt64(&s.open, 1)
			atomic.AddInt64(&s.accept, 1)
			s.conns[c] = false
		case http.StateActive:
			s.conns[c] = true
		case http.StateIdle:
			s.conns[c] = false
		case http.StateClosed, http.StateHijacked:
			atomic.AddInt64(&s.open, -1)
			delete(s.conns, c)
			delete(s.halved, c)
		}
	}, ErrorLog: nil}
	go srv.Serve(l)
	return s
})

// halfClose ends the server's side of the connections without a request: a client with the connection in its pool closes it
// in turn; one that never closed the body of an answer does not.
func (s *s3server) halfClose() {
	s.cmu.Lock()
	defer s.cmu.Unlock()
	for c, busy := range s.conns {
		if t, ok := c.(*net.TCPConn); ok && !busy && !s.halved[c] {
			s.halved[c] = true
			t.CloseWrite()
		}
	}
}

func newStore(mask int) *Store {
	st := &Store{ID: fmt.Sprintf("s%d", atomic.AddInt64(&storeSeq, 1)), Mask: mask, objs: map[string][]byte{}}
	sv := s3()
	sv.mu.Lock()
	sv.stores[st.ID] = st
	sv.mu.Unlock()
	return st
}

func (s *Store) close() {
	sv := s3()
	sv.mu.Lock()
	delete(sv.stores, s.ID)
	for n, i := range sv.insts {
		if i.St == s {
			delete(sv.insts, n)
		}
	}
	sv.mu.Unlock()
}

// readURL is the public prefix for monitors.
func (s *Store) readURL() string { return s3().url + "/public/" + s.ID + "/" }

var storeSeq, instSeq int64

func (s *Store) newInst() *Inst {
	i := &Inst{Name: fmt.Sprintf("b%d", atomic.AddInt64(&instSeq, 1)), St: s, deadC: make(chan struct{}), cn: map[string]int{}, conns: map[net.Conn]struct{}{}}
	i.last = time.Now().UnixNano()
	sv := s3()
	sv.mu.Lock()
	sv.insts[i.Name] = i
	sv.mu.Unlock()
	return i
}

func xmlErr(w http.ResponseWriter, status int, code string) {
	b := fmt.Sprintf("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<Error><Code>%s</Code><Message>%s</Message></Error>", code, code)
	w.Header().Set("Content-Type", "application/xml")
	w.Header().Set("Content-Length", fmt.Sprint(len(b)))
	w.WriteHeader(status)
	io.WriteString(w, b)
}

func errCode(status int) string {
	switch status {
	case 403:
		return "AccessDenied"
	case 404:
		return "NoSuchKey"
	case 500:
		return "InternalError"
	case 503:
		return "SlowDown"
	case 400:
		return "InvalidRequest"
	}
	return "Error"
}

func (sv *s3server) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 2)
	if len(parts) < 2 {
		xmlErr(w, 400, "InvalidRequest")
		return
	}
	if parts[0] == "public" {
		sv.serveRead(w, r, parts[1])
		return
	}
	sv.mu.Lock()
	inst := sv.insts[parts[0]]
	sv.mu.Unlock()
	var body []byte
	if r.Method == "PUT" {
		var err error
		body, err = io.ReadAll(r.Body)
		if err != nil {
			xmlErr(w, 400, "IncompleteBody")
			return
		}
		if strings.Contains(r.Header.Get("Content-Encoding"), "aws-chunked") {
			body = decodeAwsChunked(body)
		}
	}
	if inst == nil {
		xmlErr(w, 403, "AccessDenied")
		return
	}
	inst.serve(w, r, parts[1], body)
}

func decodeAwsChunked(b []byte) []byte {
	var out []byte
	for {
		i := bytes.Index(b, []byte("\r\n"))
		if i < 0 {
			return out
		}
		var n int
		fmt.Sscanf(strings.SplitN(string(b[:i]), ";", 2)[0], "%x", &n)
		b = b[i+2:]
		if n == 0 || n+2 > len(b) {
			return out
		}
		out = append(out, b[:n]...)
		b = b[n+2:]
	}
}

func (i *Inst) serve(w http.ResponseWriter, r *http.Request, key string, body []byte) {
	atomic.AddInt64(&i.infl, 1)
	defer atomic.AddInt64(&i.infl, -1)
	atomic.StoreInt64(&i.last, time.Now().UnixNano())
	i.mu.Lock()
	if c, ok := r.Context().Value(connKey{}).(net.Conn); ok {
		i.conns[c] = struct{}{}
	}
	if i.dead {
		i.mu.Unlock()
		xmlErr(w, 403, "AccessDenied")
		return
	}
	cl := classOf(key)
	op := Op{N: i.n, Class: cl, CN: i.cn[r.Method+cl], Kind: r.Method, Key: key}
	i.n++
	i.cn[r.Method+cl]++
	if len(i.ops) < 5000 {
		i.ops = append(i.ops, op)
	}
	var a Action
	if i.plan != nil {
		a = i.plan(op)
	}
	i.mu.Unlock()

	if a.Crash {
		i.mu.Lock()
		i.planCrash = true
		i.mu.Unlock()
		if a.Apply && r.Method == "PUT" {
			i.St.write(i, key, body)
		}
		i.Kill()
		xmlErr(w, 403, "AccessDenied")
		return
	}
	died := false
	if a.Gate != nil {
		select {
		case <-a.Gate:
		case <-i.deadC:
			died = true
		}
	}
	if a.Before > 0 && !died {
		select {
		case <-time.After(a.Before):
		case <-i.deadC:
			died = true
		}
	}
	if died || i.Dead() {
		if a.ApplyIfDead && r.Method == "PUT" && a.Status == 0 {
			i.St.write(i, key, body)
		}
		xmlErr(w, 403, "AccessDenied")
		return
	}
	if a.Status != 0 || a.Drop {
		atomic.AddInt64(&i.failed, 1)
		if a.Apply && r.Method == "PUT" {
			i.St.write(i, key, body)
		}
		if a.Drop {
			dropConn(w)
			return
		}
		if r.Method == "HEAD" {
			w.WriteHeader(a.Status)
			return
		}
		xmlErr(w, a.Status, errCode(a.Status))
		return
	}
	switch r.Method {
	case "PUT":
		i.St.write(i, key, body)
		if a.After > 0 {
			select {
			case <-time.After(a.After):
			case <-i.deadC:
				xmlErr(w, 403, "AccessDenied")
				return
			}
		}
		w.Header().Set("ETag", "\"0\"")
		w.Header().Set("Content-Length", "0")
		w.WriteHeader(200)
	case "GET", "HEAD":
		b, ok := i.St.get(key)
		if a.Body != nil {
			b, ok = a.Body, true
		}
		if !ok {
			if r.Method == "HEAD" {
				w.WriteHeader(404)
				return
			}
			xmlErr(w, 404, "NoSuchKey")
			return
		}
		serveBody(w, r, b, a.Cut)
	default:
		// nothing in the log deletes or copies objects
		if i.St.aud != nil {
			i.St.aud.fail("append", "instance %s sent %s %s", i.Name, r.Method, key)
		}
		xmlErr(w, 405, "MethodNotAllowed")
	}
}

func serveBody(w http.ResponseWriter, r *http.Request, b []byte, cut int) {
	w.Header().Set("Content-Type", "application/octet-stream")
	w.Header().Set("Content-Length", fmt.Sprint(len(b)))
	w.WriteHeader(200)
	if r.Method == "HEAD" {
		return
	}
	if cut > 0 {
		if cut >= len(b) {
			cut = len(b) - 1
		}
		if cut > 0 {
			w.Write(b[:cut])
		}
		panic(http.ErrAbortHandler)
	}
	w.Write(b)
}

func dropConn(w http.ResponseWriter) {
	panic(http.ErrAbortHandler)
}

func (sv *s3server) serveRead(w http.ResponseWriter, r *http.Request, rest string) {
	parts := strings.SplitN(rest, "/", 2)
	sv.mu.Lock()
	st := sv.stores[parts[0]]
	sv.mu.Unlock()
	if st == nil || len(parts) < 2 || (r.Method != "GET" && r.Method != "HEAD") {
		w.WriteHeader(400)
		return
	}
	key := parts[1]
	if st.style == 3 && r.URL.RawQuery == "" {
		http.Redirect(w, r, r.URL.Path+"?r", []int{302, 307, 301, 308}[len(key)%4])
		return
	}
	atomic.AddInt64(&st.reads, 1)
	var a Action
	st.mu.Lock()
	rp := st.readPlan
	st.mu.Unlock()
	if rp != nil {
		a = rp(key)
	}
	if a.Before > 0 {
		time.Sleep(a.Before)
	} else if st.slow != nil {
		time.Sleep(st.slow(key))
	}
	if a.Drop {
		dropConn(w)
	}
	b, ok := st.get(key)
	if a.Status != 0 {
		if a.Status == 206 && a.Body != nil { // some part of the object
			w.Header().Set("Content-Range", fmt.Sprintf("bytes 0-%d/%d", len(a.Body)-1, len(b)))
			w.WriteHeader(206)
			w.Write(a.Body)
			return
		}
		w.WriteHeader(a.Status)
		io.WriteString(w, "failure injected by the harness\n")
		return
	}
	if a.Body != nil {
		b, ok = a.Body, true
	}
	if !ok {
		w.WriteHeader(404)
		io.WriteString(w, "not found\n")
		return
	}
	if a.Close && a.Cut > 0 {
		if a.Cut < len(b) {
			b = b[:a.Cut]
		}
		conn, buf, err := w.(http.Hijacker).Hijack()
		if err != nil {
			panic(http.ErrAbortHandler)
		}
		io.WriteString(buf, "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Type: application/octet-stream\r\n\r\n")
		buf.Write(b)
		buf.Flush()
		conn.Close()
		return
	}
	if a.Cut == 0 && r.Method == "GET" {
		switch {
		case st.style == 1:
			w.Header().Set("Content-Type", "application/octet-stream")
			for len(b) > 0 {
				n := min(len(b), 1+len(b)/3)
				w.Write(b[:n])
				w.(http.Flusher).Flush()
				b = b[n:]
			}
			return
		case st.style == 2 && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip"):
			w.Header().Set("Content-Type", "application/octet-stream")
			w.Header().Set("Content-Encoding", "gzip")
			z := gzip.NewWriter(w)
			z.Write(b)
			z.Close()
			return
		}
	}
	serveBody(w, r, b, a.Cut)
}

// drawStyle draws how a store answers monitors.
func (st *Store) drawStyle(c *Case) {
	st.style = c.weighted("store-style", 70, 10, 10, 10)
	if st.style != 0 {
		c.Label([]string{"", "store: chunked", "store: gzip", "store: redirects"}[st.style])
	}
}

// dirForm draws one of the ways to write a directory's name.
func (c *Case) dirForm(dir string) string {
	switch c.weighted("dir-form", 60, 20, 20) {
	case 1:
		return dir + "/"
	case 2:
		return filepath.Dir(dir) + "/./" + filepath.Base(dir)
	}
	return dir
}
