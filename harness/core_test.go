// Package verifh is the verification harness. It is compiled into the itko module through an overlay
// (see check.py); it uses only the exported API of the code under test.
package verifh

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/bits"
	"net/http"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- environment

var (
	envOut      = os.Getenv("VH_OUT")     // result file of this worker
	envTier     = os.Getenv("VH_TIER")    // quick | thorough
	envScratch  = os.Getenv("VH_SCRATCH") // scratch directory of this worker
	envJournal  = os.Getenv("VH_JOURNAL") // description of the running case (survives a crash of the process)
	envWorker   = atoiDef(os.Getenv("VH_WORKER"), 0)
	envWorkers  = atoiDef(os.Getenv("VH_WORKERS"), 1)
	envBudget   = atoiDef(os.Getenv("VH_BUDGET"), 60) // seconds of generation
	envScale    = atoiDef(os.Getenv("VH_SCALE"), 100) // percent of the nominal number of cases
	envReplay   = os.Getenv("VH_REPLAY") != ""
	startupTime = time.Now()
)

func atoiDef(s string, d int) int {
	if v, err := strconv.Atoi(s); err == nil {
		return v
	}
	return d
}

func envRace() bool { return os.Getenv("VH_RACE") != "" }

func thorough() bool { return envTier == "thorough" }

// ---------------------------------------------------------------- results

type result struct {
	ID        string         `json:"id"`
	Evals     int            `json:"evaluations"`
	Digests   []string       `json:"digests"`
	Labels    map[string]int `json:"labels"`
	Samples   []string       `json:"samples"`
	Rule      string         `json:"rule"`
	Violation *violation     `json:"violation,omitempty"`
	Infra     []string       `json:"infra,omitempty"`
	Skipped   int            `json:"skipped_budget"`
	Done      bool           `json:"done"`
	WallS     float64        `json:"wall_s"`
}

type violation struct {
	Msg  string `json:"msg"`
	Case string `json:"case"`
	N    int    `json:"n"`
}

type check struct {
	mu       sync.Mutex
	res      result
	digests  map[string]struct{}
	violated bool
	deadline time.Time
	heart    int64
}

var cur *check // one check per process

const maxDigests = 60000

func TestMain(m *testing.M) {
	if os.Getenv("VH_NODE") != "" {
		nodeMain()
		os.Exit(0)
	}
	flag.Parse()
	if tr, ok := http.DefaultTransport.(*http.Transport); ok {
		tr.MaxIdleConnsPerHost = 64 // the machine has only so many ports
	}
	if os.Getenv("VH_LOG") == "" {
		log.SetOutput(io.Discard)
		if f := os.Getenv("VH_LOGFILE"); f != "" {
			if lf, err := os.Create(f); err == nil {
				log.SetOutput(&capWriter{f: lf})
			}
		}
		if devnull, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = devnull // the code under test prints a lot
		}
	}
	os.Exit(m.Run())
}

// capWriter keeps the log of the code under test small.
type capWriter struct {
	f *os.File
	n int64
}

func (w *capWriter) Write(b []byte) (int, error) { // log.Logger serialises calls
	if w.n > 1<<20 {
		_ = w.f.Truncate(0)
		_, _ = w.f.Seek(0, 0)
		w.n = 0
	}
	w.n += int64(len(b))
	_, _ = w.f.Write(b)
	return len(b), nil
}

// Faults marks the case as one in which the code under test may legitimately end the process.
func (c *Case) Faults() { journalAppend("FAULTS") }

// Case is one generated case.
type Case struct {
	*rapid.T
	k      *check
	notes  []string
	labels map[string]int
	nt     bool

	amu   sync.Mutex
	async []string // oracle failures seen by other goroutines

	fatal func(string) // in place of T.Fatalf
}

// infraError is thrown for problems of the harness itself.
type infraError struct{ msg string }

// runCheck drives the property. n is the number of cases per worker.
func runCheck(t *testing.T, id, rule string, nQuick, nThorough int, prop func(c *Case)) {
	k := &check{digests: map[string]struct{}{}}
	cur = k
	k.res = result{ID: id, Labels: map[string]int{}, Rule: rule}
	k.deadline = startupTime.Add(time.Duration(envBudget) * time.Second)
	n := nQuick
	if thorough() {
		n = nThorough
	}
	n = n * envScale / 100
	if n < 1 {
		n = 1
	}
	_ = flag.Set("rapid.checks", strconv.Itoa(n))
	go heartbeat(k)
	body := func(rt *rapid.T) {
		k.mu.Lock()
		stop := !k.violated && !envReplay && time.Now().After(k.deadline)
		if stop {
			k.res.Skipped++
		}
		infra := len(k.res.Infra) > 0
		k.mu.Unlock()
		if stop || infra {
			return
		}
		c := &Case{T: rt, k: k, labels: map[string]int{}}
		journal("EXPECT-ALIVE\n")
		defer func() {
			r := recover()
			if ie, ok := r.(infraError); ok {
				k.mu.Lock()
				k.res.Infra = append(k.res.Infra, ie.msg)
				k.mu.Unlock()
				return
			}
			c.finish()
			if r != nil {
				if !strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.") {
					k.mu.Lock()
					k.res.Infra = append(k.res.Infra, fmt.Sprintf("harness panic: %v\n%s", r, trimStack(string(debug.Stack()))))
					k.mu.Unlock()
				}
				panic(r)
			}
		}()
		prop(c)
		c.Sync()
	}
	if fuzzF != nil {
		for i := 0; i < 8; i++ {
			fuzzF.Add(prf(fmt.Sprint("seed", i), 1<<(9+i)))
		}
		fuzzF.Fuzz(rapid.MakeFuzz(body))
		return
	}
	t.Run("p", func(t *testing.T) {
		defer func() {
			lateMu.Lock()
			ws := lateWaits
			lateMu.Unlock()
			for _, w := range ws {
				w()
			}
			k.mu.Lock()
			k.res.Done = true
			k.mu.Unlock()
			k.write()
		}()
		rapid.Check(t, body)
	})
}

var (
	lateMu    sync.Mutex
	lateWaits []func()
)

// Late registers something to wait for at the very end of the run.
func Late(f func()) { lateMu.Lock(); lateWaits = append(lateWaits, f); lateMu.Unlock() }

func (k *check) write() {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.res.Digests = k.res.Digests[:0]
	for d := range k.digests {
		k.res.Digests = append(k.res.Digests, d)
	}
	sort.Strings(k.res.Digests)
	k.res.WallS = time.Since(startupTime).Seconds()
	b, _ := json.Marshal(k.res)
	if envOut != "" {
		if err := os.WriteFile(envOut+".tmp", b, 0o644); err == nil {
			_ = os.Rename(envOut+".tmp", envOut)
		}
	} else {
		fmt.Fprintf(os.Stderr, "evals=%d nt=%d labels=%v skipped=%d infra=%v\n", k.res.Evals, len(k.res.Digests), k.res.Labels, k.res.Skipped, k.res.Infra)
		if k.res.Violation != nil {
			fmt.Fprintf(os.Stderr, "VIOLATION %s\n%s\n", k.res.Violation.Msg, k.res.Violation.Case)
		}
	}
}

// heartbeat measures whether this process gets scheduled at all.
var heartLate int64 // total nanoseconds of scheduling delay seen
func heartbeat(k *check) {
	for {
		t := time.Now()
		time.Sleep(50 * time.Millisecond)
		if d := time.Since(t) - 50*time.Millisecond; d > 200*time.Millisecond {
			atomic.AddInt64(&heartLate, int64(d))
		}
	}
}

func (c *Case) finish() {
	k := c.k
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.violated {
		return // shrinking and replays are not counted
	}
	if fuzzF != nil && time.Since(fuzzWritten) > time.Second {
		fuzzWritten = time.Now()
		defer func() { go k.write() }()
	}
	k.res.Evals++
	for l, n := range c.labels {
		k.res.Labels[l] += n
	}
	if c.nt && len(k.digests) < maxDigests {
		h := sha256.Sum256([]byte(strings.Join(c.notes, "\n")))
		d := hex.EncodeToString(h[:6])
		if _, ok := k.digests[d]; !ok {
			k.digests[d] = struct{}{}
			if len(k.res.Samples) < 3 {
				s := strings.Join(c.notes, "; ")
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				k.res.Samples = append(k.res.Samples, s)
			}
		}
	}
}

// Note records a step of the case (part of its identity and of the replay text).
func (c *Case) Note(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	c.notes = append(c.notes, s)
	journalAppend(s)
}

// NoteQuiet records a step without journaling (hot loops).
func (c *Case) NoteQuiet(format string, a ...any) {
	c.notes = append(c.notes, fmt.Sprintf(format, a...))
}

func (c *Case) Label(l string)         { c.labels[l]++ }
func (c *Case) LabelN(l string, n int) { c.labels[l] += n }
func (c *Case) LabelIf(b bool, l string) {
	if b {
		c.labels[l]++
	}
}
func (c *Case) NonTrivial() { c.nt = true }

// Violate reports an oracle failure; it does not return. Only from the case's own goroutine.
func (c *Case) Violate(format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	c.k.record(msg, strings.Join(c.notes, "\n"))
	if c.fatal != nil {
		c.fatal(msg)
	}
	c.T.Fatalf("%s", msg)
}

// Async reports an oracle failure from another goroutine.
func (c *Case) Async(format string, a ...any) {
	c.amu.Lock()
	c.async = append(c.async, fmt.Sprintf(format, a...))
	c.amu.Unlock()
}

// Sync raises asynchronous failures.
func (c *Case) Sync() {
	c.amu.Lock()
	a := c.async
	c.amu.Unlock()
	if len(a) > 0 {
		c.Violate("%s", strings.Join(a, "\n"))
	}
}

func (k *check) record(msg, cs string) {
	k.mu.Lock()
	n := 1
	if k.res.Violation != nil {
		n = k.res.Violation.N + 1
	}
	if len(cs) > 20000 {
		cs = cs[:20000] + "\n..."
	}
	k.res.Violation = &violation{Msg: msg, Case: cs, N: n}
	k.violated = true
	k.mu.Unlock()
	k.write()
}

// Infra aborts the run: something that is not the code under test failed.
func Infra(format string, a ...any) { panic(infraError{fmt.Sprintf(format, a...)}) }

func must[T any](v T, err error) T {
	if err != nil {
		Infra("harness: %v\n%s", err, debug.Stack())
	}
	return v
}

func must0(err error) {
	if err != nil {
		Infra("harness: %v\n%s", err, debug.Stack())
	}
}

// Guard calls code under test and turns a panic into an oracle failure.
func (c *Case) Guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(infraError); ok {
				panic(r)
			}
			if underTest(string(debug.Stack())) {
				c.Violate("%s: panic in the code under test: %v\n%s", what, r, trimStack(string(debug.Stack())))
			}
			panic(r)
		}
	}()
	f()
}

// Panics returns a description if f panics inside the code under test.
func Panics(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if _, ok := r.(infraError); ok || !underTest(st) {
				panic(r)
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
		}
	}()
	f()
	return ""
}

func underTest(stack string) bool {
	for _, p := range []string{"itko.dev/internal/ctsubmit", "itko.dev/internal/ctmonitor", "itko.dev/internal/ctsetup", "itko.dev/internal/sunlight", "itko.dev/internal/rfc6979"} {
		if strings.Contains(stack, p) {
			return true
		}
	}
	return false
}

func trimStack(s string) string {
	if len(s) > 3000 {
		return s[:3000]
	}
	return s
}

// ---------------------------------------------------------------- journal

var (
	jmu   sync.Mutex
	jfile *os.File
)

func journal(s string) {
	if envJournal == "" {
		return
	}
	jmu.Lock()
	defer jmu.Unlock()
	if jfile == nil {
		jfile, _ = os.OpenFile(envJournal, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	}
	if jfile != nil {
		_ = jfile.Truncate(0)
		_, _ = jfile.Seek(0, 0)
		_, _ = jfile.WriteString(s)
	}
}

func journalAppend(s string) {
	if envJournal == "" {
		return
	}
	jmu.Lock()
	defer jmu.Unlock()
	if jfile != nil {
		_, _ = jfile.WriteString(s + "\n")
	}
}

// ---------------------------------------------------------------- generator helpers

func (c *Case) Int(name string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(c.T, name) }
func (c *Case) U64(name string, lo, hi uint64) uint64 {
	return rapid.Uint64Range(lo, hi).Draw(c.T, name)
}
func (c *Case) Bool(name string) bool { return rapid.Bool().Draw(c.T, name) }

// tenBits is uniform over 0..1023 (rapid's own integer generators prefer small values); shrinks to 0.
var tenBits = rapid.Custom(func(t *rapid.T) int {
	v := 0
	for i := 0; i < 10; i++ {
		v <<= 1
		if bitGen.Draw(t, "b") {
			v |= 1
		}
	}
	return v
})
var bitGen = rapid.Bool()

// Uni is (nearly) uniform over lo..hi for ranges up to 1024.
func (c *Case) Uni(name string, lo, hi int) int {
	return lo + tenBits.Draw(c.T, name)*(hi-lo+1)/1024
}

// Wide is (nearly) uniform over lo..hi for any range.
func (c *Case) Wide(name string, lo, hi uint64) uint64 {
	var v uint64
	for i := 0; i < 6; i++ {
		v = v<<10 | uint64(tenBits.Draw(c.T, name))
	}
	h, _ := bits.Mul64(v<<4|v>>56, hi-lo+1)
	if hi-lo == 1<<64-1 {
		h = v<<4 | v>>56
	}
	return lo + h
}

// Chance is true with probability pct/100; shrinks to false.
func (c *Case) Chance(name string, pct int) bool { return c.Uni(name, 0, 99) >= 100-pct }
func (c *Case) Bytes(name string, lo, hi int) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(c.T, name)
}

// Seeded returns n pseudo-random bytes derived from one drawn number (cheap to generate and shrink).
func (c *Case) Seeded(name string, n int) []byte {
	return prf(fmt.Sprintf("%s-%d", name, rapid.Uint64().Draw(c.T, name)), n)
}

// prf expands a label into n bytes.
func prf(label string, n int) []byte {
	out := make([]byte, 0, n+32)
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d", label, i)))
		out = append(out, h[:]...)
	}
	return out[:n]
}

func pick[T any](c *Case, name string, xs ...T) T {
	return xs[c.Uni(name, 0, len(xs)-1)]
}

// weighted picks an index with the given weights; shrinks to the first.
func (c *Case) weighted(name string, w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	v := c.Uni(name, 0, tot-1)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return 0
}

func goroutineDump() string {
	b := make([]byte, 1<<20)
	return string(b[:runtime.Stack(b, true)])
}
