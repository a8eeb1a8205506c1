package verifh

import (
	"bytes"
	"context"
	"crypto/sha256"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	s3types "github.com/aws/aws-sdk-go-v2/service/s3/types"
	"itko.dev/internal/ctsubmit"
)

// ---------------------------------------------------------------- C18: the index files through the bucket's own interface

// memStorage is a store in memory with failures.
type memStorage struct {
	mu       sync.Mutex
	objs     map[string][]byte
	reads    map[string]int
	sets     []string
	failGet  map[string]int // remaining failures per key
	failSet  map[string]int
	notFound int
}

var errInjected = errors.New("failure injected by the harness")

func (m *memStorage) missing(key string) error {
	if m.notFound == 0 {
		return &s3types.NoSuchKey{}
	}
	return &fs.PathError{Op: "open", Path: key, Err: syscall.ENOENT}
}

func (m *memStorage) Get(ctx context.Context, key string) ([]byte, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.failGet[key] > 0 {
		m.failGet[key]--
		return nil, errInjected
	}
	b, ok := m.objs[key]
	if !ok {
		return nil, m.missing(key)
	}
	return bytes.Clone(b), nil
}

func (m *memStorage) Set(ctx context.Context, key string, data []byte) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.failSet[key] > 0 {
		m.failSet[key]--
		return errInjected
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	m.objs[key] = bytes.Clone(data)
	m.sets = append(m.sets, key)
	return nil
}

func (m *memStorage) Exists(ctx context.Context, key string) (bool, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	_, ok := m.objs[key]
	return ok, nil
}

func sortedRecs[T any](rs []T, enc func(T) []byte) [][]byte {
	var out [][]byte
	for _, r := range rs {
		out = append(out, enc(r))
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
	return out
}

// subset reports whether the sorted multiset a is contained in the sorted multiset b.
func subset(a, b [][]byte) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && bytes.Compare(b[j], x) < 0 {
			j++
		}
		if j == len(b) || !bytes.Equal(b[j], x) {
			return false
		}
		j++
	}
	return true
}

// idxKind is one of the two kinds of index files.
type idxKind struct {
	name, prefix string
	rec          int
	put          func(b *ctsubmit.Bucket, recs [][]byte, mask int) error
	get          func(b *ctsubmit.Bucket, h [16]byte, mask int) ([]byte, error)
}

var idxKinds = []idxKind{
	{"hash index", "int/hashes/", 21, func(b *ctsubmit.Bucket, recs [][]byte, mask int) error {
		var us []ctsubmit.RecordHashUpload
		for _, r := range recs {
			us = append(us, must(ctsubmit.BytesToRecord(r)))
		}
		return b.PutRecordHashes(context.Background(), us, mask)
	}, func(b *ctsubmit.Bucket, h [16]byte, mask int) ([]byte, error) {
		r, err := b.GetRecordHash(context.Background(), h, mask)
		if err != nil {
			return nil, err
		}
		return r.ToBytes(), nil
	}},
	{"dedupe file", "int/dedupe/", 29, func(b *ctsubmit.Bucket, recs [][]byte, mask int) error {
		var us []ctsubmit.DedupeUpload
		for _, r := range recs {
			us = append(us, must(ctsubmit.BytesToDedupe(r)))
		}
		return b.PutDedupeEntries(context.Background(), us, mask)
	}, func(b *ctsubmit.Bucket, h [16]byte, mask int) ([]byte, error) {
		r, err := b.GetDedupeEntry(context.Background(), h, mask)
		if err != nil {
			return nil, err
		}
		return r.ToBytes(), nil
	}},
}

func TestC18Bucket(t *testing.T) {
	runCheck(t, "C18", "at least two updates of an index were made and compared with a model, looked-up hashes included", 260, 9000, func(c *Case) {
		kind := idxKinds[c.Uni("kind", 0, 1)]
		mask := c.Uni("mask", 1, 6)
		if c.Chance("any-mask", 30) {
			mask = c.Uni("mask2", 1, 32)
		}
		m := &memStorage{objs: map[string][]byte{}, failGet: map[string]int{}, failSet: map[string]int{}, notFound: c.Uni("notfound", 0, 1)}
		b := &ctsubmit.Bucket{S: m}
		if c.Chance("fs", 20) && mask <= 4 {
			dir := filepath.Join(scratchDir(), fmt.Sprintf("idx%d", atomic.AddInt64(&storeSeq, 1)))
			must0(os.MkdirAll(dir, 0o755))
			defer os.RemoveAll(dir)
			f := ctsubmit.NewFsStorage(dir)
			b = &ctsubmit.Bucket{S: &fsTap{f: &f, m: m, dir: dir}}
			c.Label("filesystem")
		}
		model := map[string][][]byte{} // file -> sorted records
		var known [][16]byte
		clusters := c.Uni("clusters", 1, 3)
		genHash := func() [16]byte {
			var h [16]byte
			copy(h[:], prf(fmt.Sprintf("cluster%d", c.Uni("cluster", 0, clusters-1)), 16))
			switch c.weighted("hash-k", 50, 20, 15, 15) {
			case 0: // same start, other end
				k := c.Uni("from", 0, 8)
				copy(h[k:], prf(fmt.Sprint("h", c.Int("h", 0, 1<<30)), 16-k))
			case 1: // near miss of a known one
				if len(known) > 0 {
					h = known[c.Uni("of", 0, len(known)-1)]
					h[15] ^= 1 << c.Uni("bit", 0, 7)
				}
			case 2: // extremes
				for i := (mask + 1) / 2; i < 16; i++ {
					h[i] = byte(-c.Uni("ff", 0, 1))
				}
			case 3: // known
				if len(known) > 0 {
					h = known[c.Uni("of", 0, len(known)-1)]
				}
			}
			return h
		}
		c.Note("%s with %d digits, %d clusters", kind.name, mask, clusters)
		if c.Chance("crowd", 8) { // files that already hold thousands of records
			n := c.Uni("crowd-n", 1, 10) * c.Uni("crowd-m", 1, 600)
			if c.Chance("crowd-huge", 8) {
				n = 65536 + c.Uni("crowd-h", 0, 3000) - 500
			}
			for k := 0; k < clusters; k++ {
				path := refBucketPath(prf(fmt.Sprintf("cluster%d", k), 16), mask)
				key := kind.prefix + path
				if model[key] != nil {
					continue
				}
				for _, r := range crowdRecs("bucket-crowd", path, n, 1<<40) {
					x := encHashRec(r)
					if kind.rec == 29 {
						x = append(x, u64(1500000000000+r.Idx%1000)...)
					}
					model[key] = append(model[key], x)
				}
				model[key] = sortedRecs(model[key], func(x []byte) []byte { return x })
				must0(b.S.Set(context.Background(), key, bytes.Join(model[key], nil)))
			}
			c.Label("crowded file")
		}
		n := c.Uni("updates", 1, 8)
		for u := 0; u < n; u++ {
			var recs [][]byte
			batch := c.Uni("batch", 1, 12)
			if c.Chance("big", 8) {
				batch = 60 + c.Uni("batch2", 0, 300)
			}
			if c.Chance("empty", 3) {
				batch = 0
			}
			add := map[string][][]byte{}
			for i := 0; i < batch; i++ {
				h := genHash()
				r := encHashRec(hashRec{h, c.idx40("idx")})
				if kind.rec == 29 {
					r = append(r, u64(c.size63("ts"))...)
				}
				recs = append(recs, r)
				k := kind.prefix + refBucketPath(h[:], mask)
				add[k] = append(add[k], r)
			}
			var keys []string
			for k := range add {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			fail := ""
			if len(keys) > 0 {
				switch c.weighted("fault", 80, 12, 8) {
				case 1:
					fail = keys[c.Uni("fk", 0, min(1023, len(keys)-1))]
					m.failGet[fail] = 1
				case 2:
					fail = keys[c.Uni("fk", 0, min(1023, len(keys)-1))]
					m.failSet[fail] = 1
				}
			}
			var err error
			c.Guard("update of the "+kind.name, func() { err = kind.put(b, recs, mask) })
			if fail != "" {
				c.Label("update with failure")
				used := m.failGet[fail] == 0 && m.failSet[fail] == 0
				m.failGet, m.failSet = map[string]int{}, map[string]int{}
				if used && err == nil {
					// a retry may have saved it; then everything has to be there
					c.Label("failure absorbed")
				}
			} else if err != nil {
				c.Violate("update %d of the %s fails without any failure of the store: %v", u, kind.name, err)
			}
			c.NoteQuiet("update of %d records in %d files, failing %q: %v", batch, len(keys), fail, err)
			for k, b := range m.objs {
				if model[k] == nil && add[k] == nil {
					c.Violate("an update wrote %s, where none of its records belongs", k)
				}
				if len(b)%kind.rec != 0 {
					c.Violate("after update %d, %s has %d bytes, not a whole number of records", u, k, len(b))
				}
			}
			for k := range model {
				if add[k] == nil {
					add[k] = nil // untouched files are judged too
				}
			}
			for k, a := range add {
				b := m.objs[k]
				var got [][]byte
				for i := 0; i+kind.rec <= len(b); i += kind.rec {
					if i > 0 && bytes.Compare(b[i-kind.rec:i-kind.rec+16], b[i:i+16]) > 0 {
						c.Violate("after update %d, record %d of %s is out of order", u, i/kind.rec, k)
					}
					got = append(got, b[i:i+kind.rec])
				}
				id := func(x []byte) []byte { return x }
				gs, all := sortedRecs(got, id), sortedRecs(append(append([][]byte{}, model[k]...), a...), id)
				if !subset(model[k], gs) {
					c.Violate("update %d (failing %q: %v) dropped or altered earlier records of %s: %d records before, %d after", u, fail, err, k, len(model[k]), len(gs))
				}
				if !subset(gs, all) {
					c.Violate("update %d put records into %s that were not given", u, k)
				}
				if err == nil && len(gs) != len(all) {
					c.Violate("update %d succeeded, but %s has %d records instead of %d", u, k, len(gs), len(all))
				}
				if len(gs) > 0 {
					model[k] = gs
				}
			}
			for _, r := range recs {
				if len(known) < 400 {
					known = append(known, [16]byte(r[:16]))
				}
			}
			// look some up
			for q := c.Uni("lookups", 0, 6); q > 0; q-- {
				h := genHash()
				if len(known) > 0 && c.Bool("lookup-known") {
					h = known[c.Uni("of", 0, len(known)-1)]
				}
				k := kind.prefix + refBucketPath(h[:], mask)
				if c.Chance("lookup-fails", 10) {
					m.failGet[k] = 1
				}
				var want [][]byte
				for _, r := range model[k] {
					if [16]byte(r[:16]) == h {
						want = append(want, r)
					}
				}
				broken := m.failGet[k] > 0
				var got []byte
				var err error
				c.Guard("lookup in the "+kind.name, func() { got, err = kind.get(b, h, mask) })
				m.failGet = map[string]int{}
				if err != nil {
					if len(want) > 0 && !broken {
						c.Violate("recorded hash %x is not found in the %s: %v", h, kind.name, err)
					}
					c.Label("lookup: not found")
					continue
				}
				ok := false
				for _, w := range want {
					ok = ok || bytes.Equal(w, got)
				}
				if !ok {
					c.Violate("looking up %x in the %s gives record %x; recorded are %x", h, kind.name, got, want)
				}
				c.Label("lookup: found")
			}
			if u > 0 {
				c.NonTrivial()
			}
		}
	})
}

// fsTap keeps a copy of what the filesystem store holds, for judging.
type fsTap struct {
	f   ctsubmit.Storage
	m   *memStorage
	dir string
}

func (f *fsTap) Get(ctx context.Context, key string) ([]byte, error) {
	f.m.mu.Lock()
	if f.m.failGet[key] > 0 {
		f.m.failGet[key]--
		f.m.mu.Unlock()
		return nil, errInjected
	}
	f.m.mu.Unlock()
	return f.f.Get(ctx, key)
}

func (f *fsTap) Set(ctx context.Context, key string, data []byte) error {
	f.m.mu.Lock()
	if f.m.failSet[key] > 0 {
		f.m.failSet[key]--
		f.m.mu.Unlock()
		return errInjected
	}
	f.m.mu.Unlock()
	err := f.f.Set(ctx, key, data)
	if b, e := os.ReadFile(filepath.Join(f.dir, key)); e == nil {
		f.m.mu.Lock()
		f.m.objs[key] = b
		f.m.mu.Unlock()
	}
	return err
}

func (f *fsTap) Exists(ctx context.Context, key string) (bool, error) { return f.f.Exists(ctx, key) }

// ---------------------------------------------------------------- C19: storage backends

func (c *Case) genKey(name string) string {
	switch c.weighted(name+"-k", 25, 15, 15, 10, 20, 15) {
	case 0:
		return refTilePath(c.Uni(name+"-l", 0, 4)-1, uint64(c.Uni(name+"-n", 0, 3))*uint64(pick(c, name+"-m", 1, 255, 1000, 1234567)), pick(c, name+"-w", 256, 256, 1, 17, 255))
	case 1:
		return "int/hashes/" + refBucketPath(prf(fmt.Sprint("k", c.Uni(name+"-b", 0, 9)), 32), 5)
	case 2:
		return "int/dedupe/" + refBucketPath(prf(fmt.Sprint("k", c.Uni(name+"-b", 0, 9)), 32), 5)
	case 3:
		return fmt.Sprintf("issuer/%x", sha256.Sum256([]byte{byte(c.Uni(name+"-i", 0, 4))}))
	case 4:
		return pick(c, name, "ct/v1/get-sth", "checkpoint", "ct/v1/get-roots")
	default:
		return pick(c, name, "a", "dir/a", "dir/b", "dir/sub/a", "dir.x/a", "d e/f g", "x+y/100%", "\u00e9/\u4e16", "q/?a=b&c", "UP/Case", "up/case", "deep/1/2/3/4/5/6/7/8/9")
	}
}

func (c *Case) genValue(name string) []byte {
	n := 0
	switch c.weighted(name+"-k", 50, 15, 10, 20, 5) {
	case 0:
		n = c.Uni(name, 1, 200)
	case 1:
		n = 0
	case 2:
		n = c.Uni(name, 100, 1023) * 1000
	case 3:
		n = c.Uni(name, 0, 1023) * 16
	case 4: // data tiles and index files can be that large
		n = c.Uni(name, 1, 9)*1000000 + 7
	}
	p := prf(fmt.Sprint(name, c.Int(name+"-salt", 0, 1<<30)), min(n, 512))
	if n <= 512 {
		return p
	}
	return bytes.Repeat(p[:509], n/509+1)[:n]
}

func valDesc(b []byte) string {
	if b == nil {
		return "no value"
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("%d bytes %x", len(b), h[:4])
}

func isMissing(err error) bool {
	var nf *s3types.NoSuchKey
	return errors.As(err, &nf) || errors.Is(err, os.ErrNotExist)
}

// judgeRead checks a read of a key without any failure; want is nil for a missing key.
func judgeRead(st ctsubmit.Storage, key string, want []byte) string {
	b, err := st.Get(context.Background(), key)
	switch {
	case want != nil && err != nil:
		return fmt.Sprintf("Get(%q): %v; written was %s", key, err, valDesc(want))
	case want != nil && !bytes.Equal(b, want):
		return fmt.Sprintf("Get(%q) gives %s, written was %s", key, valDesc(b), valDesc(want))
	case want == nil && err == nil:
		return fmt.Sprintf("Get(%q) gives %s, although the key is missing", key, valDesc(b))
	case want == nil && !isMissing(err):
		return fmt.Sprintf("Get(%q) of a missing key does not report it as missing: %v", key, err)
	}
	ex, err := st.Exists(context.Background(), key)
	if err != nil || ex != (want != nil) {
		return fmt.Sprintf("Exists(%q) = %v, %v; the key exists: %v", key, ex, err, want != nil)
	}
	return ""
}

var umask = func() int {
	m := syscall.Umask(0o022)
	syscall.Umask(m)
	return m
}()

// readableByAll tells what keeps other users (a web server, a monitor) from reading an object, unless it is the umask.
func readableByAll(dir, key string) string {
	for p, want := filepath.Join(dir, key), os.FileMode(0o444); p != dir; p, want = filepath.Dir(p), 0o555 {
		fi, err := os.Stat(p)
		if err != nil {
			return err.Error()
		}
		if w := want &^ os.FileMode(umask); fi.Mode().Perm()&w != w {
			return fmt.Sprintf("%s has mode %v, so other users can't read the object", p, fi.Mode())
		}
	}
	return ""
}

func TestC19(t *testing.T) {
	runCheck(t, "C19", "a history of writes and reads, some of them failing, concurrent or interrupted, was compared with a map", 150, 4500, func(c *Case) {
		dir := filepath.Join(scratchDir(), fmt.Sprintf("kv%d", atomic.AddInt64(&storeSeq, 1)))
		must0(os.MkdirAll(dir, 0o755))
		defer os.RemoveAll(dir)
		fst := ctsubmit.NewFsStorage(dir)
		var st ctsubmit.Storage = &fst
		mon := newMon(dir, "", 2)
		model := map[string][]byte{}
		readMon := func(key string, want []byte) {
			if key != "ct/v1/get-sth" && key != "ct/v1/get-roots" {
				return
			}
			code, body, pm := mon.get("/" + key)
			if pm != "" {
				c.Violate("monitor: %s", pm)
			}
			if want == nil && code < 400 || want != nil && (code != 200 || !bytes.Equal(body, want)) {
				c.Violate("the monitor's read of %q gives %d, %s; written was %s", key, code, valDesc(body), valDesc(want))
			}
		}
		c.Note("filesystem store")
		for i := c.Uni("ops", 2, 16); i > 0; i-- {
			key := c.genKey("key")
			switch c.weighted("op", 45, 20, 8, 10, 9, 8) {
			case 0: // write and read back
				v := c.genValue("v")
				var err error
				in := bytes.Clone(v)
				c.Guard("Set", func() { err = st.Set(context.Background(), key, v) })
				c.NoteQuiet("set %q to %s (before: %s): %v", key, valDesc(v), valDesc(model[key]), err)
				if err != nil {
					c.Violate("Set(%q): %v", key, err)
				}
				if m := readableByAll(dir, key); m != "" {
					c.Violate("after Set(%q): %s", key, m)
				}
				if !bytes.Equal(in, v) {
					c.Violate("Set(%q) changes the bytes it was given", key)
				}
				if model[key] != nil {
					c.Label("overwrite")
				}
				model[key] = append([]byte{}, v...)
				if m := judgeRead(st, key, model[key]); m != "" {
					c.Violate("%s", m)
				}
				readMon(key, model[key])
				c.NonTrivial()
			case 1:
				if m := judgeRead(st, key, model[key]); m != "" {
					c.Violate("%s", m)
				}
				readMon(key, model[key])
			case 2: // a disk that takes only so many bytes
				v := append(c.genValue("v"), make([]byte, 300000)...)
				lim := uint64(c.Uni("limit", 100, 299) * 1000)
				var old syscall.Rlimit
				must0(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
				must0(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: lim, Max: old.Max}))
				var err error
				pm := Panics(func() { err = st.Set(context.Background(), key, v) })
				must0(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
				c.NoteQuiet("set %q to %s on a full disk: %v", key, valDesc(v), err)
				c.Label("full disk")
				if pm != "" {
					c.Violate("Set on a full disk: %s", pm)
				}
				if err == nil {
					c.Violate("Set(%q) of %d bytes succeeds although only %d can be written", key, len(v), lim)
				}
				if m := judgeRead(st, key, model[key]); m != "" {
					c.Violate("after a failed write: %s", m)
				}
				readMon(key, model[key])
			case 3: // readers and writers at once
				c.Label("concurrent")
				vals := [][]byte{model[key]}
				for k := c.Uni("writers", 1, 3); k > 0; k-- {
					vals = append(vals, append(c.genValue("v"), prf("big", 10)...))
				}
				var wg, rg sync.WaitGroup
				stop := make(chan struct{})
				for r := 0; r < 2; r++ {
					rg.Add(1)
					go func() {
						defer rg.Done()
						for {
							select {
							case <-stop:
								return
							default:
							}
							b, err := st.Get(context.Background(), key)
							ok := false
							for _, v := range vals {
								ok = ok || v != nil && err == nil && bytes.Equal(b, v) || v == nil && err != nil && isMissing(err)
							}
							if !ok {
								c.Async("a read of %q during writes gives %s, %v; the values are %s ...", key, valDesc(b), err, valDesc(vals[len(vals)-1]))
								return
							}
							if r == 1 {
								if key == "ct/v1/get-sth" || key == "ct/v1/get-roots" {
									code, b, _ := mon.get("/" + key)
									ok := false
									for _, v := range vals {
										ok = ok || v != nil && code == 200 && bytes.Equal(b, v) || v == nil && code >= 400
									}
									if !ok {
										c.Async("the monitor's read of %q during writes gives %d, %s", key, code, valDesc(b))
										return
									}
								}
								ex, err := st.Exists(context.Background(), key)
								if err != nil || !ex && vals[0] != nil {
									c.Async("Exists(%q) during overwrites gives %v, %v", key, ex, err)
									return
								}
							}
						}
					}()
				}
				for _, v := range vals[1:] {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < 15; k++ {
							if err := st.Set(context.Background(), key, v); err != nil {
								c.Async("Set(%q) beside others: %v", key, err)
							}
						}
					}()
				}
				wg.Wait()
				close(stop)
				rg.Wait()
				c.NoteQuiet("%d writers of %q at once", len(vals)-1, key)
				c.Sync()
				b, err := st.Get(context.Background(), key)
				ok := false
				for _, v := range vals[1:] {
					ok = ok || err == nil && bytes.Equal(b, v)
				}
				if !ok {
					c.Violate("after concurrent writes of %q, it reads as %s, %v, which is none of the values", key, valDesc(b), err)
				}
				model[key] = append([]byte{}, b...)
			case 4: // several new keys in a new directory at once
				d := fmt.Sprintf("new%d/%d/", c.Uni("dir", 0, 1000), i)
				var wg sync.WaitGroup
				n := c.Uni("n", 2, 8)
				start := make(chan struct{})
				for k := 0; k < n; k++ {
					v := prf(fmt.Sprint(d, k), 40)
					model[d+fmt.Sprint(k, "/x")] = v
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-start
						if err := st.Set(context.Background(), d+fmt.Sprint(k, "/x"), v); err != nil {
							c.Async("Set(%q) in a new directory, beside others: %v", d, err)
						}
					}()
				}
				close(start)
				wg.Wait()
				c.NoteQuiet("%d keys at once under %s", n, d)
				c.Sync()
			case 5: // failures other than a missing key
				if model[key] != nil {
					continue
				}
				what := ""
				p := filepath.Join(dir, key)
				switch c.Uni("odd", 0, 2) {
				case 0:
					must0(os.MkdirAll(filepath.Dir(p), 0o755))
					must0(os.Symlink(filepath.Base(p), p))
					what = "a link to itself"
				case 1:
					key = "long/" + strings.Repeat("n", 300)
					must0(os.MkdirAll(filepath.Join(dir, "long"), 0o755))
					what = "a name the filesystem does not take"
				case 2:
					key = "loop/dir" + fmt.Sprint(i) + "/" + "file"
					p = filepath.Join(dir, filepath.Dir(key))
					must0(os.MkdirAll(filepath.Dir(p), 0o755))
					must0(os.Symlink(filepath.Base(p), p))
					what = "a directory that is a link to itself"
				}
				b, err := st.Get(context.Background(), key)
				if err == nil || isMissing(err) {
					c.Violate("Get(%q) on %s gives %s, %v instead of an error other than 'missing'", key, what, valDesc(b), err)
				}
				if ex, err := st.Exists(context.Background(), key); err == nil {
					c.Violate("Exists(%q) on %s gives %v without an error", key, what, ex)
				}
				readMon(key, nil)
				if what != "a link to itself" {
					if err := st.Set(context.Background(), key, []byte("x")); err == nil {
						c.Violate("Set(%q) on %s succeeds", key, what)
					}
				} else {
					os.Remove(p)
				}
				c.NoteQuiet("%q as %s", key, what)
				c.Label("backend failure")
			}
		}
		if c.Chance("killed", 12) {
			c.killedWriter(dir, model)
		}
		for k, v := range model { // other keys are left alone
			if b, err := os.ReadFile(filepath.Join(dir, k)); err != nil || !bytes.Equal(b, v) {
				c.Violate("at the end, %q holds %s (%v), written was %s", k, valDesc(b), err, valDesc(v))
			}
			if m := judgeRead(st, k, v); m != "" {
				c.Violate("at the end: %s", m)
			}
		}
	})
}

// killedWriter runs a writer in a process of its own and kills it at a random moment.
func (c *Case) killedWriter(dir string, model map[string][]byte) {
	key := "ct/v1/killed"
	if c.Bool("existing") {
		v := []byte("the value before")
		fst := ctsubmit.NewFsStorage(dir)
		must0(fst.Set(context.Background(), key, v))
		model[key] = v
	}
	cmd := exec.Command(os.Args[0])
	cmd.Env = append(os.Environ(), "VH_NODE=fswriter", "VH_DIR="+dir, "VH_KEY="+key)
	out := must(cmd.StdoutPipe())
	must0(cmd.Start())
	one := make([]byte, 1)
	_, err := out.Read(one)
	time.Sleep(time.Duration(c.Uni("us", 0, 1000)*c.Uni("x", 1, 5)) * time.Microsecond)
	cmd.Process.Kill()
	cmd.Wait()
	if err != nil {
		Infra("the writer process did not start: %v", err)
	}
	st := ctsubmit.NewFsStorage(dir)
	b, err := st.Get(context.Background(), key)
	ok := model[key] == nil && err != nil && isMissing(err) || err == nil && bytes.Equal(b, model[key])
	for k := 0; k < 3; k++ {
		ok = ok || err == nil && bytes.Equal(b, fsWriterValue(k))
	}
	c.Note("writer of %q killed", key)
	c.Label("killed writer")
	if !ok {
		c.Violate("after a writer was killed, %q reads as %s, %v, which is neither its old value nor a written one", key, valDesc(b), err)
	}
	delete(model, key)
	if err == nil {
		model[key] = b
	}
}

func fsWriterValue(k int) []byte { return bytes.Repeat(prf(fmt.Sprint("writer", k), 1000), 1000) }

func fsWriterNode() {
	st := ctsubmit.NewFsStorage(os.Getenv("VH_DIR"))
	vals := [][]byte{fsWriterValue(0), fsWriterValue(1), fsWriterValue(2)}
	os.Stdout.Write([]byte("x"))
	for i := 0; i < 100000; i++ {
		if err := st.Set(context.Background(), os.Getenv("VH_KEY"), vals[i%3]); err != nil {
			os.Exit(3)
		}
	}
}

// TestC19S3: the S3 backend against the modelled object store.
func TestC19S3(t *testing.T) {
	runCheck(t, "C19", "a history of writes and reads over HTTP, some failing, was compared with a map and with the store's contents", 6, 150, func(c *Case) {
		store := newStore(2)
		defer store.close()
		inst := store.newInst()
		s := ctsubmit.NewS3Storage("us-east-1", inst.Name, s3().url, "user", "password")
		var st ctsubmit.Storage = &s
		model := map[string][]byte{}
		c.Note("S3 store")
		for i := c.Uni("ops", 2, 20); i > 0; i-- {
			key := c.genKey("key")
			if c.Chance("set", 60) {
				v := c.genValue("v")
				var err error
				c.Guard("Set", func() { err = st.Set(context.Background(), key, v) })
				c.NoteQuiet("set %q to %s (before: %s): %v", key, valDesc(v), valDesc(model[key]), err)
				if err != nil {
					c.Violate("Set(%q): %v", key, err)
				}
				model[key] = append([]byte{}, v...)
				c.NonTrivial()
			}
			if m := judgeRead(st, key, model[key]); m != "" {
				c.Violate("%s", m)
			}
		}
		same := func(when string) {
			snap := store.snapshot()
			for k, v := range snap {
				if model[k] == nil || !bytes.Equal(v, model[k]) {
					c.Violate("%s, the store holds %s at %q, written was %s", when, valDesc(v), k, valDesc(model[k]))
				}
			}
			for k, v := range model {
				if snap[k] == nil {
					c.Violate("%s, %q is not in the store, written was %s", when, k, valDesc(v))
				}
			}
		}
		same("after the writes")
		// failures, each on a key of its own, at once (retries of the client take time)
		type fop struct {
			key        string
			old        []byte
			kind       string
			act        Action
			times      int
			transient  bool
			definitive bool
		}
		var ops []*fop
		plan := map[string]*fop{}
		for i := c.Uni("failing", 3, 40); i > 0; i-- {
			f := &fop{key: fmt.Sprintf("fail/%d/%s", i, c.genKey("fkey")), kind: pick(c, "fkind", "GET", "GET", "PUT", "HEAD")}
			if c.Chance("existing", 60) {
				f.old = c.genValue("old")
				if f.old == nil {
					f.old = []byte{}
				}
				store.put(f.key, f.old)
				model[f.key] = f.old
			}
			switch c.weighted("what", 45, 20, 15, 20) {
			case 0:
				f.act.Status = pick(c, "status", 403, 500, 503, 400, 501, 409, 429)
			case 1:
				f.act.Drop = true
			case 2:
				f.act.Cut = c.Uni("cut", 1, 300)
				if f.kind != "GET" || len(f.old) < 2 {
					f.act = Action{Status: 403}
				}
			case 3:
				f.act.Status, f.act.Apply = pick(c, "status", 500, 503, 403), true
			}
			f.times = 99
			if c.Chance("transient", 30) {
				f.times = 1
			}
			ops = append(ops, f)
			plan[f.kind+f.key] = f
			c.NoteQuiet("failing %s %q: status %d drop %v cut %d, %d times", f.kind, f.key, f.act.Status, f.act.Drop, f.act.Cut, f.times)
		}
		var pmu sync.Mutex
		inst.SetPlan(func(op Op) Action {
			pmu.Lock()
			defer pmu.Unlock()
			if f := plan[op.Kind+op.Key]; f != nil && f.times > 0 {
				f.times--
				return f.act
			}
			return Action{}
		})
		var wg sync.WaitGroup
		for i, f := range ops {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						c.Async("%s %q with a failing store panics: %v", f.kind, f.key, r)
					}
				}()
				perm := f.times > 1
				switch f.kind {
				case "GET":
					b, err := st.Get(context.Background(), f.key)
					if err == nil && !bytes.Equal(b, f.old) || err == nil && f.old == nil {
						c.Async("Get(%q) with a failing store gives %s, stored is %s", f.key, valDesc(b), valDesc(f.old))
					}
					if err == nil && perm {
						c.Async("Get(%q) succeeds although the store never answers it", f.key)
					}
					if err != nil && isMissing(err) && (perm || f.old != nil) {
						c.Async("Get(%q) with a failing store reports the key as missing: %v", f.key, err)
					}
				case "HEAD":
					ex, err := st.Exists(context.Background(), f.key)
					if err == nil && (perm || ex != (f.old != nil)) {
						c.Async("Exists(%q) with a failing store (%+v) gives %v without an error; the key exists: %v", f.key, f.act.Status, ex, f.old != nil)
					}
				case "PUT":
					v := prf(fmt.Sprint("new", i), 50)
					err := st.Set(context.Background(), f.key, v)
					got, had := store.get(f.key)
					if err == nil && perm {
						c.Async("Set(%q) succeeds although the store refuses it", f.key)
					}
					if err == nil && !bytes.Equal(got, v) {
						c.Async("Set(%q) succeeds, but the store holds %s", f.key, valDesc(got))
					}
					if had != (f.old != nil) && !bytes.Equal(got, v) || had && !bytes.Equal(got, v) && !bytes.Equal(got, f.old) {
						c.Async("after a failed Set(%q), the store holds %s; old value %s", f.key, valDesc(got), valDesc(f.old))
					}
					pmu.Lock()
					if had {
						model[f.key] = got
					}
					pmu.Unlock()
				}
			}()
		}
		wg.Wait()
		c.LabelN("failing operation", len(ops))
		c.Sync()
		same("after failing operations")
	})
}
