"""Seventh round of planted bugs."""
from seedspecs1 import *
SPECS = {}


def spec(i, prop, edits, test, needs, breaks, **kw):
    SPECS[i] = dict(property=prop, edits=edits, test=test, needs=needs, breaks=breaks, **kw)


spec("dirs-private", "C19", [
    ("internal/ctsubmit/storage.go", """		mkdirErr := os.MkdirAll(dir, 0755)
""", """		// Only the log itself writes here
		mkdirErr := os.MkdirAll(dir, 0700)
"""),
], """
package demo

import (
	"context"
	"os"
	"path/filepath"
	"testing"

	"itko.dev/internal/ctsubmit"
)

// A web server or a monitor of another user reads the directory.
func TestDemo(t *testing.T) {
	d := t.TempDir()
	s := ctsubmit.NewFsStorage(d)
	if err := s.Set(context.Background(), "tile/0/x001/000", []byte("x")); err != nil {
		t.Fatal(err)
	}
	for _, p := range []string{"tile", "tile/0", "tile/0/x001"} {
		fi := must(os.Stat(filepath.Join(d, p)))
		if fi.Mode().Perm()&0o055 != 0o055 {
			t.Fatalf("%s: %v", p, fi.Mode())
		}
	}
}
""", "a reader that is not the user the log runs as", "Objects in a directory store can't be read by other users.")

spec("no-redirects", "C09", [
    ("internal/ctmonitor/storage.go", """	resp, err := http.DefaultClient.Do(req)
""", """	resp, err := tileClient.Do(req)
"""),
    ("internal/ctmonitor/storage.go", """func (f *UrlStorage) AvailableReqs() int {
""", """// tileClient keeps to the tile store it was given
var tileClient = &http.Client{
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
}

func (f *UrlStorage) AvailableReqs() int {
"""),
], """
package demo

import (
	"context"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"

	"itko.dev/internal/ctmonitor"
)

// The tile store is a bucket whose public address redirects to another one.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(10)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		http.Redirect(w, r, e.s3.url+"/pub/"+strings.TrimPrefix(r.URL.Path, "/"), 302)
	}))
	h := must(ctmonitor.Start(context.Background(), "", s.URL+"/", e.mask))
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest("GET", "/ct/v1/get-entries?start=0&end=3", nil))
	if w.Code != 200 {
		t.Fatalf("%d %s", w.Code, w.Body)
	}
}
""", "a tile store that answers with redirects", "The monitor can't read such a store any more: every request fails.")

spec("edge-two-levels", "C04", [
    (CONFIG, """						if t, ok := edgeTiles[tile.L]; !ok || t.N < tile.N || (t.N == tile.N && t.W < tile.W) {
""", """						// A batch changes the tiles of the two lowest levels only
						if tile.L > 1 {
							continue
						}
						if t, ok := edgeTiles[tile.L]; !ok || t.N < tile.N || (t.N == tile.N && t.W < tile.W) {
"""),
], """
package demo

import (
	"bytes"
	"testing"
)

// A log of nearly 2^24 entries restarts. All but the last three are fillers.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	const size = uint64(1)<<24 - 253
	f := [][32]byte{{1}}
	for i := 0; i < 24; i++ {
		f = append(f, nodeHash(f[i], f[i]))
	}
	var data []byte
	var lh [][32]byte
	for i := size - 3; i < size; i++ {
		l, b := mkEntry(i, []byte("c"))
		data = append(data, b...)
		lh = append(lh, leafHash(l))
	}
	e.s3.put(tilePath("data", size/256, 3), data)
	e.s3.put(tilePath("0", size/256, 3), bytes.Join([][]byte{lh[0][:], lh[1][:], lh[2][:]}, nil))
	e.s3.put(tilePath("1", size>>16, 255), bytes.Repeat(f[8][:], 255))
	e.s3.put(tilePath("2", size>>24, 255), bytes.Repeat(f[16][:], 255))
	root := nodeHash(nodeHash(lh[0], lh[1]), lh[2])
	for l := 8; l < 24; l++ {
		root = nodeHash(f[l], root)
	}
	e.putSTH(size, root)
	e.mustBoot()
	if a := e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw); a.index() != size {
		t.Fatalf("index %d", a.index())
	}
}
""", "a restart of a log of more than 65536 entries", "The log starts but gives up at the first batch.")
import battery4 as _b4

spec("read-flight", "C09", _b4.MUTS["singleflight-ctx"][1], """
package demo

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"itko.dev/internal/ctmonitor"
)

// Two clients ask for the same entries; the first one leaves before it is answered.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(10)
	h := must(ctmonitor.Start(context.Background(), "", e.s3.url+"/pub/", e.mask))
	e.s3.setHook(func(method, key string) int {
		if strings.HasPrefix(key, "tile/") {
			time.Sleep(800 * time.Millisecond)
		}
		return 0
	})
	ask := func(ctx context.Context) *httptest.ResponseRecorder {
		w := httptest.NewRecorder()
		h.ServeHTTP(w, httptest.NewRequest("GET", "/ct/v1/get-entries?start=0&end=3", nil).WithContext(ctx))
		return w
	}
	ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
	defer cancel()
	go ask(ctx)
	time.Sleep(200 * time.Millisecond)
	if w := ask(context.Background()); w.Code != 200 {
		t.Fatalf("%d %s", w.Code, w.Body)
	}
}
""", "two clients that ask for the same object at the same time, the first of which leaves before it is answered", "The other client gets an error although the tile store works.")

spec("read-slots", "C13", _b4.MUTS["sem-leak"][1], """
package demo

import (
	"context"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"itko.dev/internal/ctmonitor"
)

// The tile store fails for some hundred reads and then works again.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(10)
	h := must(ctmonitor.Start(context.Background(), "", e.s3.url+"/pub/", e.mask))
	ask := func() int {
		c := make(chan int, 1)
		go func() {
			w := httptest.NewRecorder()
			h.ServeHTTP(w, httptest.NewRequest("GET", "/ct/v1/get-entries?start=0&end=3", nil))
			c <- w.Code
		}()
		select {
		case code := <-c:
			return code
		case <-time.After(15 * time.Second):
			return 0
		}
	}
	e.s3.setHook(func(method, key string) int {
		if strings.HasPrefix(key, "tile/") {
			return 500
		}
		return 0
	})
	for i := 0; i < 300; i++ {
		if ask() == 0 {
			t.Fatal("a request is not answered")
		}
	}
	e.s3.setHook(nil)
	if c := ask(); c != 200 {
		t.Fatalf("%d after the failures", c)
	}
}
""", "some hundred failed reads of the tile store", "The monitor stops answering.")
import battery5 as _b5

spec("submit-slots", "C07", _b5.MUTS["submit-slots"][1], """
package demo

import "testing"

// Many bad submissions, then a good one.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	for i := 0; i < 99; i++ {
		if code, _ := e.post(false, []byte("not a certificate")); code != 400 {
			t.Fatalf("%d", code)
		}
	}
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	done := make(chan int, 1)
	go func() {
		e.post(false, []byte("not a certificate"))
		code, _ := e.post(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
		done <- code
	}()
	if code := wait(done); code != 200 {
		t.Fatalf("%d for a good submission", code)
	}
}

func wait(c chan int) int {
	code := 0
	waitFor(20e9, func() bool {
		select {
		case code = <-c:
			return true
		default:
			return false
		}
	})
	return code
}
""", "a hundred submissions that are refused", "The log stops answering.")
