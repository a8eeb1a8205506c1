SPECS = {}
LOGIC = "internal/ctsubmit/logic.go"
BUCKET = "internal/ctsubmit/bucket.go"
CONFIG = "internal/ctsubmit/config.go"
STORAGE = "internal/ctsubmit/storage.go"
MLOGIC = "internal/ctmonitor/logic.go"
MFETCH = "internal/ctmonitor/fetch.go"
MSTORAGE = "internal/ctmonitor/storage.go"
FASTLY = "internal/ctmonitor/fastly.go"
SETUP = "internal/ctsetup/main.go"
TILE = "internal/sunlight/tile_ol.go"
MISC = "internal/sunlight/misc.go"
CHECKPOINT = "internal/sunlight/checkpoint_ol.go"
EXT = "internal/sunlight/extensions_ol.go"
ECDSA = "internal/rfc6979/ecdsa_ol.go"


def spec(i, prop, edits, test, needs, breaks, **kw):
    SPECS[i] = dict(property=prop, edits=edits, test=test, needs=needs, breaks=breaks, **kw)


DEDUPE_BLOCK = """			// ** Upload the dedupe mappings **
			// TODO: This isn't the best cache key, because it fails to distinguish between
			// a certificate that is submitted with a different chain. This is a problem because
			// I think the specific chain the certificate was submitted with also matters.
			dedupeVals := make([]DedupeUpload, 0, len(pool))
			for _, e := range pool {
				dedupeVals = append(dedupeVals, DedupeUpload{
					hash:      dedupeKey(e.entry),
					leafIndex: e.entry.LeafIndex,
					timestamp: e.entry.Timestamp,
				})
			}
			err = d.bucket.PutDedupeEntries(ctx, dedupeVals, d.maskSize)
			if err != nil {
				return fmt.Errorf("failed to upload dedupe mappings: %w", err)
			}

"""

spec("dedupe-before-sth", "C01", [
    (LOGIC, DEDUPE_BLOCK, ""),
    (LOGIC, """				err := g.Wait()
				if err != nil {
					return fmt.Errorf("failed to upload data: %w", err)
				}
""", """				// ** Upload the dedupe mappings **
				// TODO: This isn't the best cache key, because it fails to distinguish between
				// a certificate that is submitted with a different chain. This is a problem because
				// I think the specific chain the certificate was submitted with also matters.
				dedupeVals := make([]DedupeUpload, 0, len(pool))
				for _, e := range pool {
					dedupeVals = append(dedupeVals, DedupeUpload{
						hash:      dedupeKey(e.entry),
						leafIndex: e.entry.LeafIndex,
						timestamp: e.entry.Timestamp,
					})
				}
				g.Go(func() error { return d.bucket.PutDedupeEntries(gctx, dedupeVals, d.maskSize) })

				err := g.Wait()
				if err != nil {
					return fmt.Errorf("failed to upload data: %w", err)
				}
"""),
], """
package demo

import "testing"

// An SCT answered from the dedupe files must be for an entry that was published.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	// the instance is lost when it writes its next tree head
	lost := false
	leaf := newLeaf("b.example", e.inter, false, nil)
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && e.s3.get("tile/data/000.p/2") != nil && key == "ct/v1/get-sth" {
			lost = true
		}
		if lost {
			return 403
		}
		return 0
	})
	go e.post(false, leaf, e.inter.cert.Raw)
	waitFor(20e9, func() bool { return e.consul.released() > 0 })
	e.s3.setHook(nil)
	e.mustBoot()
	s := e.submit(false, leaf, e.inter.cert.Raw)
	if err := e.included(s); err != nil {
		t.Fatal(err)
	}
}
""", "the process is lost (or the write fails) between the dedupe upload and the tree head of one batch; then a restart and a resubmission of a certificate of that batch",
     "After the restart the dedupe map answers with an SCT for an entry that was never published.")

spec("restart-on-full-tile", "C02", [
    (LOGIC, """					// Reset the width to zero
					dataTile.Tile.W = 0
					// Increment the tile index
					dataTile.Tile.N++
					// Clear the bytes
					dataTile.Bytes = []byte{}
				}

				for _, e := range pool {""", """					// Start a new one
					dataTile = tileWithBytes{Tile: tlog.Tile{H: sunlight.TileHeight, L: -1, N: dataTile.Tile.N}}
				}

				for _, e := range pool {"""),
], """
package demo

import (
	"bytes"
	"testing"
)

// Restarting on a tree whose last tile is full: published entries stay as they are.
func TestDemo(t *testing.T) {
	for _, n := range []int{255, 256, 512} {
		e := newEnv(t)
		e.fill(n)
		before := bytes.Clone(e.s3.get(tilePath("data", uint64((n-1)/256), (n-1)%256+1)))
		e.mustBoot()
		for i := 0; i < 3; i++ {
			e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
		}
		if err := e.audit(); err != nil {
			t.Fatalf("base %d: %v", n, err)
		}
		if !bytes.Equal(before, e.s3.get(tilePath("data", uint64((n-1)/256), (n-1)%256+1))) {
			t.Fatal("a published tile was changed")
		}
	}
}
""", "a restart while the published tree size is an exact multiple of 256, then further submissions", "New entries go into partial tiles of the tile that is already full, and eventually overwrite it: published entries are replaced.")

spec("index-after-sth", "C03", [
    (LOGIC, """				// ** Upload the v1 leaf record hash mappings **
				g.Go(func() error { return d.bucket.PutRecordHashes(gctx, recordHashes, d.maskSize) })
""", """				// ** Upload the v1 leaf record hash mappings **
				index.Go(func() error { return d.bucket.PutRecordHashes(ctx, recordHashes, d.maskSize) })
"""),
    (LOGIC, """			updatedTreeSize := d.treeSize

""", """			updatedTreeSize := d.treeSize
			// The index files don't hold up the tiles
			index := errgroup.Group{}

"""),
    (LOGIC, """			// ** Everything is uploaded, return the log entries **
""", """			if err := index.Wait(); err != nil {
				return fmt.Errorf("failed to upload record hashes: %w", err)
			}

			// ** Everything is uploaded, return the log entries **
"""),
], """
package demo

import (
	"strings"
	"testing"
	"time"
)

// Whatever a write of an index file takes, the tree head comes after it.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && strings.HasPrefix(key, "int/hashes/") {
			time.Sleep(500 * time.Millisecond)
		}
		return 0
	})
	go e.post(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	if !waitFor(20e9, func() bool { return e.head().Size == 1 }) {
		t.Fatal("not published")
	}
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "the write of a hash-index file is slower than the writes of the tiles and the tree head", "A tree head is visible while its entries cannot be found by hash yet (for good if the process is lost then).")

spec("tile-buffer-reuse", "C03", [
    (LOGIC, """						g.Go(func() error { return d.bucket.SetTile(gctx, t.Tile, t.Bytes) })
						// Reset the width to zero
						dataTile.Tile.W = 0
						// Increment the tile index
						dataTile.Tile.N++
						// Clear the bytes
						dataTile.Bytes = []byte{}
""", """						g.Go(func() error { return d.bucket.SetTile(gctx, t.Tile, t.Bytes) })
						// Reset the width to zero
						dataTile.Tile.W = 0
						// Increment the tile index
						dataTile.Tile.N++
						// Clear the bytes, but keep the buffer
						dataTile.Bytes = dataTile.Bytes[:0]
"""),
], """
package demo

import "testing"

// Batches that cross a tile boundary, with several entries in the next tile.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(200)
	e.conf["flushMs"] = 400
	e.mustBoot()
	for i := 0; i < 2; i++ {
		e.burst(120)
		if err := e.audit(); err != nil {
			t.Fatal(err)
		}
	}
}
""", "one batch that completes a data tile and goes on into the next one", "The full data tile that is being uploaded shares its buffer with the next one: its first entries are overwritten by later ones.")

spec("tiles-immutable", "C04", [
    (BUCKET, """	return b.S.Set(ctx, sunlight.Path(tile), data)
""", """	// Tiles are immutable, so there is no need to upload one again
	key := sunlight.Path(tile)
	exists, err := b.S.Exists(ctx, key)
	if err != nil || exists {
		return err
	}
	return b.S.Set(ctx, key, data)
"""),
], """
package demo

import "testing"

// Tiles left behind by an interrupted batch do not end up in the log.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	lost := false
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && e.s3.get("tile/data/000.p/2") != nil && key == "ct/v1/get-sth" {
			lost = true
		}
		if lost {
			return 403
		}
		return 0
	})
	go e.post(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
	waitFor(20e9, func() bool { return e.consul.released() > 0 })
	e.s3.setHook(nil)
	e.mustBoot()
	s := e.submit(false, newLeaf("c.example", e.inter, false, nil), e.inter.cert.Raw)
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
	if err := e.included(s); err != nil {
		t.Fatal(err)
	}
}
""", "a crash between the upload of a batch's tiles and its tree head, then a restart and a different batch of the same size", "The tiles left over from the interrupted batch stay in place of those of the new batch: the published tree is not backed by its tiles.")

spec("dedupe-binary-search", "C05", [
    (BUCKET, """	recordCount := len(f) / DDURecordSize

	for i := 0; i < recordCount; i++ {
		record, err := BytesToDedupe(f[i*DDURecordSize : (i+1)*DDURecordSize])
		if err != nil {
			return DedupeUpload{}, err
		}
		if bytes.Equal(hash[:], record.hash[:]) {
			return record, nil
		}
	}
	return DedupeUpload{}, errRecordNotFound
""", """	// The records are sorted
	lo, hi := 0, len(f)/DDURecordSize-1
	for lo <= hi {
		mid := (lo + hi) / 2
		record, err := BytesToDedupe(f[mid*DDURecordSize : (mid+1)*DDURecordSize])
		if err != nil {
			return DedupeUpload{}, err
		}
		switch c := bytes.Compare(hash[:], record.hash[:]); {
		case c == 0:
			return record, nil
		case c < 0:
			hi = mid - 1
		default:
			lo = mid + 2
		}
	}
	return DedupeUpload{}, errRecordNotFound
"""),
], """
package demo

import "testing"

// With many certificates in one dedupe file, each of them is recognised.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mask = 1
	e.conf["maskSize"] = 1
	e.mustBoot()
	var leaves [][]byte
	var first []string
	for i := 0; i < 40; i++ {
		l := newLeaf("a.example", e.inter, false, nil)
		leaves = append(leaves, l)
		first = append(first, e.submit(false, l, e.inter.cert.Raw).raw)
	}
	for i, l := range leaves {
		if s := e.submit(false, l, e.inter.cert.Raw); s.raw != first[i] {
			t.Fatalf("resubmission %d got another SCT", i)
		}
	}
	if n := e.head().Size; n != 40 {
		t.Fatalf("the log has %d entries", n)
	}
}
""", "a dedupe file with several records, and a resubmission of one whose place the search steps over", "Some already logged certificates are not recognised and get a second entry and a different SCT.")

spec("batch-aliasing", "C06", [
    (LOGIC, """			if len(pool) >= MAX_POOL_SIZE || time.Since(lastFlushTime) >= FLUSH_INTERVAL {
				// Create a copy of the pool
				closedPool := make([]LogEntryWithReturnPath, len(pool))
				copy(closedPool, pool)
""", """			if len(pool) >= MAX_POOL_SIZE || time.Since(lastFlushTime) >= FLUSH_INTERVAL {
				// Hand over the pool
				closedPool := pool[:len(pool):len(pool)]
"""),
], """
package demo

import (
	"testing"
	"time"
)

// Submissions that arrive while a batch is being written.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && key == "ct/v1/get-sth" {
			time.Sleep(30 * time.Millisecond)
		}
		return 0
	})
	for r := 0; r < 8; r++ {
		for _, s := range e.burst(40) {
			if err := e.included(s); err != nil {
				t.Fatal(err)
			}
		}
	}
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
	if n := e.head().Size; n != 320 {
		t.Fatalf("320 accepted, %d logged", n)
	}
}
""", "new submissions arriving while an earlier batch (closed because the flush interval had passed) is queued or being written", "Entries of a batch that is still being written are overwritten by new ones: entries lost, duplicated and SCTs swapped.")

spec("unbuffered-return", "C06", [
    (LOGIC, """		// This channel is buffered so it doesn't block if an attempt is made to send
		// after the timeout fires.
		returnPath := make(chan sunlight.LogEntry, 1)
""", """		returnPath := make(chan sunlight.LogEntry)
"""),
], """
package demo

import (
	"sync"
	"testing"
	"time"
)

// The store stalls for longer than submitters wait and then recovers.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	var once sync.Once
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && key == "checkpoint" && e.head().Size == 2 {
			once.Do(func() { time.Sleep(7 * time.Second) })
		}
		return 0
	})
	e.post(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw)
	time.Sleep(3 * time.Second)
	e.s3.setHook(nil)
	code, s := e.post(false, newLeaf("c.example", e.inter, false, nil), e.inter.cert.Raw)
	if code != 200 {
		t.Fatalf("the log does not make progress any more: %d %s", code, s.raw)
	}
}
""", "the store stalls for more than the five seconds a submitter waits, and then works again", "The publishing stage waits for ever for a submitter that has gone: the log hangs although the store works.")

spec("expired-roots", "C07", [
    (CONFIG, """			r.AddCert(cert)
""", """			if time.Now().After(cert.NotAfter) {
				log.Println("Skipping expired root", cert.Subject)
				continue
			}
			r.AddCert(cert)
"""),
], """
package demo

import (
	"crypto/x509"
	"testing"
	"time"
)

// A root whose own validity has ended is still an accepted root.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	old := newCA("Old Root", nil, func(c *x509.Certificate) { c.NotAfter = time.Date(2024, 7, 1, 0, 0, 0, 0, time.UTC) })
	e.roots = append(e.roots, old.cert.Raw)
	e.mustBoot()
	if err := e.included(e.submit(false, newLeaf("a.example", old, false, nil))); err != nil {
		t.Fatal(err)
	}
}
""", "a configured root certificate that has itself expired", "Chains to a configured but expired root are refused.")

spec("preissuer-key-hash", "C08", [
    (LOGIC, """			issuer = chain[2]
""", """			issuer = chain[len(chain)-1]
"""),
], """
package demo

import (
	"bytes"
	"crypto/sha256"
	"crypto/x509"
	"encoding/asn1"
	"testing"
)

func preSigner(c *x509.Certificate) { c.UnknownExtKeyUsage = []asn1.ObjectIdentifier{oidPreSigner} }

// A precertificate from a precertificate signing certificate under an intermediate.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	ps := newCA("Demo Precertificate Signing", e.inter, preSigner)
	e.mustBoot()
	s := e.submit(true, newLeaf("a.example", ps, true, nil), ps.cert.Raw, e.inter.cert.Raw)
	if err := e.included(s); err != nil {
		t.Fatal(err)
	}
	en, err := e.entries()
	if err != nil {
		t.Fatal(err)
	}
	want := sha256.Sum256(e.inter.cert.RawSubjectPublicKeyInfo)
	if !bytes.Equal(en[0].IKH, want[:]) {
		t.Fatal("the issuer key hash is not that of the final issuer")
	}
}
""", "a precertificate from a precertificate signing certificate whose own issuer is an intermediate rather than a root", "The logged issuer key hash is that of the root and not that of the final certificate's issuer.")

spec("entries-middle-tiles", "C09", [
    (MLOGIC, """			for i := firstTile.N + 1; i < lastTile.N; i++ {
				tile := tlog.Tile{
					H: sunlight.TileHeight,
					L: -1,
					N: i,
					W: 256,
				}

				data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
""", """			for i := int64(1); i <= (end-start)/sunlight.TileWidth-1; i++ {
				tile := tlog.Tile{
					H: sunlight.TileHeight,
					L: -1,
					N: firstTile.N + i,
					W: 256,
				}

				data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
"""),
], """
package demo

import (
	"encoding/json"
	"fmt"
	"testing"
)

// Ranges over several tiles, starting and ending anywhere in a tile.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(1400)
	get := e.monitor()
	for _, r := range [][2]int{{0, 5}, {0, 511}, {0, 767}, {0, 1023}, {255, 1278}, {100, 1123}, {255, 512}, {300, 1300}} {
		code, b := get(fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", r[0], r[1]))
		var resp struct {
			Entries []struct {
				LeafInput []byte `json:"leaf_input"`
			} `json:"entries"`
		}
		json.Unmarshal(b, &resp)
		if code != 200 || len(resp.Entries) != r[1]-r[0]+1 {
			t.Fatalf("%v: %d, %d entries", r, code, len(resp.Entries))
		}
	}
}
""", "a range over three or more tiles that starts late in its first tile", "Tiles in the middle are not fetched, and the request fails although all entries are published.")

spec("monitor-index-32", "C10", [
    (MFETCH, """			// Create a buffer for the full 64-bit timestamp
			fullIndxeBytes := make([]byte, 8)
			// Copy the 5 bytes to the buffer
			copy(fullIndxeBytes[0:5], file[(i*RHURecordSize)+RHUHashSize:(i+1)*RHURecordSize])
			// Convert to uint64
			leafIndex := binary.LittleEndian.Uint64(fullIndxeBytes)
""", """			leafIndex := binary.LittleEndian.Uint32(file[(i*RHURecordSize)+RHUHashSize : (i+1)*RHURecordSize])
"""),
], """
package demo

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/url"
	"strconv"
	"testing"
)

// A log with more than 2^32 entries, all of whose leaves but the last one are the same.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	const size = 1<<32 + 7
	last := uint64(size - 1)
	leaf, _ := mkEntry(last, []byte("the last one"))
	lh := leafHash(leaf)
	// full[l] is a complete subtree of 2^l common leaves
	full := [][32]byte{leafHash([]byte("common"))}
	for len(full) < 41 {
		x := full[len(full)-1]
		full = append(full, nodeHash(x, x))
	}
	// node hashes of the tree at (level, n)
	var node func(l int, n uint64) [32]byte
	node = func(l int, n uint64) [32]byte {
		if last>>l != n {
			return full[l]
		}
		if l == 0 {
			return lh
		}
		return nodeHash(node(l-1, 2*n), node(l-1, 2*n+1))
	}
	var root func(lo, hi uint64) [32]byte
	root = func(lo, hi uint64) [32]byte {
		n := hi - lo
		k, l := uint64(1), 0
		for k*2 <= n {
			k, l = k*2, l+1
		}
		if k == n {
			return node(l, lo>>l)
		}
		return nodeHash(root(lo, lo+k), root(lo+k, hi))
	}
	r := root(0, size)
	e.putSTH(size, r)
	for l := 0; size>>(8*l) > 0; l++ {
		cnt := uint64(size) >> (8 * l)
		for _, n := range []uint64{0, (cnt - 1) / 256} {
			w := min(256, int(cnt-n*256))
			var b []byte
			for i := 0; i < w; i++ {
				h := node(8*l, n*256+uint64(i))
				b = append(b, h[:]...)
			}
			e.s3.put(tilePath(strconv.Itoa(l), n, w), b)
		}
	}
	e.s3.put(fmt.Sprintf("int/hashes/%x", lh[:1]), append(append([]byte{}, lh[:16]...), byte(last), byte(last>>8), byte(last>>16), byte(last>>24), byte(last>>32)))
	code, b := e.monitor()("/ct/v1/get-proof-by-hash?tree_size=" + fmt.Sprint(size) + "&hash=" + url.QueryEscape(base64.StdEncoding.EncodeToString(lh[:])))
	var resp struct {
		Index uint64   `json:"leaf_index"`
		Path  [][]byte `json:"audit_path"`
	}
	json.Unmarshal(b, &resp)
	if code != 200 || resp.Index != last || !verifyIncl(last, size, lh, resp.Path, r[:]) {
		t.Fatalf("%d %s", code, b)
	}
}
""", "a leaf whose index is 2^32 or more", "Its inclusion proof can no longer be obtained by hash.")

spec("consistency-from-one", "C11", [
    (MLOGIC, """	if first >= 1 {
""", """	if first > 1 {
"""),
], """
package demo

import (
	"encoding/json"
	"fmt"
	"testing"
)

// The length of the proofs from each small size.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.fill(8)
	get := e.monitor()
	for first, n := range []int{0, 3, 2, 4, 1, 4, 3, 4, 0} {
		code, b := get(fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=8", first))
		var resp struct {
			C [][]byte `json:"consistency"`
		}
		json.Unmarshal(b, &resp)
		if code != 200 || len(resp.C) != n {
			t.Fatalf("first=%d: %d, %d hashes", first, code, len(resp.C))
		}
	}
}
""", "first = 1", "The proof from the tree of size 1 is empty, which proves nothing.")

spec("monitor-tile-cache", "C12", [
    (MLOGIC, """	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
	return func(indexes []int64) ([]tlog.Hash, error) {
""", """	return func(indexes []int64) ([]tlog.Hash, error) {
"""),
    (MLOGIC, """			tile := tlog.TileForIndex(sunlight.TileHeight, index)
			data, err := f.getTile(ctx, tile, publishedTreeSize)
			if err != nil {
				return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
			}
""", """			tile := tlog.TileForIndex(sunlight.TileHeight, index)
			var data []byte
			var err error
			id := [2]int64{int64(tile.L), tile.N}
			if v, ok := f.tiles.Load(id); ok {
				data = v.([]byte)
			} else {
				data, err = f.getTile(ctx, tile, publishedTreeSize)
				if err != nil {
					return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
				}
				f.tiles.Store(id, data)
			}
"""),
    (MFETCH, """	maxGetEntry int
}
""", """	maxGetEntry int
	tiles       *sync.Map // hash tiles seen so far
}
"""),
    (MFETCH, """		maxGetEntry: maxGetEntry,
""", """		maxGetEntry: maxGetEntry,
		tiles:       &sync.Map{},
"""),
    (MFETCH, """	"errors"
	"fmt"
""", """	"errors"
	"fmt"
	"sync"
"""),
], """
package demo

import (
	"encoding/json"
	"fmt"
	"testing"
)

// Proofs before and after the log has grown.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	get := e.monitor()
	for _, n := range []int{5, 9, 300} {
		e.fill(n)
		for _, i := range []int{0, 3, n - 1} {
			code, b := get(fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", i, n))
			var resp struct {
				Leaf []byte   `json:"leaf_input"`
				Path [][]byte `json:"audit_path"`
			}
			json.Unmarshal(b, &resp)
			if code != 200 || !verifyIncl(uint64(i), uint64(n), leafHash(resp.Leaf), resp.Path, e.head().Root) {
				t.Fatalf("index %d size %d: %d %s", i, n, code, b)
			}
		}
	}
}
""", "a proof request, then growth of the log within the same tile, then another proof request to the same monitor", "The monitor keeps using a partial tile of an older tree, and proofs for new entries and sizes fail.")

spec("body-leak", "C13", [
    (MSTORAGE, """	defer resp.Body.Close()
	if resp.StatusCode != 200 {
""", """	if resp.StatusCode != 200 {
"""),
    (MSTORAGE, """	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, false, err
	}
	return body, false, nil
""", """	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, false, err
	}
	return body, false, nil
"""),
], """
package demo

import (
	"context"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"itko.dev/internal/ctmonitor"
)

// Failed reads leave no connections behind.
func TestDemo(t *testing.T) {
	var mu sync.Mutex
	open := map[net.Conn]bool{}
	srv := httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(404)
		io.WriteString(w, "not found")
	}))
	srv.Config.ConnState = func(c net.Conn, s http.ConnState) {
		mu.Lock()
		defer mu.Unlock()
		if s == http.StateNew {
			open[c] = true
		} else if s == http.StateClosed {
			delete(open, c)
		}
	}
	srv.Start()
	h := must(ctmonitor.Start(context.Background(), "", srv.URL+"/", 2))
	for i := 0; i < 50; i++ {
		h.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/ct/v1/get-sth-consistency?first=1&second=2", nil))
	}
	mu.Lock()
	defer mu.Unlock()
	if len(open) > 10 {
		t.Fatalf("%d connections are open after 50 sequential requests", len(open))
	}
}
""", "many requests for which the tile store answers with an error status that has a body", "Each failed read leaks a connection to the tile store.")

spec("tile-trailing-extension", "C14", [
    (TILE, """		!readUint40(&extensionData, &e.LeafIndex) || !extensionData.Empty() ||
		!extensions.Empty() {
""", """		!readUint40(&extensionData, &e.LeafIndex) || !extensionData.Empty() {
"""),
], """
package demo

import (
	"bytes"
	"testing"

	"itko.dev/internal/sunlight"
)

// An entry with anything besides the leaf index in its extensions is not one this log can represent.
func TestDemo(t *testing.T) {
	_, b := mkEntry(7, []byte("certificate"))
	i := bytes.Index(b, []byte{0, 8, 0, 0, 5})
	m := append(append(append([]byte{}, b[:i]...), 0, 11, 0, 0, 5, 0, 0, 0, 0, 7, 1, 0, 0), b[i+10:]...)
	if _, _, err := sunlight.ReadTileLeaf(b); err != nil {
		t.Fatal(err)
	}
	if e, rest, err := sunlight.ReadTileLeaf(m); err == nil && !bytes.Equal(append(sunlight.AppendTileLeaf(nil, e), rest...), m) {
		t.Fatal("decoded to an entry that does not encode to the bytes consumed")
	}
}
""", "a data tile with an entry that has something after the leaf_index extension", "The entry is decoded with part of its signed contents dropped, so that its leaf hash is not the stored one.")

spec("tile-path-1000", "C15", [
    (TILE, """	for n >= pathBase {
""", """	for n > pathBase {
"""),
], """
package demo

import (
	"fmt"
	"testing"

	"golang.org/x/mod/sumdb/tlog"
	"itko.dev/internal/sunlight"
)

func TestDemo(t *testing.T) {
	for _, n := range []int64{0, 1, 999, 1000, 1001, 999999, 1000000, 1000001, 1234067} {
		for _, l := range []int{-1, 0, 3} {
			for _, w := range []int{1, 255, 256} {
				lv := "data"
				if l >= 0 {
					lv = fmt.Sprint(l)
				}
				if got, want := sunlight.Path(tlog.Tile{H: 8, L: l, N: n, W: w}), tilePath(lv, uint64(n), w); got != want {
					t.Fatalf("%s, not %s", got, want)
				}
			}
		}
	}
}
""", "tile number 1000 (and those that reach it after division, like 1000xxx), that is, a log with 256000 entries", "The tile gets the path of tile 0 and overwrites it.")

spec("checkpoint-size-form", "C16", [
    (CHECKPOINT, """	if err != nil || n < 0 || lines[1] != strconv.FormatInt(n, 10) {
""", """	if err != nil || n < 0 || (len(lines[1]) > 1 && lines[1][0] == '0') {
"""),
], """
package demo

import (
	"testing"

	"itko.dev/internal/sunlight"
)

func TestDemo(t *testing.T) {
	const h = "47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU="
	for _, n := range []string{"0", "1", "12", "9223372036854775807"} {
		c, err := sunlight.ParseCheckpoint("example.com/log\\n" + n + "\\n" + h + "\\n")
		if err != nil {
			t.Fatal(err)
		}
		if got := sunlight.FormatCheckpoint(c); got != "example.com/log\\n"+n+"\\n"+h+"\\n" {
			t.Fatal(got)
		}
	}
	for _, n := range []string{"", "01", "+1", "-1", "-0", "+0", " 1", "1 ", "0x1", "1_0", "00", "9223372036854775808"} {
		if _, err := sunlight.ParseCheckpoint("example.com/log\\n" + n + "\\n" + h + "\\n"); err == nil {
			t.Fatalf("size %q was accepted", n)
		}
	}
}
""", "a checkpoint whose size is written with a plus sign, or as -0", "A non-canonical tree size is accepted, so parsing does not invert formatting.")

REFNONCE = """
package demo

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/hex"
	"math/big"
	"sync"
	"testing"

	"itko.dev/internal/rfc6979"
)

// nonce of RFC 6979 for P-256 and SHA-256
func nonce(d, n *big.Int, digest []byte) *big.Int {
	z := new(big.Int).SetBytes(digest)
	z.Mod(z, n)
	x, h1 := d.FillBytes(make([]byte, 32)), z.FillBytes(make([]byte, 32))
	V, K := make([]byte, 32), make([]byte, 32)
	for i := range V {
		V[i] = 1
	}
	mac := func(k []byte, p ...[]byte) []byte {
		m := hmac.New(sha256.New, k)
		for _, b := range p {
			m.Write(b)
		}
		return m.Sum(nil)
	}
	K = mac(K, V, []byte{0}, x, h1)
	V = mac(K, V)
	K = mac(K, V, []byte{1}, x, h1)
	V = mac(K, V)
	for {
		V = mac(K, V)
		k := new(big.Int).SetBytes(V)
		if k.Sign() > 0 && k.Cmp(n) < 0 {
			return k
		}
		K = mac(K, V, []byte{0})
		V = mac(K, V)
	}
}

func keyOf(d *big.Int) *ecdsa.PrivateKey {
	k := &ecdsa.PrivateKey{D: d, PublicKey: ecdsa.PublicKey{Curve: elliptic.P256()}}
	k.X, k.Y = k.Curve.ScalarBaseMult(d.Bytes())
	return k
}

// right reports whether the signature is the one of RFC 6979.
func right(k *ecdsa.PrivateKey, digest, sig []byte) bool {
	var rs struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(sig, &rs); err != nil {
		return false
	}
	n := k.Params().N
	x, _ := k.Curve.ScalarBaseMult(nonce(k.D, n, digest).Bytes())
	return rs.R.Cmp(x.Mod(x, n)) == 0 && ecdsa.VerifyASN1(&k.PublicKey, digest, sig)
}

func TestSingle(t *testing.T) {
	for _, v := range [][2]string{
		{"c9afa9d845ba75166b5c215767b1d6934e50c3db36e89b127b8a622b120f6721", "af2bdbe1aa9b6ec1e2ade1d694f41fc71a831d0268e9891562113d8a62add1bf"},
		{"6e6f6e63652072656a656374696f6e20736561726368206b6579200101000007", "0164696765737400000000000000000000000000000000009e83af6500000000"},
		{"6e6f6e63652072656a656374696f6e20736561726368206b6579200105000007", "05646967657374000000000000000000000000000000000089534c1800000000"},
	} {
		d, _ := new(big.Int).SetString(v[0], 16)
		digest := must(hex.DecodeString(v[1]))
		if !right(keyOf(d), digest, must(rfc6979.Sign(keyOf(d), digest, crypto.SHA256))) {
			t.Fatalf("key %s, digest %s: not the RFC 6979 signature", v[0], v[1])
		}
	}
}

func TestConcurrent(t *testing.T) {
	k := keyOf(big.NewInt(123456789))
	var wg sync.WaitGroup
	bad := make(chan int, 3000)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				digest := sha256.Sum256([]byte{byte(w), byte(i), byte(i >> 8)})
				sig, err := rfc6979.Sign(k, digest[:], crypto.SHA256)
				if err != nil || !right(k, digest[:], sig) {
					bad <- i
				}
			}
		}()
	}
	wg.Wait()
	if len(bad) > 0 {
		t.Fatalf("%d of 2400 signatures made concurrently are wrong", len(bad))
	}
}
"""

spec("rfc6979-scratch", "C17", [
    (ECDSA, """	e := bigmod.NewNat()
	hashToNat(c, e, digest)
""", """	e := c.scratch
	hashToNat(c, e, digest)
"""),
    (ECDSA, """	nMinus2  []byte
}
""", """	nMinus2  []byte
	scratch  *bigmod.Nat
}
"""),
    (ECDSA, """	c.curve = curve
	var err error
""", """	c.curve = curve
	c.scratch = bigmod.NewNat()
	var err error
"""),
], REFNONCE, "two signatures made at the same time on the same curve", "They share a scratch value, and the digest of one is used in the other: wrong or invalid signatures.")

spec("index-read-error", "C18", [
    (BUCKET, """		f[e.hashPath], err = b.S.Get(ctx, "int/hashes/"+e.hashPath)
		if err != nil {
			// TODO: move this logic into the storage interface
			var notFound *s3types.NoSuchKey
			if errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist) {
				// If the file is not found, create a new one.
				f[e.hashPath] = make([]byte, 0)
			} else {
				return err
			}
		}
""", """		f[e.hashPath], err = b.S.Get(ctx, "int/hashes/"+e.hashPath)
		if err != nil {
			// TODO: move this logic into the storage interface
			var responseError *awshttp.ResponseError
			if errors.As(err, &responseError) || errors.Is(err, os.ErrNotExist) {
				// If the file is not found, create a new one.
				f[e.hashPath] = make([]byte, 0)
			} else {
				return err
			}
		}
"""),
    (BUCKET, """	s3types "github.com/aws/aws-sdk-go-v2/service/s3/types"
""", """	awshttp "github.com/aws/aws-sdk-go-v2/aws/transport/http"
	s3types "github.com/aws/aws-sdk-go-v2/service/s3/types"
"""),
], """
package demo

import (
	"strings"
	"testing"
)

// Reads of the index files are refused for a while.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mask = 1
	e.conf["maskSize"] = 1
	e.mustBoot()
	e.burst(40)
	e.s3.setHook(func(method, key string) int {
		if method == "GET" && strings.HasPrefix(key, "int/hashes/") {
			return 403
		}
		return 0
	})
	done := make(chan bool)
	go func() { e.post(false, newLeaf("x.example", e.inter, false, nil), e.inter.cert.Raw); close(done) }()
	<-done
	e.s3.setHook(nil)
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "a read of an existing index file that the object store answers with an error other than not-found", "The file is rewritten as if it had been empty: all earlier records in it are lost.")

spec("exists-client-errors", "C19", [
    (STORAGE, """		if errors.As(err, &responseError) && responseError.ResponseError.HTTPStatusCode() == http.StatusNotFound {
""", """		if errors.As(err, &responseError) && responseError.ResponseError.HTTPStatusCode()/100 == http.StatusBadRequest/100 {
"""),
], """
package demo

import (
	"context"
	"testing"

	"itko.dev/internal/ctsubmit"
)

func TestDemo(t *testing.T) {
	s := newS3()
	st := ctsubmit.NewS3Storage("us-east-1", "bucket", s.url, "u", "p")
	if ok, err := st.Exists(context.Background(), "issuer/a"); ok || err != nil {
		t.Fatal(ok, err)
	}
	s.put("issuer/a", []byte("x"))
	if ok, err := st.Exists(context.Background(), "issuer/a"); !ok || err != nil {
		t.Fatal(ok, err)
	}
	for _, status := range []int{400, 403, 409, 429} {
		s.setHook(func(string, string) int { return status })
		if ok, err := st.Exists(context.Background(), "issuer/a"); err == nil {
			t.Fatalf("status %d was reported as exists=%v", status, ok)
		}
	}
}
""", "the object store answers a HEAD request with a 4xx status other than 404 (no permission, throttled)", "The failure is reported as a missing key.")

spec("lock-after-load", "C20", [
    (CONFIG, """		// Lock the key and get a channel to listen for lock loss
		eStopChan, err := lock.Lock(nil)
		if err != nil {
			return nil, err
		}

		// If the lock is lost, log a fatal message and fail fast
		// This will happen in two cases, either we perform cleanup and unlock the lock
		// or the lock is lost due to reasons out of our control.
		// Either way, without the lock, we are not allowed to do any more tasks.
		go func(eStopChan <-chan struct{}) {
			<-eStopChan
			log.Fatal("Consul lock lost, exiting now!")
		}(eStopChan)

""", ""),
    (CONFIG, """	log.Println("Log loaded successfully")

""", """	// Everything is ready, so take over
	// Lock the key and get a channel to listen for lock loss
	eStopChan, err := lock.Lock(nil)
	if err != nil {
		return nil, err
	}

	// If the lock is lost, log a fatal message and fail fast
	// This will happen in two cases, either we perform cleanup and unlock the lock
	// or the lock is lost due to reasons out of our control.
	// Either way, without the lock, we are not allowed to do any more tasks.
	go func(eStopChan <-chan struct{}) {
		<-eStopChan
		log.Fatal("Consul lock lost, exiting now!")
	}(eStopChan)

	log.Println("Log loaded successfully")

"""),
], """
package demo

import (
	"context"
	"testing"

	"itko.dev/internal/ctsubmit"
)

// A standby waits for the lock while the leader goes on; then it takes over.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.submit(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw)
	type res struct {
		lg  *ctsubmit.Log
		err error
	}
	ch := make(chan res, 1)
	go func() {
		lg, err := ctsubmit.LoadLog(context.Background(), "demo", e.consul.addr)
		ch <- res{lg, err}
	}()
	waitFor(1e9, func() bool { return false })
	var scts []SCT
	for i := 0; i < 3; i++ {
		scts = append(scts, e.submit(false, newLeaf("b.example", e.inter, false, nil), e.inter.cert.Raw))
	}
	e.cancel() // the leader gives up
	r := <-ch
	if r.err != nil {
		t.Fatal(r.err)
	}
	e.h = must(r.lg.Start(context.Background()))
	scts = append(scts, e.submit(false, newLeaf("c.example", e.inter, false, nil), e.inter.cert.Raw))
	for i, s := range scts {
		if err := e.included(s); err != nil {
			t.Fatalf("SCT %d: %v", i, err)
		}
	}
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "a second instance that waits for the lock while the first still publishes, and then takes over", "It resumes from the tree head it read before it had the lock, and publishes a fork that drops entries.")

spec("bundle-other-blocks", "C21", [
    (SETUP, """	r := x509util.NewPEMCertPool()
	err := r.AppendCertsFromPEMFile(rootCerts)
	if err != nil {
		return err
	}
""", """	r := x509util.NewPEMCertPool()
	bundle, err := os.ReadFile(rootCerts)
	if err != nil {
		return err
	}
	for {
		var block *pem.Block
		block, bundle = pem.Decode(bundle)
		if block == nil || block.Type != "CERTIFICATE" {
			break
		}
		cert, err := ctx509.ParseCertificate(block.Bytes)
		if ctx509.IsFatal(err) {
			return err
		}
		r.AddCert(cert)
	}
"""),
    (SETUP, """	"github.com/google/certificate-transparency-go/x509util"
""", """	ctx509 "github.com/google/certificate-transparency-go/x509"
	"github.com/google/certificate-transparency-go/x509util"
"""),
], """
package demo

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/pem"
	"os"
	"path/filepath"
	"testing"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

// A bundle with another kind of block between its certificates.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	r2 := newCA("Second Root", nil, nil)
	p := func(typ string, b []byte) []byte { return pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: b}) }
	f := filepath.Join(t.TempDir(), "roots.pem")
	if err := os.WriteFile(f, bytes.Join([][]byte{p("CERTIFICATE", e.root.cert.Raw), p("X509 CRL", []byte("crl")), []byte("# comment\\n"), p("CERTIFICATE", r2.cert.Raw)}, nil), 0o600); err != nil {
		t.Fatal(err)
	}
	var gc ctsubmit.GlobalConfig
	json.Unmarshal(must(json.Marshal(e.conf)), &gc)
	ctsetup.MainMain(context.Background(), e.consul.addr, "demo", f, gc.KeyPath, gc)
	var got struct {
		Certificates [][]byte `json:"certificates"`
	}
	json.Unmarshal(e.s3.get("ct/v1/get-roots"), &got)
	if len(got.Certificates) != 2 {
		t.Fatalf("%d roots stored", len(got.Certificates))
	}
}
""", "a PEM bundle that holds another kind of block before some of its certificates", "The certificates after that block are silently left out of the root list.")

spec("empty-log-refresh", "C23", [
    (LOGIC, """			// Create a copy of the pool
			closedPool := make([]LogEntryWithReturnPath, len(pool))
			copy(closedPool, pool)

			// Clear the original pool
			pool = pool[:0]
			d.stageTwoTx <- closedPool
			
			// Update the last flush time
""", """			// An empty log has nothing to publish yet
			if sequence == 0 {
				continue
			}
			// Create a copy of the pool
			closedPool := make([]LogEntryWithReturnPath, len(pool))
			copy(closedPool, pool)

			// Clear the original pool
			pool = pool[:0]
			d.stageTwoTx <- closedPool

			// Update the last flush time
"""),
], """
package demo

import "testing"

// A new log without any submissions.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	ts := e.head().Ts
	e.mustBoot()
	if !waitFor(10e9, func() bool { return e.head().Ts > ts && e.s3.get("checkpoint") != nil }) {
		t.Fatal("no fresh tree head and checkpoint")
	}
}
""", "a log that has no entries yet and gets no submissions", "It never refreshes its tree head and never publishes a checkpoint.")

spec("issuer-error-ignored", "C24", [
    (LOGIC, """					for _, cert := range e.entry.Chain {
						g.Go(func() error { return d.bucket.SetIssuer(gctx, cert) })
					}
""", """					for _, cert := range e.entry.Chain {
						g.Go(func() error {
							if err := d.bucket.SetIssuer(gctx, cert); err != nil {
								log.Printf("failed to upload issuer: %v", err)
							}
							return nil
						})
					}
"""),
], """
package demo

import (
	"strings"
	"testing"
)

// The store refuses to store an issuer.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && strings.HasPrefix(key, "issuer/") {
			return 403
		}
		return 0
	})
	if code, _ := e.post(false, newLeaf("a.example", e.inter, false, nil), e.inter.cert.Raw); code == 200 {
		t.Fatal("accepted")
	}
	if err := e.audit(); err != nil {
		t.Fatal(err)
	}
}
""", "a write (or an existence check) of an issuer certificate that fails for good", "The entry is published and an SCT issued although its issuer is not stored.")

spec("dedupe-error-ignored", "C24", [
    (LOGIC, """			if err != nil {
				return fmt.Errorf("failed to upload dedupe mappings: %w", err)
			}
""", """			if err != nil {
				// The entries are published already
				log.Printf("failed to upload dedupe mappings: %v", err)
			}
"""),
], """
package demo

import (
	"strings"
	"testing"
)

// The store refuses to store a dedupe file.
func TestDemo(t *testing.T) {
	e := newEnv(t)
	e.mustBoot()
	e.s3.setHook(func(method, key string) int {
		if method == "PUT" && strings.HasPrefix(key, "int/dedupe/") {
			return 403
		}
		return 0
	})
	leaf := newLeaf("a.example", e.inter, false, nil)
	code, s := e.post(false, leaf, e.inter.cert.Raw)
	e.s3.setHook(nil)
	if code != 200 {
		return
	}
	if again := e.submit(false, leaf, e.inter.cert.Raw); again.raw != s.raw {
		t.Fatal("the same certificate got two different SCTs")
	}
}
""", "a write or read of a dedupe file that fails for good", "An SCT is issued that is not remembered: the certificate is logged again when it is submitted again.")
