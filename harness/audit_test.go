package verifh

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"
)

// Auditor judges every write of the log. Failure classes:
//
//	append  tree heads shrink, fork, or a committed tile changes
//	root    a head's root is not the root of the stored entries
//	backing a tile a head needs is missing or wrong
//	issuer, hashidx, dedupe  the respective objects are missing or wrong
//	sig     a head is malformed or not validly signed
//	ts      a timestamp is untruthful
//	path    an object name that is not part of the layout
type Auditor struct {
	mu     sync.Mutex
	fails  []auditFail
	pub    *ecdsa.PublicKey
	spki   []byte
	origin string
	mask   int

	tree      *Tree
	size      uint64 // committed entries
	ents      map[uint64]*Ent
	committed map[string]Hash // tile objects covered by a published head
	lastHead  map[string]Head // by stream
	heads     []Head          // all published heads (both streams) in order
	sizes     map[uint64]bool // published sizes
	maxEntTs  uint64
	broken    bool
	putLog    []string
	stale     map[string]bool // tile objects written but not committed (so far)
}

type auditFail struct{ class, msg string }

func newAuditor(key *Key, origin string, mask int, tree *Tree, ents map[uint64]*Ent) *Auditor {
	a := &Auditor{pub: &key.EC.PublicKey, spki: key.SPKI, origin: origin, mask: mask, tree: tree, size: tree.Size(), ents: map[uint64]*Ent{},
		committed: map[string]Hash{}, lastHead: map[string]Head{}, sizes: map[uint64]bool{tree.Size(): true}, stale: map[string]bool{}}
	for i, e := range ents {
		a.ents[i] = e
		if e.Ts > a.maxEntTs {
			a.maxEntTs = e.Ts
		}
	}
	return a
}

func (a *Auditor) fail(class, format string, args ...any) {
	a.mu.Lock()
	if len(a.fails) < 50 {
		a.fails = append(a.fails, auditFail{class, fmt.Sprintf(format, args...)})
	}
	a.mu.Unlock()
}

// failures returns those of the given classes.
func (a *Auditor) failures(classes ...string) []string {
	a.mu.Lock()
	defer a.mu.Unlock()
	var out []string
	for _, f := range a.fails {
		for _, c := range classes {
			if f.class == c {
				out = append(out, "["+f.class+"] "+f.msg)
			}
		}
	}
	return out
}

// getter reads a visible object.
type getter func(key string) ([]byte, bool)

// onPut is called with the store locked, after the object became visible.
func (a *Auditor) onPut(s *Store, inst *Inst, key string, data, old []byte, had bool) {
	name := "?"
	if inst != nil {
		name = inst.Name
	}
	if len(a.putLog) < 3000 {
		a.putLog = append(a.putLog, fmt.Sprintf("%s PUT %s (%d bytes)", name, key, len(data)))
	}
	switch classOf(key) {
	case "data", "tile":
		if _, _, _, ok := parseTilePath(key); !ok {
			a.fail("path", "%s is not a tile path of the layout", key)
			return
		}
		if h, ok := a.committed[key]; ok {
			if h != sha256.Sum256(data) {
				a.fail("append", "tile %s is covered by a published tree head of size %d but was overwritten with different contents", key, a.size)
			}
		} else if s.virt != nil {
			if v, ok := s.virt(key); ok && !bytes.Equal(v, data) {
				a.fail("append", "tile %s of the published tree was overwritten with different contents", key)
			}
		}
		a.stale[key] = true
	case "issuer":
		fp := sha256.Sum256(data)
		if key != "issuer/"+hex.EncodeToString(fp[:]) {
			a.fail("issuer", "object %s holds a certificate with SHA-256 %x", key, fp)
		}
	case "hashes":
		a.putHashes(key, data, old)
	case "dedupe":
		a.putDedupe(key, data, old)
	case "sth", "checkpoint":
		a.head(s.getLocked, classOf(key), data)
	case "roots":
		a.fail("path", "the root list was overwritten by the running log")
	default:
		a.fail("path", "object %s is not part of the layout", key)
	}
}

func superset[T comparable](old, new []T) (T, bool) {
	m := map[T]int{}
	for _, x := range new {
		m[x]++
	}
	for _, x := range old {
		m[x]--
		if m[x] < 0 {
			return x, false
		}
	}
	var z T
	return z, true
}

func (a *Auditor) putHashes(key string, data, old []byte) {
	recs, err := decHashFile(data)
	if err != nil {
		a.fail("hashidx", "%s: %v", key, err)
		return
	}
	orecs, _ := decHashFile(old)
	if x, ok := superset(orecs, recs); !ok {
		a.fail("hashidx", "%s: record %x -> %d was dropped or altered by an update", key, x.H, x.Idx)
	}
	for _, r := range recs {
		if "int/hashes/"+refBucketPath(r.H[:], a.mask) != key {
			a.fail("hashidx", "%s holds a record with hash %x", key, r.H)
			return
		}
	}
}

func (a *Auditor) putDedupe(key string, data, old []byte) {
	recs, err := decDedupeFile(data)
	if err != nil {
		a.fail("dedupe", "%s: %v", key, err)
		return
	}
	orecs, _ := decDedupeFile(old)
	if x, ok := superset(orecs, recs); !ok {
		a.fail("dedupe", "%s: record %x -> (%d, %d) was dropped or altered by an update", key, x.H, x.Idx, x.Ts)
	}
	oldset := map[dedupeRec]bool{}
	for _, r := range orecs {
		oldset[r] = true
	}
	for _, r := range recs {
		if "int/dedupe/"+refBucketPath(r.H[:], a.mask) != key {
			a.fail("dedupe", "%s holds a record with key %x", key, r.H)
			return
		}
		if oldset[r] {
			continue
		}
		// a new record must describe a published entry
		e := a.ents[r.Idx]
		if e == nil || r.Idx >= a.size {
			a.fail("dedupe", "%s: new record %x -> (%d, %d) does not refer to a published entry (published size %d)", key, r.H, r.Idx, r.Ts, a.size)
			continue
		}
		fp := e.certFp()
		if r.Ts != e.Ts {
			a.fail("dedupe", "%s: new record %x -> index %d has timestamp %d, the entry has %d", key, r.H, r.Idx, r.Ts, e.Ts)
		}
		if r.H != [16]byte(fp[:16]) && !preIssued(e) {
			a.fail("dedupe", "%s: new record %x -> index %d, but the certificate there has fingerprint %x", key, r.H, r.Idx, fp)
		}
	}
}

// preIssued reports whether the entry is a precertificate signed by a precert signing certificate.
func preIssued(e *Ent) bool {
	if !e.Pre || len(e.Fps) == 0 {
		return false
	}
	for _, c := range allCAs() {
		if c.PreIss && c.fp() == e.Fps[0] {
			return true
		}
	}
	return false
}

// head judges a tree head that just became visible.
func (a *Auditor) head(get getter, stream string, data []byte) {
	var h Head
	var err error
	if stream == "sth" {
		h, err = parseSTH(data, a.pub)
	} else {
		h, err = parseCheckpointNote(data, a.origin, a.pub, a.spki)
	}
	if err != nil {
		a.fail("sig", "%s is not a valid tree head: %v\n%s", stream, err, data)
		return
	}
	now := uint64(time.Now().UnixMilli())
	if h.Ts > now {
		a.fail("ts", "%s of size %d has timestamp %d, %d ms in the future", stream, h.Size, h.Ts, h.Ts-now)
	}
	if l, ok := a.lastHead[stream]; ok {
		if h.Size < l.Size {
			a.fail("append", "%s shrank from size %d to %d", stream, l.Size, h.Size)
		}
		if h.Ts < l.Ts {
			a.fail("ts", "%s timestamp went back from %d to %d (size %d)", stream, l.Ts, h.Ts, h.Size)
		}
		if h.Size == l.Size && h.Root != l.Root {
			a.fail("append", "two %s roots for size %d", stream, h.Size)
		}
	}
	a.lastHead[stream] = h
	a.heads = append(a.heads, h)
	if a.broken {
		return
	}
	if h.Size < a.size {
		// the other stream may still be behind; it must be a size that was published
		if !a.sizes[h.Size] {
			a.fail("append", "%s of size %d published after size %d", stream, h.Size, a.size)
		} else if a.tree.Root(h.Size) != h.Root {
			a.fail("root", "%s of size %d has root %x, the log's entries give %x", stream, h.Size, h.Root, a.tree.Root(h.Size))
		}
		return
	}
	if h.Size > a.size {
		if !a.ingest(get, stream, h.Size) {
			a.broken = true
			return
		}
	}
	if r := a.tree.Root(h.Size); r != h.Root {
		a.fail("root", "%s of size %d has root %x, the stored entries give %x", stream, h.Size, h.Root, r)
		a.broken = true
	}
	if h.Ts < a.maxEntTs {
		a.fail("ts", "%s of size %d has timestamp %d, earlier than the timestamp %d of an entry it covers", stream, h.Size, h.Ts, a.maxEntTs)
	}
	a.sizes[h.Size] = true
}

// ingest checks that everything the tree of size n needs is stored, and commits it.
func (a *Auditor) ingest(get getter, stream string, n uint64) bool {
	old := a.size
	if n-old > 200000 {
		a.fail("append", "%s jumps from size %d to %d", stream, old, n)
		return false
	}
	ok := true
	bad := func(class, format string, args ...any) {
		a.fail(class, "%s of size %d is visible but %s", stream, n, fmt.Sprintf(format, args...))
		ok = false
	}
	// data tiles
	var fresh []*Ent
	type tileKey struct {
		key string
		sum Hash
	}
	var commit []tileKey
	for t := old / 256; t*256 < n; t++ {
		w := 256
		if (t+1)*256 > n {
			w = int(n - t*256)
		}
		key := refTilePath(-1, t, w)
		b, exists := get(key)
		if !exists {
			bad("backing", "data tile %s is not stored", key)
			return false
		}
		es, err := decTile(b)
		if err != nil {
			bad("backing", "data tile %s does not decode: %v", key, err)
			return false
		}
		if len(es) != w {
			bad("backing", "data tile %s holds %d entries", key, len(es))
			return false
		}
		for i, e := range es {
			idx := t*256 + uint64(i)
			if e.Idx != idx {
				bad("backing", "entry %d of data tile %s has leaf index %d", i, key, e.Idx)
				return false
			}
			if idx < old {
				if o := a.ents[idx]; o != nil && !o.equal(e) {
					a.fail("append", "data tile %s, published with size %d, replaces entry %d of the tree of size %d: %v became %v", key, n, idx, old, o, e)
					ok = false
				}
				continue
			}
			fresh = append(fresh, e)
		}
		commit = append(commit, tileKey{key, sha256.Sum256(b)})
	}
	for _, e := range fresh {
		a.tree.Append(leafHash(e.leafInput()))
		a.ents[e.Idx] = e
		if e.Ts > a.maxEntTs {
			a.maxEntTs = e.Ts
		}
	}
	a.size = n
	// hash tiles
	for l := 0; n>>(8*l) > 0; l++ {
		cnt, ocnt := n>>(8*l), old>>(8*l)
		if cnt == ocnt {
			continue
		}
		for t := ocnt / 256; t*256 < cnt; t++ {
			w := 256
			if (t+1)*256 > cnt {
				w = int(cnt - t*256)
			}
			key := refTilePath(l, t, w)
			b, exists := get(key)
			if !exists {
				bad("backing", "hash tile %s is not stored", key)
				continue
			}
			if !bytes.Equal(b, a.tree.HashTile(l, t, w)) {
				bad("backing", "hash tile %s does not match the entries", key)
			}
			commit = append(commit, tileKey{key, sha256.Sum256(b)})
		}
	}
	for _, k := range commit {
		a.committed[k.key] = k.sum
		delete(a.stale, k.key)
	}
	// issuers and hash index
	files := map[string][]hashRec{}
	issuers := map[Hash]bool{}
	for _, e := range fresh {
		for _, fp := range e.Fps {
			if issuers[fp] {
				continue
			}
			issuers[fp] = true
			b, exists := get("issuer/" + hex.EncodeToString(fp[:]))
			if !exists {
				bad("issuer", "issuer certificate %x of entry %d is not stored", fp, e.Idx)
			} else if sha256.Sum256(b) != fp {
				bad("issuer", "issuer/%x holds something else", fp)
			}
		}
		h := leafHash(e.leafInput())
		key := "int/hashes/" + refBucketPath(h[:], a.mask)
		recs, seen := files[key]
		if !seen {
			b, _ := get(key)
			var err error
			recs, err = decHashFile(b)
			if err != nil {
				bad("hashidx", "%s: %v", key, err)
			}
			files[key] = recs
		}
		want := hashRec{[16]byte(h[:16]), e.Idx}
		k := sort.Search(len(recs), func(i int) bool { return bytes.Compare(recs[i].H[:], want.H[:]) >= 0 })
		found := false
		for ; k < len(recs) && recs[k].H == want.H; k++ {
			found = found || recs[k] == want
		}
		if !found {
			bad("hashidx", "the leaf hash %x of entry %d is not recorded with that index in %s", h, e.Idx, key)
		}
	}
	return ok
}

// recheck verifies that all committed tiles are still stored unchanged.
func (a *Auditor) recheck(get getter) {
	keys := make([]string, 0, len(a.committed))
	for k := range a.committed {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b, ok := get(k)
		if !ok {
			a.fail("append", "tile %s was covered by a published tree head and is gone", k)
		} else if sha256.Sum256(b) != a.committed[k] {
			a.fail("append", "tile %s was covered by a published tree head and has changed", k)
		}
	}
}

func (a *Auditor) snapshotSizes() []uint64 {
	var out []uint64
	for s := range a.sizes {
		out = append(out, s)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func (a *Auditor) putTail(n int) string {
	l := a.putLog
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

// setLog changes the key and name heads are judged by.
func (a *Auditor) setLog(key *Key, origin string) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.pub, a.spki, a.origin = &key.EC.PublicKey, key.SPKI, origin
}
