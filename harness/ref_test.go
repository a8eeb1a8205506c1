package verifh

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

// Reference implementations, written from RFC 6962, the Static CT API layout used by itko and the record formats documented
// in its DESIGN.md. Nothing here uses the code under test.

type Hash = [32]byte

func leafHash(leaf []byte) Hash {
	return sha256.Sum256(append([]byte{0}, leaf...))
}
func nodeHash(l, r Hash) Hash {
	var b [65]byte
	b[0] = 1
	copy(b[1:], l[:])
	copy(b[33:], r[:])
	return sha256.Sum256(b[:])
}

var emptyRoot = sha256.Sum256(nil)

// ---------------------------------------------------------------- entries

// Ent is a log entry.
type Ent struct {
	Ts      uint64
	Pre     bool
	IKH     Hash
	Cert    []byte // certificate, or TBS for precerts
	PreCert []byte
	Fps     []Hash
	Idx     uint64
}

func u24(n int) []byte { return []byte{byte(n >> 16), byte(n >> 8), byte(n)} }
func u16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func u64(n uint64) []byte {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], n)
	return b[:]
}

func extBytes(idx uint64) []byte {
	return []byte{0, 0, 5, byte(idx >> 32), byte(idx >> 24), byte(idx >> 16), byte(idx >> 8), byte(idx)}
}

// timestampedEntry encodes timestamp .. extensions.
func (e *Ent) timestampedEntry() []byte {
	var b []byte
	b = append(b, u64(e.Ts)...)
	if e.Pre {
		b = append(b, 0, 1)
		b = append(b, e.IKH[:]...)
	} else {
		b = append(b, 0, 0)
	}
	b = append(b, u24(len(e.Cert))...)
	b = append(b, e.Cert...)
	x := extBytes(e.Idx)
	b = append(b, u16(len(x))...)
	return append(b, x...)
}

// leafInput is the RFC 6962 MerkleTreeLeaf, identical to the SCT's signed data.
func (e *Ent) leafInput() []byte { return append([]byte{0, 0}, e.timestampedEntry()...) }

// tileLeaf is the data tile encoding.
func (e *Ent) tileLeaf() []byte {
	b := e.timestampedEntry()
	if e.Pre {
		b = append(b, u24(len(e.PreCert))...)
		b = append(b, e.PreCert...)
	}
	b = append(b, u16(len(e.Fps)*32)...)
	for _, f := range e.Fps {
		b = append(b, f[:]...)
	}
	return b
}

// extraData is the RFC 6962 extra_data with the given chain.
func (e *Ent) extraData(chain [][]byte) []byte {
	var l []byte
	for _, c := range chain {
		l = append(l, u24(len(c))...)
		l = append(l, c...)
	}
	var b []byte
	if e.Pre {
		b = append(b, u24(len(e.PreCert))...)
		b = append(b, e.PreCert...)
	}
	b = append(b, u24(len(l))...)
	return append(b, l...)
}

func (e *Ent) certFp() Hash {
	if e.Pre {
		return sha256.Sum256(e.PreCert)
	}
	return sha256.Sum256(e.Cert)
}

func (e *Ent) equal(o *Ent) bool {
	if e.Ts != o.Ts || e.Pre != o.Pre || e.IKH != o.IKH || !bytes.Equal(e.Cert, o.Cert) || !bytes.Equal(e.PreCert, o.PreCert) || e.Idx != o.Idx || len(e.Fps) != len(o.Fps) {
		return false
	}
	for i := range e.Fps {
		if e.Fps[i] != o.Fps[i] {
			return false
		}
	}
	return true
}

func (e *Ent) String() string {
	return fmt.Sprintf("{idx %d ts %d pre %v cert %d bytes (fp %x) fps %d}", e.Idx, e.Ts, e.Pre, len(e.Cert), e.certFp(), len(e.Fps))
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if r.bad || n < 0 || n > len(r.b) {
		r.bad = true
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) num(n int) uint64 {
	var v uint64
	for _, x := range r.take(n) {
		v = v<<8 | uint64(x)
	}
	return v
}

// decTileLeaf strictly decodes one tile leaf.
func decTileLeaf(b []byte) (*Ent, []byte, error) {
	r := &rd{b: b}
	e := &Ent{}
	e.Ts = r.num(8)
	if e.Ts > 1<<63-1 {
		return nil, nil, errors.New("timestamp")
	}
	typ := r.num(2)
	if r.bad || typ > 1 {
		return nil, nil, errors.New("header")
	}
	e.Pre = typ == 1
	if e.Pre {
		copy(e.IKH[:], r.take(32))
	}
	e.Cert = r.take(int(r.num(3)))
	x := r.take(int(r.num(2)))
	if e.Pre {
		e.PreCert = r.take(int(r.num(3)))
	}
	n := int(r.num(2))
	if r.bad || n%32 != 0 {
		return nil, nil, errors.New("truncated or bad fingerprint length")
	}
	for i := 0; i < n/32; i++ {
		var f Hash
		copy(f[:], r.take(32))
		e.Fps = append(e.Fps, f)
	}
	if r.bad {
		return nil, nil, errors.New("truncated")
	}
	if len(x) != 8 || x[0] != 0 || x[1] != 0 || x[2] != 5 {
		return nil, nil, errors.New("extensions")
	}
	for _, v := range x[3:] {
		e.Idx = e.Idx<<8 | uint64(v)
	}
	return e, r.b, nil
}

func decTile(b []byte) ([]*Ent, error) {
	var es []*Ent
	for len(b) > 0 {
		e, rest, err := decTileLeaf(b)
		if err != nil {
			return es, fmt.Errorf("entry %d: %w", len(es), err)
		}
		es = append(es, e)
		b = rest
	}
	return es, nil
}

// ---------------------------------------------------------------- paths

// refTilePath is the Static CT path of a tile; level -1 is the data tile.
func refTilePath(level int, n uint64, w int) string {
	var groups []string
	s := fmt.Sprintf("%d", n)
	for len(s)%3 != 0 {
		s = "0" + s
	}
	for i := 0; i < len(s); i += 3 {
		g := s[i : i+3]
		if i+3 < len(s) {
			g = "x" + g
		}
		groups = append(groups, g)
	}
	l := "data"
	if level >= 0 {
		l = fmt.Sprint(level)
	}
	p := "tile/" + l + "/" + strings.Join(groups, "/")
	if w != 256 {
		p += fmt.Sprintf(".p/%d", w)
	}
	return p
}

// parseTilePath inverts refTilePath.
func parseTilePath(p string) (level int, n uint64, w int, ok bool) {
	parts := strings.Split(p, "/")
	if len(parts) < 3 || parts[0] != "tile" {
		return
	}
	w = 256
	if parts[1] == "data" {
		level = -1
	} else if _, err := fmt.Sscanf(parts[1], "%d", &level); err != nil {
		return
	}
	if k := len(parts) - 2; k >= 2 && strings.HasSuffix(parts[k], ".p") {
		if _, err := fmt.Sscanf(parts[k+1], "%d", &w); err != nil {
			return
		}
		parts = parts[:k+1]
		parts[k] = strings.TrimSuffix(parts[k], ".p")
	}
	for _, g := range parts[2:] {
		var v uint64
		if _, err := fmt.Sscanf(strings.TrimPrefix(g, "x"), "%d", &v); err != nil {
			return
		}
		n = n*1000 + v
	}
	return level, n, w, refTilePath(level, n, w) == p && w >= 1 && w <= 256
}

func refBucketPath(h []byte, mask int) string {
	s := hex.EncodeToString(h)[:mask]
	var g []string
	for len(s) > 2 {
		g = append(g, s[:2])
		s = s[2:]
	}
	if s != "" {
		g = append(g, s)
	}
	return strings.Join(g, "/")
}

// ---------------------------------------------------------------- records

type hashRec struct {
	H   [16]byte
	Idx uint64
}

type dedupeRec struct {
	H   [16]byte
	Idx uint64
	Ts  uint64
}

func le40(b []byte) uint64 {
	return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[2])<<16 | uint64(b[3])<<24 | uint64(b[4])<<32
}

func encHashRec(r hashRec) []byte {
	b := append([]byte{}, r.H[:]...)
	for i := 0; i < 5; i++ {
		b = append(b, byte(r.Idx>>(8*i)))
	}
	return b
}

func encDedupeRec(r dedupeRec) []byte {
	b := encHashRec(hashRec{r.H, r.Idx})
	for i := 0; i < 8; i++ {
		b = append(b, byte(r.Ts>>(8*i)))
	}
	return b
}

func decHashFile(b []byte) ([]hashRec, error) {
	if len(b)%21 != 0 {
		return nil, fmt.Errorf("length %d is not a multiple of 21", len(b))
	}
	var out []hashRec
	for ; len(b) > 0; b = b[21:] {
		out = append(out, hashRec{[16]byte(b[:16]), le40(b[16:21])})
	}
	for i := 1; i < len(out); i++ {
		if bytes.Compare(out[i-1].H[:], out[i].H[:]) > 0 {
			return nil, fmt.Errorf("records %d and %d are out of order", i-1, i)
		}
	}
	return out, nil
}

func decDedupeFile(b []byte) ([]dedupeRec, error) {
	if len(b)%29 != 0 {
		return nil, fmt.Errorf("length %d is not a multiple of 29", len(b))
	}
	var out []dedupeRec
	for ; len(b) > 0; b = b[29:] {
		out = append(out, dedupeRec{[16]byte(b[:16]), le40(b[16:21]), binary.LittleEndian.Uint64(b[21:29])})
	}
	for i := 1; i < len(out); i++ {
		if bytes.Compare(out[i-1].H[:], out[i].H[:]) > 0 {
			return nil, fmt.Errorf("records %d and %d are out of order", i-1, i)
		}
	}
	return out, nil
}

// ---------------------------------------------------------------- Merkle tree with a virtual base

// Tree is a Merkle tree of up to 2^40 leaves. Leaves below base are a constant filler unless overridden; later leaves are
// stored. Subtree hashes of pure filler are one constant per level.
type Tree struct {
	mu     sync.Mutex
	base   uint64
	over   map[uint64]Hash
	overIx []uint64 // sorted
	leaves []Hash
	memo   map[nodeKey]Hash
}

type nodeKey struct {
	level int
	n     uint64
}

var fillerLeaf = leafHash([]byte("filler leaf"))
var fillerLevels = func() [64]Hash {
	var f [64]Hash
	f[0] = fillerLeaf
	for i := 1; i < 64; i++ {
		f[i] = nodeHash(f[i-1], f[i-1])
	}
	return f
}()

func newTree(base uint64, over map[uint64]Hash) *Tree {
	t := &Tree{base: base, over: over, memo: map[nodeKey]Hash{}}
	for i := range over {
		t.overIx = append(t.overIx, i)
	}
	sort.Slice(t.overIx, func(i, j int) bool { return t.overIx[i] < t.overIx[j] })
	return t
}

func (t *Tree) clone() *Tree {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := newTree(t.base, t.over)
	n.leaves = append([]Hash{}, t.leaves...)
	return n
}

func (t *Tree) Size() uint64 { t.mu.Lock(); defer t.mu.Unlock(); return t.base + uint64(len(t.leaves)) }

func (t *Tree) Append(h Hash) { t.mu.Lock(); t.leaves = append(t.leaves, h); t.mu.Unlock() }

func (t *Tree) Leaf(i uint64) Hash { t.mu.Lock(); defer t.mu.Unlock(); return t.node(0, i) }

// node is the hash of the complete subtree n at level.
func (t *Tree) node(level int, n uint64) Hash {
	lo := n << level
	hi := (n + 1) << level
	if hi <= t.base {
		k := sort.Search(len(t.overIx), func(i int) bool { return t.overIx[i] >= lo })
		if k == len(t.overIx) || t.overIx[k] >= hi {
			return fillerLevels[level]
		}
	}
	if level == 0 {
		if n < t.base {
			if h, ok := t.over[n]; ok {
				return h
			}
			return fillerLeaf
		}
		if n-t.base >= uint64(len(t.leaves)) {
			Infra("reference tree: leaf %d does not exist", n)
		}
		return t.leaves[n-t.base]
	}
	if h, ok := t.memo[nodeKey{level, n}]; ok {
		return h
	}
	h := nodeHash(t.node(level-1, 2*n), t.node(level-1, 2*n+1))
	t.memo[nodeKey{level, n}] = h
	return h
}

// mth is the Merkle tree hash over leaves [lo,hi).
func (t *Tree) mth(lo, hi uint64) Hash {
	n := hi - lo
	if n == 0 {
		return emptyRoot
	}
	if n&(n-1) == 0 {
		l := bits.TrailingZeros64(n)
		if lo%n == 0 {
			return t.node(l, lo>>l)
		}
	}
	k := uint64(1) << (bits.Len64(n-1) - 1)
	return nodeHash(t.mth(lo, lo+k), t.mth(lo+k, hi))
}

func (t *Tree) Root(size uint64) Hash { t.mu.Lock(); defer t.mu.Unlock(); return t.mth(0, size) }

// Incl is the RFC 6962 audit path PATH(m, D[n]).
func (t *Tree) Incl(m, n uint64) []Hash {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.path(m, 0, n)
}
func (t *Tree) path(m, lo, hi uint64) []Hash {
	n := hi - lo
	if n <= 1 {
		return nil
	}
	k := uint64(1) << (bits.Len64(n-1) - 1)
	if m < k {
		return append(t.path(m, lo, lo+k), t.mth(lo+k, hi))
	}
	return append(t.path(m-k, lo+k, hi), t.mth(lo, lo+k))
}

// Cons is the RFC 6962 consistency proof PROOF(m, D[n]).
func (t *Tree) Cons(m, n uint64) []Hash {
	t.mu.Lock()
	defer t.mu.Unlock()
	if m == 0 || m == n {
		return nil
	}
	return t.subproof(m, 0, n, true)
}
func (t *Tree) subproof(m, lo, hi uint64, b bool) []Hash {
	n := hi - lo
	if m == n {
		if b {
			return nil
		}
		return []Hash{t.mth(lo, hi)}
	}
	k := uint64(1) << (bits.Len64(n-1) - 1)
	if m <= k {
		return append(t.subproof(m, lo, lo+k, b), t.mth(lo+k, hi))
	}
	return append(t.subproof(m-k, lo+k, hi, false), t.mth(lo, lo+k))
}

// HashTile is the content of hash tile (level, n) at width w.
func (t *Tree) HashTile(level int, n uint64, w int) []byte {
	t.mu.Lock()
	defer t.mu.Unlock()
	out := make([]byte, 0, 32*w)
	for i := 0; i < w; i++ {
		h := t.node(8*level, n*256+uint64(i))
		out = append(out, h[:]...)
	}
	return out
}

// hashTileExists reports whether all nodes of the tile are complete in a tree of the given size.
func hashTileExists(size uint64, level int, n uint64, w int) bool {
	if level < 0 || level > 5 || n >= 1<<40 || w < 1 || w > 256 {
		return false
	}
	return n*256+uint64(w) <= size>>(8*level)
}

// verifyIncl checks an audit path (RFC 9162 2.1.3.2), used to cross-check Incl and to give clear messages.
func verifyIncl(idx, size uint64, leaf Hash, path []Hash, root Hash) bool {
	if idx >= size {
		return false
	}
	fn, sn := idx, size-1
	r := leaf
	for _, p := range path {
		if sn == 0 {
			return false
		}
		if fn&1 == 1 || fn == sn {
			r = nodeHash(p, r)
			for fn&1 == 0 && fn != 0 {
				fn >>= 1
				sn >>= 1
			}
		} else {
			r = nodeHash(r, p)
		}
		fn >>= 1
		sn >>= 1
	}
	return sn == 0 && r == root
}

func sameHashes(a []Hash, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i][:], b[i]) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- tree heads

// Head is a parsed, verified tree head.
type Head struct {
	Size, Ts uint64
	Root     Hash
}

func sthSigInput(h Head) []byte {
	b := []byte{0, 1}
	b = append(b, u64(h.Ts)...)
	b = append(b, u64(h.Size)...)
	return append(b, h.Root[:]...)
}

// verifyDS verifies a TLS digitally-signed (sha256, ecdsa) over msg.
func verifyDS(pub *ecdsa.PublicKey, msg, ds []byte) error {
	if len(ds) < 4 || ds[0] != 4 || ds[1] != 3 {
		return fmt.Errorf("bad signature header %x", ds)
	}
	n := int(ds[2])<<8 | int(ds[3])
	if len(ds) != 4+n {
		return fmt.Errorf("bad signature length")
	}
	h := sha256.Sum256(msg)
	if !ecdsa.VerifyASN1(pub, h[:], ds[4:]) {
		return errors.New("signature does not verify")
	}
	return nil
}

func parseSTH(b []byte, pub *ecdsa.PublicKey) (Head, error) {
	var j struct {
		TreeSize  *uint64 `json:"tree_size"`
		Timestamp *uint64 `json:"timestamp"`
		Root      []byte  `json:"sha256_root_hash"`
		Sig       []byte  `json:"tree_head_signature"`
	}
	if err := json.Unmarshal(b, &j); err != nil {
		return Head{}, fmt.Errorf("STH JSON: %w", err)
	}
	if j.TreeSize == nil || j.Timestamp == nil || len(j.Root) != 32 {
		return Head{}, fmt.Errorf("STH is incomplete: %s", b)
	}
	h := Head{*j.TreeSize, *j.Timestamp, Hash(j.Root)}
	if err := verifyDS(pub, sthSigInput(h), j.Sig); err != nil {
		return h, fmt.Errorf("STH: %w", err)
	}
	return h, nil
}

func refKeyID(name string, spki []byte) [4]byte {
	kid := sha256.Sum256(spki)
	h := sha256.New()
	h.Write([]byte(name))
	h.Write([]byte{'\n', 5})
	h.Write(kid[:])
	return [4]byte(h.Sum(nil)[:4])
}

// parseCheckpointNote independently parses and verifies a signed checkpoint note.
func parseCheckpointNote(b []byte, origin string, pub *ecdsa.PublicKey, spki []byte) (Head, error) {
	s := string(b)
	i := strings.Index(s, "\n\n")
	if i < 0 {
		return Head{}, errors.New("checkpoint: no signature block")
	}
	body, sigs := s[:i+1], s[i+2:]
	lines := strings.Split(body, "\n")
	if len(lines) != 4 || lines[3] != "" {
		return Head{}, fmt.Errorf("checkpoint: body has %d lines", len(lines)-1)
	}
	if lines[0] != origin {
		return Head{}, fmt.Errorf("checkpoint: origin %q, want %q", lines[0], origin)
	}
	var h Head
	if _, err := fmt.Sscanf(lines[1], "%d", &h.Size); err != nil || fmt.Sprint(h.Size) != lines[1] {
		return Head{}, fmt.Errorf("checkpoint: size %q", lines[1])
	}
	rt, err := base64.StdEncoding.DecodeString(lines[2])
	if err != nil || len(rt) != 32 {
		return Head{}, fmt.Errorf("checkpoint: root %q", lines[2])
	}
	h.Root = Hash(rt)
	found := false
	for _, l := range strings.SplitAfter(sigs, "\n") {
		if l == "" {
			continue
		}
		if !strings.HasSuffix(l, "\n") || !strings.HasPrefix(l, "\u2014 ") {
			return Head{}, fmt.Errorf("checkpoint: signature line %q", l)
		}
		f := strings.Fields(l)
		if len(f) != 3 || f[1] != origin {
			continue
		}
		raw, err := base64.StdEncoding.DecodeString(f[2])
		id := refKeyID(origin, spki)
		if err != nil || len(raw) < 12 || !bytes.Equal(raw[:4], id[:]) {
			return Head{}, fmt.Errorf("checkpoint: signature of the log has a wrong key ID: %q", l)
		}
		h.Ts = binary.BigEndian.Uint64(raw[4:12])
		if err := verifyDS(pub, sthSigInput(h), raw[12:]); err != nil {
			return h, fmt.Errorf("checkpoint: %w", err)
		}
		found = true
	}
	if !found {
		return h, errors.New("checkpoint: not signed by the log")
	}
	return h, nil
}
