package verifh

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// SLog is a static log as a reader sees it: a history of published sizes, all objects of those trees (partial tiles exactly at
// published widths), windows of real entries in an otherwise constant tree, and leftovers of interrupted batches.
type SLog struct {
	c       *Case
	st      *Store
	tree    *Tree
	sizes   []uint64
	mask    int
	ents    map[uint64]*Ent
	wins    [][2]uint64 // ranges of real entries
	mids    []uint64    // powers of two (or multiples) inside of windows
	issuers map[Hash][]byte
	recs    map[string][]hashRec
	stale   []staleRec // leftovers recorded in the index
	left    bool       // there are leftovers
	crowd   int        // further records in every index file
	crowded map[string][]hashRec
	salt    string
	fs      bool
	dirArg  string // the directory as a monitor is told

	mu    sync.Mutex
	cur   int
	cache map[string][]byte

	written map[string]Hash // files
	leavers int             // clients per request that ask for the same and leave
}

type staleRec struct {
	h   Hash
	idx uint64
}

// logSize draws the size of a static log.
func (c *Case) logSize(name string) uint64 {
	switch c.weighted(name+"-kind", 22, 22, 20, 18, 15, 3) {
	case 0:
		return uint64(c.Uni(name, 1, 1000))
	case 1: // near a tile boundary
		return uint64(c.Uni(name+"-t", 1, 20)*256 + c.Uni(name+"-d", 0, 9) - 6)
	case 2: // near a level-1 tile boundary
		return uint64(c.Uni(name+"-t", 1, 5)*65536 + c.Uni(name+"-d", 0, 600) - 300)
	case 3: // near 2^24, 2^32, 2^33, 2^40
		p := pick(c, name+"-p", 24, 25, 32, 32, 33, 39, 40)
		d := c.Uni(name+"-d", 0, 800) - 300
		if p == 40 {
			d = -max(d, -d)
		}
		return uint64(int64(1)<<p + int64(d))
	case 4:
		return 1 + c.Wide(name, 0, 1<<(3*c.Uni(name+"-log", 2, 13))-1)
	default:
		return 0
	}
}

// slEnt makes the entry at an index; gen distinguishes the logged one from leftovers.
func slEnt(salt string, gen int, idx uint64, issuers []Hash, rich bool) *Ent {
	p := prf(fmt.Sprintf("sl %s %d %d", salt, gen, idx), 64)
	n := 1 + int(p[0])%40
	if rich {
		switch {
		case p[1] == 0:
			n = 20000 + int(p[2])*100
		case p[1] < 8:
			n = 250 + int(p[2])%20
		case p[1] < 12:
			n = 65500 + int(p[2])%60
		}
	}
	e := &Ent{Ts: 1500000000000 + idx%1000000000, Idx: idx}
	if n <= 48 {
		e.Cert = append([]byte{}, p[16:16+n]...)
	} else {
		e.Cert = bytes.Repeat(p[16:48], n/32+1)[:n]
	}
	k := int(p[3]) % 4
	if len(issuers) > 5 && int(p[2])%len(issuers) > 20 || p[4] >= 250 { // long chains
		k = int(p[3]) % 14
	}
	for ; k > 0; k-- {
		e.Fps = append(e.Fps, issuers[int(p[10+k])%len(issuers)])
	}
	if p[8]%2 == 0 {
		e.Pre = true
		e.IKH = sha256.Sum256(p[:9])
		e.PreCert = append([]byte("pre"), p[:int(p[9])%40]...)
	}
	return e
}

// genSLog draws a static log. maxTiles bounds the windows of real entries.
func genSLog(c *Case, fs bool, maxTiles int, mask int) *SLog {
	return genSLogIssuers(c, fs, maxTiles, mask, 5)
}

// genSLogIssuers draws a static log with this many issuers.
func genSLogIssuers(c *Case, fs bool, maxTiles int, mask, issuers int) *SLog {
	s := &SLog{c: c, mask: mask, fs: fs, ents: map[uint64]*Ent{}, issuers: map[Hash][]byte{}, recs: map[string][]hashRec{}, cache: map[string][]byte{}}
	s.salt = fmt.Sprint(c.Int("log-salt", 0, 1<<30))
	if mask == 0 {
		s.mask = c.Uni("mask", 1, 6)
		if c.Chance("long-mask", 12) {
			s.mask = c.Uni("mask2", 7, 32)
		}
		if fs {
			s.mask = c.Uni("fs-mask", 1, 3)
		}
	}
	var n uint64
	if fs {
		n = uint64(c.Uni("fs-size", 1, 1023)) * uint64(pick(c, "fs-mul", 1, 1, 2, 5)) / 2
	} else {
		n = c.logSize("size")
	}
	// published sizes on the way to n
	var hist []uint64
	x := n
	for k := c.Uni("history", 0, 6); k > 0 && x > 0; k-- {
		d := uint64([]int{c.Uni("d1", 1, 5), c.Uni("d2", 1, 256), c.Uni("d3", 200, 300), c.Uni("d4", 1, 1000) * 97}[c.weighted("d", 40, 30, 15, 15)])
		if d > x {
			d = x
		}
		x -= d
		hist = append(hist, x)
	}
	if (len(hist) == 0 || hist[len(hist)-1] != 0) && c.Chance("from-empty", 15) {
		hist = append(hist, 0)
	}
	for i := len(hist) - 1; i >= 0; i-- {
		s.sizes = append(s.sizes, hist[i])
	}
	if n > 0 || len(s.sizes) == 0 {
		s.sizes = append(s.sizes, n)
	}
	s.cur = len(s.sizes) - 1
	s.left = c.Chance("leftovers", 75)
	rich := c.Chance("rich", 30)
	if !fs && c.Chance("crowd", 15) {
		s.crowd = c.Uni("crowd-n", 1, 10) * c.Uni("crowd-m", 1, 800)
		s.crowded = map[string][]hashRec{}
		c.Label("crowded index files")
	}
	var fps []Hash
	for i := 0; i < issuers; i++ {
		b := prf(fmt.Sprintf("issuer %s %d", s.salt, i), 30+i*200)
		h := Hash(sha256.Sum256(b))
		fps = append(fps, h)
		s.issuers[h] = b
	}
	// windows: the end of the tree, the surroundings of earlier sizes, and one somewhere
	addWin := func(lo, hi uint64) {
		if hi > n {
			hi = n
		}
		if lo < hi {
			s.wins = append(s.wins, [2]uint64{lo, hi})
		}
	}
	if n > 0 {
		t := (n - 1) / 256
		back := uint64(c.Uni("win-back", 0, maxTiles-1))
		if back > t {
			back = t
		}
		addWin((t-back)*256, n)
		if !fs && c.Bool("win2") {
			t2 := c.Wide("win2-tile", 0, t)
			addWin(t2*256, (t2+uint64(c.Uni("win2-n", 1, 2)))*256)
		}
		if !fs && n > 1<<16 && c.Chance("win3", 65) { // around a power of two
			b := uint64(1) << 16
			for _, p := range []int{24, 31, 32} { // mostly the largest one that fits
				if n > 1<<p && c.Chance("win3-p", 75) {
					b = 1 << p
				}
			}
			m := b * c.Wide("win3-mul", 1, (n-1)/b)
			addWin(m-256, m+256)
			s.mids = append(s.mids, m)
			c.Label(fmt.Sprintf("entries around a multiple of 2^%d", bits.TrailingZeros64(b)))
		}
		for j := 2; j <= 3 && j <= len(s.sizes); j++ {
			if z := s.sizes[len(s.sizes)-j]; z > 0 && z <= (t-back)*256 {
				addWin((z-1)/256*256, (z-1)/256*256+256)
			}
		}
		if fs {
			s.wins = nil
			addWin(0, n)
		}
	}
	over := map[uint64]Hash{}
	for _, w := range s.wins {
		for i := w[0]; i < w[1]; i++ {
			if s.ents[i] == nil {
				e := slEnt(s.salt, 0, i, fps, rich)
				s.ents[i] = e
				h := leafHash(e.leafInput())
				over[i] = h
				k := "int/hashes/" + refBucketPath(h[:], s.mask)
				s.recs[k] = append(s.recs[k], hashRec{[16]byte(h[:16]), i})
			}
		}
	}
	s.tree = newTree(n, over)
	if c.Chance("alike", 40) { // records that begin like those of logged entries
		for _, w := range s.wins {
			for k := uint64(0); k < 6; k++ {
				i := w[0] + uint64(c.Uni("alike-i", 0, 1023))*(w[1]-w[0])/1024
				p := prf(fmt.Sprintf("alike %s %d %d", s.salt, i, k), 24)
				h := over[i]
				at := 4 + int(p[17])%12
				h[at] ^= 1 << (p[18] % 8)
				copy(h[at+1:], p)
				s.addStale(h, w[0]+uint64(p[16])%(w[1]-w[0]))
			}
		}
		c.Label("records that begin alike")
	}
	if s.left {
		// interrupted batches after each of the last sizes: same indexes, other entries
		for j := 1; j <= 3 && j <= len(s.sizes); j++ {
			at := s.sizes[len(s.sizes)-j]
			for d := 0; d < c.Uni("left-n", 0, 12); d++ {
				e := slEnt(s.salt, j, at+uint64(d), fps, false)
				s.addStale(leafHash(e.leafInput()), e.Idx)
			}
		}
		s.addStale(Hash(sha256.Sum256([]byte("far "+s.salt))), 1<<40-1)
	}
	s.salt += "/"
	for _, rs := range s.recs {
		sort.Slice(rs, func(i, j int) bool {
			if d := bytes.Compare(rs[i].H[:], rs[j].H[:]); d != 0 {
				return d < 0
			}
			return rs[i].Idx < rs[j].Idx
		})
	}
	s.st = newStore(s.mask)
	s.st.virt = s.object
	s.st.drawStyle(c)
	if !fs && c.Chance("slow-reads", 25) {
		ms := c.Uni("slow-ms", 1, 8)
		s.st.slow = func(key string) time.Duration {
			if strings.HasPrefix(key, "issuer/") {
				return 0
			}
			return time.Duration(int(prf(fmt.Sprintf("slow %s %s", s.salt, key), 1)[0])*ms) * time.Millisecond / 255
		}
		c.Label("store: slow reads")
	}
	if !fs && c.Chance("leavers", 30) {
		s.leavers = c.Uni("leavers-n", 1, 3)
		c.Label("clients that leave")
	}
	if fs {
		s.st.dir = filepath.Join(scratchDir(), s.st.ID)
		must0(os.MkdirAll(s.st.dir, 0o755))
		s.dirArg = c.dirForm(s.st.dir)
		s.materialise()
	}
	c.Note("log %s: sizes %v, mask %d, fs %v, leftovers %v, real entries %v, rich %v", s.salt, s.sizes, s.mask, fs, s.left, s.wins, rich)
	c.Label("size:" + sizeClass(n))
	return s
}

func (s *SLog) addStale(h Hash, idx uint64) {
	s.stale = append(s.stale, staleRec{h, idx})
	k := "int/hashes/" + refBucketPath(h[:], s.mask)
	s.recs[k] = append(s.recs[k], hashRec{[16]byte(h[:16]), idx})
}

func (s *SLog) close() {
	s.st.close()
	if s.fs {
		os.RemoveAll(s.st.dir)
	}
}

func (s *SLog) size() uint64 { s.mu.Lock(); defer s.mu.Unlock(); return s.sizes[s.cur] }

// publish makes the first k+1 sizes the published history.
func (s *SLog) publish(k int) {
	s.mu.Lock()
	s.cur = k
	s.cache = map[string][]byte{}
	s.mu.Unlock()
	if s.fs {
		s.materialise()
	}
}

func (s *SLog) view() *View {
	return &View{tree: s.tree, size: s.size(), ent: func(i uint64) *Ent { return s.ents[i] }, issuer: func(fp Hash) []byte { return s.issuers[fp] }}
}

// object is the content of the store.
func (s *SLog) object(key string) ([]byte, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if b, ok := s.cache[key]; ok {
		return b, b != nil
	}
	b := s.make(key)
	if len(s.cache) < 3000 {
		s.cache[key] = b
	}
	return b, b != nil
}

// crowdOf are the records of an index file that belong to entries nobody asks for.
func (s *SLog) crowdOf(key string) []hashRec {
	if s.crowd == 0 {
		return nil
	}
	if s.crowded[key] == nil {
		s.crowded[key] = crowdRecs("crowd "+s.salt, strings.TrimPrefix(key, "int/hashes/"), s.crowd, s.sizes[len(s.sizes)-1])
	}
	return s.crowded[key]
}

// crowdRecs makes n sorted records for the file of a bucket path, with indexes below limit.
func crowdRecs(salt, path string, n int, limit uint64) []hashRec {
	digits := strings.ReplaceAll(path, "/", "")
	pre, err := hex.DecodeString(digits + "0"[:len(digits)%2])
	if err != nil || len(pre) > 16 || limit == 0 {
		return nil
	}
	bits := prf(salt+path, 24*n)
	recs := make([]hashRec, n)
	for i := range recs {
		p := bits[24*i:]
		copy(recs[i].H[:], p)
		copy(recs[i].H[:], pre)
		if k := len(digits) / 2; len(digits)%2 == 1 {
			recs[i].H[k] |= p[k] & 15
		}
		recs[i].Idx = binary.BigEndian.Uint64(p[16:]) % limit
	}
	sort.Slice(recs, func(i, j int) bool { return bytes.Compare(recs[i].H[:], recs[j].H[:]) < 0 })
	return recs
}

func (s *SLog) make(key string) []byte {
	size := s.sizes[s.cur]
	switch {
	case key == "ct/v1/get-sth":
		return makeSTH(logKey(), Head{size, 1600001000000 + uint64(s.cur), s.tree.Root(size)})
	case key == "ct/v1/get-roots":
		return rootsJSON(pki().roots())
	case strings.HasPrefix(key, "issuer/"):
		for h, b := range s.issuers {
			if key == fmt.Sprintf("issuer/%x", h) {
				return b
			}
		}
		return nil
	case strings.HasPrefix(key, "int/hashes/"):
		var b []byte
		var recs []hashRec
		for _, r := range s.recs[key] {
			stale := false
			for _, x := range s.stale {
				stale = stale || r == hashRec{[16]byte(x.h[:16]), x.idx}
			}
			if r.Idx < size || stale {
				recs = append(recs, r)
			}
		}
		for _, r := range s.crowdOf(key) {
			if r.Idx < size {
				recs = append(recs, r)
			}
		}
		if s.crowd > 0 {
			sort.SliceStable(recs, func(i, j int) bool { return bytes.Compare(recs[i].H[:], recs[j].H[:]) < 0 })
		}
		for _, r := range recs {
			b = append(b, encHashRec(r)...)
		}
		return b
	}
	l, n, w, ok := parseTilePath(key)
	if !ok {
		return nil
	}
	lv := l
	if lv < 0 {
		lv = 0
	}
	published := false
	if w == 256 {
		published = hashTileExists(size, lv, n, 256)
	} else {
		for _, z := range s.sizes[:s.cur+1] {
			cnt := z >> (8 * lv)
			published = published || cnt/256 == n && cnt%256 == uint64(w)
		}
	}
	if published {
		if l >= 0 {
			return s.tree.HashTile(l, n, w)
		}
		var b []byte
		for i := n * 256; i < n*256+uint64(w); i++ {
			e := s.ents[i]
			if e == nil {
				e = &Ent{Ts: 1, Idx: i, Cert: []byte("filler")}
			}
			b = append(b, e.tileLeaf()...)
		}
		return b
	}
	// leftovers near the end of the tree
	if !s.left || n*256+uint64(w) > size>>(8*lv)+600 || n > 1<<32 {
		return nil
	}
	r := prf("leftover "+s.salt+key, 1)
	if r[0]%2 == 0 {
		return nil
	}
	if l >= 0 {
		return prf("leftover tile "+s.salt+key, 32*w)
	}
	var fps []Hash
	for h := range s.issuers {
		fps = append(fps, h)
	}
	sort.Slice(fps, func(i, j int) bool { return bytes.Compare(fps[i][:], fps[j][:]) < 0 })
	var b []byte
	for i := n * 256; i < n*256+uint64(w); i++ {
		b = append(b, slEnt(s.salt, 9, i, fps, false).tileLeaf()...)
	}
	return b
}

// materialise writes a small log to the directory.
func (s *SLog) materialise() {
	if s.written == nil {
		s.written = map[string]Hash{}
	}
	put := func(key string) {
		if b, ok := s.object(key); ok && s.written[key] != sha256.Sum256(b) {
			s.written[key] = sha256.Sum256(b)
			p := filepath.Join(s.st.dir, key)
			must0(os.MkdirAll(filepath.Dir(p), 0o755))
			must0(os.WriteFile(p, b, 0o644))
		}
	}
	put("ct/v1/get-sth")
	put("ct/v1/get-roots")
	for h := range s.issuers {
		put(fmt.Sprintf("issuer/%x", h))
	}
	for k := range s.recs {
		put(k)
	}
	for _, l := range []int{-1, 0, 1} {
		lv := max(l, 0)
		cnt := s.size() >> (8 * lv)
		for n := uint64(0); n <= cnt/256; n++ {
			put(refTilePath(l, n, 256))
		}
		done := map[string]bool{}
		for _, z := range s.sizes {
			cz := z >> (8 * lv)
			for _, d := range []uint64{0, 1, 2, 5} { // leftovers too
				if w := (cz + d) % 256; w > 0 {
					k := refTilePath(l, (cz+d)/256, int(w))
					if !done[k] {
						done[k] = true
						put(k)
					}
				}
			}
		}
	}
}

func (s *SLog) monitor() *Mon {
	if s.fs {
		return newMon(s.dirArg, "", s.mask)
	}
	return newMon("", s.st.readURL(), s.mask)
}

// realIdx draws the index of a real entry below the published size (ok is false if there is none).
func (s *SLog) realIdx(name string) (uint64, bool) {
	size := s.size()
	var ws [][2]uint64
	for _, w := range s.wins {
		if w[0] < size {
			if w[1] > size {
				w[1] = size
			}
			ws = append(ws, w)
		}
	}
	if len(ws) == 0 {
		return 0, false
	}
	w := ws[s.c.Uni(name+"-w", 0, len(ws)-1)]
	n := w[1] - w[0]
	switch s.c.weighted(name+"-k", 40, 20, 20, 20) {
	case 0:
		return w[0] + uint64(s.c.Uni(name, 0, 1023))*n/1024, true
	case 1: // near the end
		d := uint64(s.c.Uni(name, 0, 3))
		if d >= n {
			d = n - 1
		}
		return w[1] - 1 - d, true
	case 2: // near a tile boundary
		x := w[0] + (uint64(s.c.Uni(name+"-t", 0, 1023))*(n/256+1)/1024)*256
		x = x + uint64(s.c.Uni(name, 0, 3)) - 2
		if x < w[0] || x >= w[1] || x > 1<<41 {
			x = w[0]
		}
		return x, true
	default: // near a published size, or a power of two inside of the window
		for _, m := range s.mids {
			if m > w[0] && m < w[1] {
				return min(m+uint64(s.c.Uni(name, 0, 3))-2, w[1]-1), true
			}
		}
		x := s.sizes[s.c.Uni(name+"-h", 0, s.cur)] + uint64(s.c.Uni(name, 0, 3)) - 2
		if x < w[0] || x >= w[1] || x > 1<<41 {
			x = w[1] - 1
		}
		return x, true
	}
}

// drawSize draws a tree size in [lo, hi], preferring interesting ones.
func (s *SLog) drawSize(name string, lo, hi uint64) uint64 {
	c := s.c
	clamp := func(x uint64) uint64 {
		if x < lo || x > hi {
			return lo + x%(hi-lo+1)
		}
		return x
	}
	switch c.weighted(name+"-k", 15, 15, 15, 20, 15, 20) {
	case 0:
		return hi
	case 1:
		return clamp(lo + uint64(c.Uni(name, 0, 3)))
	case 2:
		return clamp(s.sizes[c.Uni(name+"-h", 0, s.cur)] + uint64(c.Uni(name, 0, 3)) - 1)
	case 3: // multiples of tile spans
		sh := pick(c, name+"-sh", 8, 8, 16, 24, 32)
		return clamp(((lo+c.Wide(name+"-m", 0, hi-lo))>>sh)<<sh + uint64(c.Uni(name, 0, 3)) - 1)
	case 4: // powers of two
		return clamp(uint64(1)<<c.Uni(name+"-p", 0, 40) + uint64(c.Uni(name, 0, 3)) - 1)
	default:
		return c.Wide(name, lo, hi)
	}
}

// query is one request with its expectation.
type query struct {
	desc  string
	path  string
	judge func(a answer) string
}

// ask sends the queries concurrently and judges the answers.
func (s *SLog) ask(m *Mon, qs []query) {
	var wg sync.WaitGroup
	var next int64 = -1
	var left sync.Map
	msgs := make([]string, len(qs))
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer recoverInfra()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= len(qs) {
					return
				}
				// others ask for the same and leave before they are answered
				for j := 0; j < s.leavers; j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer recoverInfra()
						p := prf(fmt.Sprintf("leaver %s %s %d", s.salt, qs[i].path, j), 2)
						ctx, cancel := context.WithTimeout(context.Background(), time.Duration(p[0])*20*time.Microsecond)
						defer cancel()
						if _, _, pan := m.doCtx(ctx, "GET", qs[i].path); pan != "" {
							left.Store(i, pan)
						}
					}()
				}
				if s.leavers > 0 {
					time.Sleep(time.Duration(prf(fmt.Sprintf("leaver %s %s", s.salt, qs[i].path), 1)[0]) * 5 * time.Microsecond)
				}
				msgs[i] = qs[i].judge(m.ask(qs[i].path))
			}
		}()
	}
	wg.Wait()
	for i, q := range qs {
		if pan, ok := left.Load(i); ok && msgs[i] == "" {
			msgs[i] = "when the client leaves: " + pan.(string)
		}
		if msgs[i] != "" {
			s.c.Violate("published size %d: %s (%s): %s", s.size(), q.path, q.desc, msgs[i])
		}
	}
}

// openNow has idle connections closed and returns the number of open ones once it is stable.
func (sv *s3server) openNow() int64 {
	last, stable := int64(-1), 0
	for k := 0; ; k++ {
		if k%20 == 0 {
			sv.halfClose()
		}
		n := atomic.LoadInt64(&sv.open)
		if n == last {
			stable++
		} else {
			last, stable = n, 0
		}
		if n == 0 || stable > 15 {
			return n
		}
		time.Sleep(time.Millisecond)
	}
}

// noLeak waits until no more connections are open than before the requests.
func (sv *s3server) noLeak(c *Case, base int64) {
	start := time.Now()
	late0 := atomic.LoadInt64(&heartLate)
	for {
		n := sv.openNow()
		if n <= base {
			return
		}
		if time.Since(start) > 4*time.Second+2*time.Duration(atomic.LoadInt64(&heartLate)-late0) {
			c.Violate("%d connections to the tile store stay open after all requests were answered (%d before them)", n, base)
		}
		time.Sleep(5 * time.Millisecond)
	}
}
