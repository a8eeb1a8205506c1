package verifh

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	stdx509 "crypto/x509"
	encasn1 "encoding/asn1"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	_ "crypto/md5"
	_ "crypto/sha1"
	"crypto/sha512"
	"hash"

	"golang.org/x/mod/sumdb/note"
	"golang.org/x/mod/sumdb/tlog"
	"itko.dev/internal/rfc6979"
	"itko.dev/internal/sunlight"
)

// ---------------------------------------------------------------- C14: data tiles

func (c *Case) entSize(name string) int {
	switch c.weighted(name+"-k", 55, 20, 12, 8, 5) {
	case 0:
		return c.Uni(name, 0, 60)
	case 1:
		return 250 + c.Uni(name, 0, 12)
	case 2:
		return 65530 + c.Uni(name, 0, 12)
	case 3:
		return c.Uni(name, 0, 1000) * 90
	default:
		if c.Chance(name+"-huge", 4) {
			return 1<<24 - 1 - c.Uni(name, 0, 2)
		}
		return c.Uni(name, 0, 1023)
	}
}

func (c *Case) idx40(name string) uint64 {
	switch c.weighted(name+"-k", 30, 30, 40) {
	case 0:
		return uint64(c.Uni(name, 0, 1000))
	case 1:
		return (uint64(1)<<c.Uni(name+"-p", 0, 40) + uint64(c.Uni(name, 0, 2)) - 1) % (1 << 40)
	default:
		return c.Wide(name, 0, 1<<40-1)
	}
}

func (c *Case) genEnt(salt string) *Ent {
	e := &Ent{Idx: c.idx40("idx")}
	switch c.Uni("ts-k", 0, 2) {
	case 0:
		e.Ts = 1600000000000 + uint64(c.Uni("ts", 0, 1000))
	case 1:
		e.Ts = uint64(1)<<c.Uni("ts-p", 0, 62) + uint64(c.Uni("ts", 0, 1)) - 1
	default:
		e.Ts = c.Wide("ts", 0, 1<<63-1)
	}
	fill := func(label string, n int) []byte {
		p := prf(salt+label, min(n, 64)+1)
		if n <= 64 {
			return p[:n]
		}
		return bytes.Repeat(p[:61], n/61+1)[:n]
	}
	e.Cert = fill("cert", c.entSize("cert"))
	if c.Bool("pre") {
		e.Pre = true
		e.IKH = sha256.Sum256([]byte(salt))
		e.PreCert = fill("pre", c.entSize("pre"))
	}
	n := c.Uni("fps", 0, 5)
	if c.Chance("many-fps", 6) {
		n = pick(c, "fps-n", 7, 8, 9, 255, 256, 2047)
	}
	for i := 0; i < n; i++ {
		e.Fps = append(e.Fps, sha256.Sum256([]byte(fmt.Sprint(salt, i))))
	}
	return e
}

func toLogEntry(e *Ent) sunlight.LogEntry {
	u := sunlight.UnsequencedEntry{Certificate: bytes.Clone(e.Cert), IsPrecert: e.Pre, CertificateFp: e.certFp()}
	if e.Pre {
		u.IssuerKeyHash, u.PreCertificate = e.IKH, bytes.Clone(e.PreCert)
	}
	for _, f := range e.Fps {
		u.ChainFp = append(u.ChainFp, f)
	}
	return u.Sequence(e.Idx, int64(e.Ts))
}

func fromLogEntry(l *sunlight.LogEntry) *Ent {
	e := &Ent{Ts: uint64(l.Timestamp), Idx: l.LeafIndex, Pre: l.IsPrecert, Cert: l.Certificate, PreCert: l.PreCertificate, IKH: l.IssuerKeyHash}
	for _, f := range l.ChainFp {
		e.Fps = append(e.Fps, f)
	}
	return e
}

// leafField is a numeric field of an encoded tile leaf.
type leafField struct {
	name   string
	off, n int
}

func (e *Ent) fields() []leafField {
	var fs []leafField
	o := 0
	add := func(name string, n, skip int) { fs = append(fs, leafField{name, o, n}); o += n + skip }
	add("timestamp", 8, 0)
	if e.Pre {
		add("type", 2, 32)
	} else {
		add("type", 2, 0)
	}
	add("certificate length", 3, len(e.Cert))
	add("extensions length", 2, 0)
	add("extension type", 1, 0)
	add("extension length", 2, 0)
	add("index", 5, 0)
	if e.Pre {
		add("precertificate length", 3, len(e.PreCert))
	}
	add("fingerprint length", 2, 32*len(e.Fps))
	return fs
}

func getNum(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

func putNum(b []byte, v uint64) {
	for i := len(b) - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
}

func (c *Case) judgeLeaf(what string, b []byte) {
	ref, refRest, refErr := decTileLeaf(b)
	in := bytes.Clone(b)
	var e *sunlight.LogEntry
	var rest []byte
	var err error
	c.Guard("ReadTileLeaf of "+what, func() { e, rest, err = sunlight.ReadTileLeaf(b) })
	if !bytes.Equal(in, b) {
		c.Violate("ReadTileLeaf of %s changes its input", what)
	}
	if err != nil {
		if refErr == nil {
			c.Violate("ReadTileLeaf rejects a well-formed entry (%s): %v\ninput: %x", what, err, trunc(b))
		}
		c.Label("rejected")
		return
	}
	if len(rest) > len(b) || !bytes.Equal(rest, b[len(b)-len(rest):]) {
		c.Violate("ReadTileLeaf of %s: the rest is not the tail of the input", what)
	}
	var again []byte
	if m := Panics(func() { again = sunlight.AppendTileLeaf(nil, e) }); m != "" {
		c.Violate("ReadTileLeaf of %s gives an entry that cannot be encoded: %s", what, m)
	}
	if !bytes.Equal(again, b[:len(b)-len(rest)]) {
		c.Violate("ReadTileLeaf accepts bytes that are not the encoding of the entry it returns (%s)\nconsumed: %x\nencoding: %x", what, trunc(b[:len(b)-len(rest)]), trunc(again))
	}
	if refErr != nil {
		c.Violate("ReadTileLeaf accepts malformed bytes (%s): %v\ninput: %x", what, refErr, trunc(b))
	}
	if got := fromLogEntry(e); !got.equal(ref) || len(rest) != len(refRest) {
		c.Violate("ReadTileLeaf of %s: got %v with %d bytes left, want %v with %d", what, got, len(rest), ref, len(refRest))
	}
	if e.CertificateFp != ref.certFp() {
		c.Violate("ReadTileLeaf of %s: wrong certificate fingerprint", what)
	}
	c.Label("accepted")
}

func TestC14(t *testing.T) {
	runCheck(t, "C14", "a tile of several entries was encoded, read back and judged, and mutated inputs were decoded", 1200, 60000, func(c *Case) {
		n := c.Uni("entries", 1, 6)
		salt := fmt.Sprint(c.Int("salt", 0, 1<<30), "/")
		var tile, want []byte
		if c.Bool("spare") {
			tile = make([]byte, 0, 4096)
		}
		var ents []*Ent
		var offs []int
		for i := 0; i < n; i++ {
			e := c.genEnt(fmt.Sprint(salt, i))
			if len(want) > 1<<22 { // keep the case small
				e.Cert, e.PreCert = e.Cert[:min(len(e.Cert), 1000)], e.PreCert[:min(len(e.PreCert), 1000)]
			}
			le := toLogEntry(e)
			before := bytes.Clone(tile)
			c.NoteQuiet("entry %v (pre %d bytes)", e, len(e.PreCert))
			c.Guard("AppendTileLeaf", func() { tile = sunlight.AppendTileLeaf(tile, &le) })
			offs = append(offs, len(want))
			want = append(want, e.tileLeaf()...)
			if len(tile) < len(before) || !bytes.Equal(before, tile[:len(before)]) {
				c.Violate("AppendTileLeaf altered the bytes already in the tile (entry %d, %v)", i, e)
			}
			if !bytes.Equal(tile, want) {
				c.Violate("AppendTileLeaf of entry %d (%v) gives other bytes than the tile format\ngot  %x\nwant %x", i, e, trunc(tile[len(before):]), trunc(e.tileLeaf()))
			}
			if !fromLogEntry(&le).equal(e) {
				c.Violate("AppendTileLeaf changed the entry")
			}
			var leaf []byte
			c.Guard("MerkleTreeLeaf", func() { leaf = le.MerkleTreeLeaf() })
			if !bytes.Equal(leaf, e.leafInput()) {
				c.Violate("MerkleTreeLeaf of %v: got %x, want %x", e, trunc(leaf), trunc(e.leafInput()))
			}
			ents = append(ents, e)
		}
		rest := tile
		for i, e := range ents {
			var le *sunlight.LogEntry
			var err error
			c.Guard("ReadTileLeaf", func() { le, rest, err = sunlight.ReadTileLeaf(rest) })
			if err != nil {
				c.Violate("entry %d of %d (%v) cannot be read back: %v", i, n, e, err)
			}
			if got := fromLogEntry(le); !got.equal(e) || le.CertificateFp != e.certFp() {
				c.Violate("entry %d of %d reads back as %v, encoded was %v", i, n, got, e)
			}
			if !bytes.Equal(le.MerkleTreeLeaf(), e.leafInput()) {
				c.Violate("the leaf of entry %d differs after reading it back", i)
			}
		}
		if len(rest) != 0 {
			c.Violate("%d bytes are left over after reading all %d entries", len(rest), n)
		}
		c.NonTrivial()
		// every other entry type
		if i := c.Uni("typed-entry", 0, n-1); len(ents[i].Cert)+len(ents[i].PreCert) < 2000 {
			e := ents[i]
			b := bytes.Clone(want[offs[i]:])
			types := []int{}
			if c.Chance("all-types", 6) {
				for v := 2; v < 65536; v++ {
					types = append(types, v)
				}
				c.Label("all entry types")
			} else {
				for k := 0; k < 16; k++ {
					types = append(types, 1<<k, 1<<k+1, 1<<k-1, c.Uni("type", 2, 65535))
				}
			}
			for _, v := range types {
				if v < 2 {
					continue
				}
				b[8], b[9] = byte(v>>8), byte(v)
				var err error
				c.Guard("ReadTileLeaf of an unknown entry type", func() { _, _, err = sunlight.ReadTileLeaf(b) })
				if err == nil {
					c.Violate("ReadTileLeaf accepts entry %d (%v) with entry type %d", i, e, v)
				}
			}
		}
		for m := c.Uni("mutants", 2, 14); m > 0; m-- {
			i := c.Uni("i", 0, n-1)
			e := ents[i]
			if len(e.Cert)+len(e.PreCert) > 1<<21 {
				continue
			}
			b := bytes.Clone(want[offs[i]:])
			end := len(e.tileLeaf())
			fs := e.fields()
			what := ""
			switch c.weighted("kind", 40, 20, 12, 8, 8, 6, 6) {
			case 0:
				f := fs[c.Uni("field", 0, len(fs)-1)]
				v := getNum(b[f.off : f.off+f.n])
				nv := v
				switch c.Uni("to", 0, 8) {
				case 0:
					nv = v + 1
				case 1:
					nv = v - 1
				case 2:
					nv = 0
				case 3:
					nv = 1<<(8*f.n) - 1
				case 4:
					nv = v + 32
				case 5:
					nv = v - 32
				case 6:
					nv = v + uint64(c.Uni("by", 0, 64)) - 32
				case 7:
					nv = v ^ 1<<c.Uni("bit", 0, 8*f.n-1)
				case 8:
					nv = uint64(len(b)) - uint64(c.Uni("by", 0, 40))
				}
				putNum(b[f.off:f.off+f.n], nv)
				what = fmt.Sprintf("entry %d with %s %d instead of %d", i, f.name, getNum(b[f.off:f.off+f.n]), v)
			case 1:
				cut := c.Uni("cut", 0, 1023) * (end - 1) / 1023
				if c.Bool("near-end") {
					cut = end - 1 - c.Uni("d", 0, min(end-1, 40))
				}
				b = b[:cut]
				what = fmt.Sprintf("entry %d cut to %d of %d bytes", i, cut, end)
			case 2:
				k := c.Uni("at", 0, 1023) * (end - 1) / 1023
				b[k] ^= 1 << c.Uni("bit", 0, 7)
				what = fmt.Sprintf("entry %d with bit flipped in byte %d", i, k)
			case 3:
				k := c.Uni("at", 0, 1023) * end / 1023
				b = append(append(bytes.Clone(b[:k]), c.Bytes("ins", 1, 40)...), b[k:]...)
				what = fmt.Sprintf("entry %d with bytes inserted at %d", i, k)
			case 4:
				k := c.Uni("at", 0, 1023) * (end - 1) / 1023
				l := min(c.Uni("len", 1, 40), end-k)
				b = append(bytes.Clone(b[:k]), b[k+l:]...)
				what = fmt.Sprintf("entry %d with %d bytes removed at %d", i, l, k)
			case 5:
				b = b[:end] // exactly one entry, and other bytes behind it
				b = append(b, c.Bytes("tail", 0, 50)...)
				what = fmt.Sprintf("entry %d with other bytes behind it", i)
			default:
				b = c.Bytes("random", 0, 90)
				if c.Bool("typed") && len(b) > 9 {
					b[0], b[8], b[9] = b[0]&0x7f, 0, b[9]&1
				}
				what = fmt.Sprintf("%d random bytes", len(b))
			}
			c.NoteQuiet("mutant: %s", what)
			c.judgeLeaf(what, b)
		}
	})
}

// ---------------------------------------------------------------- C15: paths and extensions

var pathSeen = map[string]tlog.Tile{}

func refParseExt(b []byte) (uint64, bool) {
	r := &rd{b: b}
	for len(r.b) > 0 {
		typ := r.num(1)
		x := r.take(int(r.num(2)))
		if r.bad {
			return 0, false
		}
		if typ == 0 {
			if len(x) != 5 {
				return 0, false
			}
			return getNum(x), true
		}
	}
	return 0, false
}

func TestC15(t *testing.T) {
	runCheck(t, "C15", "tile coordinates, bucket prefixes and extensions were mapped and judged", 6000, 300000, func(c *Case) {
		for i := 0; i < 6; i++ {
			tl := tlog.Tile{H: 8, L: c.Uni("L", 0, 9) - 1, W: 256}
			if c.Chance("deep", 10) {
				tl.L = c.Uni("L2", 0, 63)
			}
			switch c.weighted("N-k", 25, 35, 40) {
			case 0:
				tl.N = int64(c.Uni("N", 0, 1023))
			case 1:
				p := int64(1)
				for k := c.Uni("N-p", 0, 5); k > 0; k-- {
					p *= 1000
				}
				tl.N = max(0, p*int64(c.Uni("N-m", 1, 999))+int64(c.Uni("N-d", 0, 4))-2)
			default:
				tl.N = int64(c.Wide("N", 0, 1<<(8*c.Uni("N-b", 1, 7))-1))
			}
			if c.Chance("partial", 60) {
				tl.W = c.Uni("W", 1, 255)
			}
			var p string
			c.Guard("Path", func() { p = sunlight.Path(tl) })
			if want := refTilePath(tl.L, uint64(tl.N), tl.W); p != want {
				c.Violate("Path(%+v) = %q, want %q", tl, p, want)
			}
			if o, ok := pathSeen[p]; ok && o != tl {
				c.Violate("%+v and %+v share the path %q", o, tl, p)
			} else if len(pathSeen) < 200000 {
				pathSeen[p] = tl
			}
			if i == 0 {
				c.NoteQuiet("tile %+v", tl)
			}
		}
		h := c.Seeded("hash", pick(c, "hash-len", 32, 32, 16, 20, 64))
		mask := c.Uni("mask", 1, len(h)*2)
		var kp string
		c.Guard("KAnonHashPath", func() { kp = sunlight.KAnonHashPath(h, mask) })
		if want := refBucketPath(h, mask); kp != want {
			c.Violate("KAnonHashPath(%x, %d) = %q, want %q", h, mask, kp, want)
		}
		c.NoteQuiet("bucket of %x with %d digits", h, mask)
		idx := c.idx40("idx")
		var b []byte
		var err error
		c.Guard("MarshalExtensions", func() { b, err = sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: idx}) })
		if err != nil || !bytes.Equal(b, extBytes(idx)) {
			c.Violate("MarshalExtensions(%d) = %x, %v; want %x", idx, b, err, extBytes(idx))
		}
		var x sunlight.Extensions
		c.Guard("ParseExtensions", func() { x, err = sunlight.ParseExtensions(b) })
		if err != nil || x.LeafIndex != idx {
			c.Violate("ParseExtensions(%x) = %d, %v; want %d", b, x.LeafIndex, err, idx)
		}
		big := c.Wide("too-large", 1<<40, 1<<64-1)
		if c.Bool("edge") {
			big = 1<<40 + uint64(c.Uni("e", 0, 3))
		}
		c.Guard("MarshalExtensions", func() { b, err = sunlight.MarshalExtensions(sunlight.Extensions{LeafIndex: big}) })
		if err == nil {
			c.Violate("MarshalExtensions accepts index %d: %x", big, b)
		}
		// a list of extensions, and damage to it
		var l []byte
		var kinds []string
		for k := c.Uni("exts", 0, 4); k > 0; k-- {
			typ, n := byte(c.Uni("type", 0, 255)), c.Uni("len", 0, 20)
			if c.Chance("long", 5) {
				n = 300 + c.Uni("len2", 0, 60000)
			}
			if c.Chance("index", 35) {
				typ, n = 0, 5
			}
			if c.Chance("index-other-length", 6) {
				typ = 0
			}
			l = append(append(append(l, typ), u16(n)...), prf(fmt.Sprint("ext", k, idx), n)...)
			kinds = append(kinds, fmt.Sprintf("%d/%d", typ, n))
		}
		switch c.Uni("damage", 0, 4) {
		case 1:
			l = l[:c.Uni("cut", 0, 1023)*len(l)/1023]
			kinds = append(kinds, "cut")
		case 2:
			if len(l) > 0 {
				l[c.Uni("at", 0, min(len(l)-1, 1000))] ^= 1 << c.Uni("bit", 0, 7)
				kinds = append(kinds, "bit flip")
			}
		case 3:
			l = append(l, c.Bytes("tail", 0, 5)...)
			kinds = append(kinds, "tail")
		case 4:
			l = c.Bytes("random", 0, 24)
			kinds = []string{"random"}
		}
		c.NoteQuiet("extensions %v: %x", kinds, trunc(l))
		in := bytes.Clone(l)
		c.Guard("ParseExtensions", func() { x, err = sunlight.ParseExtensions(l) })
		want, ok := refParseExt(in)
		if !bytes.Equal(in, l) {
			c.Violate("ParseExtensions changes its input")
		}
		if ok && (err != nil || x.LeafIndex != want) {
			c.Violate("ParseExtensions(%x) = %d, %v; the leaf index is %d", l, x.LeafIndex, err, want)
		}
		if !ok && err == nil {
			c.Violate("ParseExtensions accepts %x as index %d", l, x.LeafIndex)
		}
		c.Label(map[bool]string{true: "extension list accepted", false: "extension list rejected"}[ok])
		c.NonTrivial()
	})
}

// ---------------------------------------------------------------- C16: tree heads and checkpoints

func (c *Case) size63(name string) uint64 {
	switch c.weighted(name+"-k", 20, 40, 40) {
	case 0:
		return uint64(c.Uni(name, 0, 1000))
	case 1:
		return uint64(1)<<c.Uni(name+"-p", 0, 62) + uint64(c.Uni(name, 0, 2)) - 1
	default:
		return c.Wide(name, 0, 1<<63-1)
	}
}

func (c *Case) genOrigin(name string) string {
	s := pick(c, name, "example.com/log", "a", "ct2025.itko.dev", "log-\u00e9\u4e16\U0001f600", "http://x/y?z=1&w", "0", "\u2014", "x\u200by", "sig:base64==")
	if c.Bool(name + "-more") {
		s += fmt.Sprintf("/%x", c.Uni(name+"-n", 0, 1000))
	}
	return s
}

// noteText assembles a signed note.
func noteText(body, name string, id [4]byte, sig []byte) []byte {
	return []byte(body + "\n\u2014 " + name + " " + base64.StdEncoding.EncodeToString(append(append([]byte{}, id[:]...), sig...)) + "\n")
}

func ckptBody(origin string, h Head) string {
	return fmt.Sprintf("%s\n%d\n%s\n", origin, h.Size, base64.StdEncoding.EncodeToString(h.Root[:]))
}

// refParseCkpt parses a checkpoint body; judge is false where leniency is a matter of taste.
func refParseCkpt(s string) (origin string, size uint64, root []byte, ext string, ok, judge bool) {
	judge = true
	if len(s) > 1000000 || !strings.HasSuffix(s, "\n") {
		return
	}
	ls := strings.SplitAfter(s, "\n")
	ls = ls[:len(ls)-1]
	if len(ls) < 3 {
		return
	}
	for i := range ls {
		ls[i] = strings.TrimSuffix(ls[i], "\n")
		if i >= 3 && ls[i] == "" {
			return
		}
	}
	n := new(big.Int)
	if _, good := n.SetString(ls[1], 10); !good || n.Sign() < 0 || n.BitLen() > 63 || n.String() != ls[1] {
		return
	}
	root, err := base64.StdEncoding.DecodeString(ls[2])
	if err != nil || len(root) != 32 {
		return
	}
	if base64.StdEncoding.EncodeToString(root) != ls[2] || ls[0] == "" {
		judge = false
	}
	for _, l := range ls[3:] {
		ext += l + "\n"
	}
	return ls[0], n.Uint64(), root, ext, true, judge
}

func (c *Case) judgeParse(what, s string) {
	origin, size, root, ext, ok, judge := refParseCkpt(s)
	var got sunlight.Checkpoint
	var err error
	c.Guard("ParseCheckpoint", func() { got, err = sunlight.ParseCheckpoint(s) })
	if err != nil {
		if ok && judge {
			c.Violate("ParseCheckpoint rejects a well-formed checkpoint (%s): %v\n%q", what, err, trunc([]byte(s)))
		}
		c.Label("parse: rejected")
		return
	}
	if !ok {
		c.Violate("ParseCheckpoint accepts a malformed checkpoint (%s): %+v\n%q", what, got, trunc([]byte(s)))
	}
	if got.Origin != origin || uint64(got.N) != size || !bytes.Equal(got.Hash[:], root) || got.Extension != ext {
		c.Violate("ParseCheckpoint (%s) gives %+v for %q", what, got, trunc([]byte(s)))
	}
	if f := sunlight.FormatCheckpoint(got); judge && f != s {
		c.Violate("formatting a parsed checkpoint (%s) gives %q, parsed was %q", what, trunc([]byte(f)), trunc([]byte(s)))
	}
	c.Label("parse: accepted")
}

type c16key struct {
	name string
	pub  crypto.PublicKey
	spki []byte
	ec   *ecdsa.PrivateKey
	rsa  *rsa.PrivateKey
}

var c16rsa = sync.OnceValue(func() []*Key {
	var ks []*Key
	for i := 0; i < 3; i++ {
		k := must(rsa.GenerateKey(rand.Reader, 2048))
		ks = append(ks, &Key{Name: fmt.Sprintf("rsa%d", i), RSA: k, SPKI: must(stdx509.MarshalPKIXPublicKey(&k.PublicKey))})
	}
	return ks
})

func (c *Case) genKey16(name string) c16key {
	switch c.weighted(name, 60, 12, 8, 20) {
	case 0:
		k := ecKey(fmt.Sprintf("c16-%d", c.Uni(name+"-n", 0, 40)))
		return c16key{"P-256 " + k.Name, &k.EC.PublicKey, k.SPKI, k.EC, nil}
	case 1:
		k := ecKeyC(elliptic.P384(), fmt.Sprintf("c16-%d", c.Uni(name+"-n", 0, 5)))
		return c16key{"P-384 " + k.Name, &k.EC.PublicKey, k.SPKI, k.EC, nil}
	case 2:
		k := ecKeyC(elliptic.P521(), fmt.Sprintf("c16-%d", c.Uni(name+"-n", 0, 3)))
		return c16key{"P-521 " + k.Name, &k.EC.PublicKey, k.SPKI, k.EC, nil}
	default:
		ks := c16rsa()
		k := ks[c.Uni(name+"-n", 0, len(ks)-1)]
		return c16key{k.Name, &k.RSA.PublicKey, k.SPKI, nil, k.RSA}
	}
}

// sthSig makes the timestamp and digitally-signed blob of a note signature with a given key.
func (k c16key) sthSig(h Head) []byte {
	d := sha256.Sum256(sthSigInput(h))
	alg, sig := byte(3), []byte(nil)
	if k.rsa != nil {
		alg, sig = 1, must(rsa.SignPKCS1v15(rand.Reader, k.rsa, crypto.SHA256, d[:]))
	} else {
		sig = detSign(k.ec, d[:])
	}
	return append(append(append(u64(h.Ts), 4, alg), u16(len(sig))...), sig...)
}

func TestC16(t *testing.T) {
	runCheck(t, "C16", "a tree head was signed and verified, and altered ones were offered to the verifier", 400, 12000, func(c *Case) {
		h := Head{Size: c.size63("size"), Ts: c.size63("ts"), Root: sha256.Sum256(c.Seeded("root", 8))}
		if c.Chance("root-pattern", 10) {
			h.Root = Hash(bytes.Repeat([]byte{byte(pick(c, "rp", 0, 255, 0xfb))}, 32))
		}
		origin := c.genOrigin("origin")
		k := c.genKey16("key")
		c.Note("size %d, timestamp %d, root %x, origin %q, key %s", h.Size, h.Ts, h.Root, origin, k.name)
		var full []byte
		if k.ec != nil {
			var err error
			c.Guard("SignTreeHeadCheckpoint", func() {
				full, err = sunlight.SignTreeHeadCheckpoint(origin, k.ec, int64(h.Size), int64(h.Ts), h.Root)
			})
			if err != nil {
				c.Violate("SignTreeHeadCheckpoint: %v", err)
			}
			got, err := parseCheckpointNote(full, origin, &k.ec.PublicKey, k.spki)
			if err != nil || got != h {
				c.Violate("the checkpoint is not a valid signed note of the tree head: %v, got %+v\n%s", err, got, full)
			}
			hs := h
			if c.Chance("sth-large", 20) {
				hs.Size, hs.Ts = c.Wide("size64", 0, 1<<64-1), c.Wide("ts64", 0, 1<<64-1)
			}
			var sth []byte
			c.Guard("SignTreeHead", func() { sth, err = sunlight.SignTreeHead(k.ec, hs.Size, hs.Ts, hs.Root) })
			if err != nil {
				c.Violate("SignTreeHead(%d, %d): %v", hs.Size, hs.Ts, err)
			}
			if got, err := parseSTH(sth, &k.ec.PublicKey); err != nil || got != hs {
				c.Violate("the STH is not a valid signed tree head: %v, got %+v, want %+v\n%s", err, got, hs, sth)
			}
			if again, _ := sunlight.SignTreeHeadCheckpoint(origin, k.ec, int64(h.Size), int64(h.Ts), h.Root); !bytes.Equal(again, full) {
				c.Violate("signing the same checkpoint twice gives different bytes")
			}
		} else {
			full = noteText(ckptBody(origin, h), origin, refKeyID(origin, k.spki), k.sthSig(h))
		}
		body := ckptBody(origin, h)
		id := refKeyID(origin, k.spki)
		raw := must(base64.StdEncoding.DecodeString(strings.TrimSuffix(string(full[bytes.LastIndexByte(full, ' ')+1:]), "\n")))
		sig := raw[4:]
		var calls []uint64
		newV := func(name string, pub crypto.PublicKey) note.Verifier {
			var v note.Verifier
			var err error
			c.Guard("NewRFC6962Verifier", func() { v, err = sunlight.NewRFC6962Verifier(name, pub, func(t uint64) { calls = append(calls, t) }) })
			if err != nil {
				c.Violate("NewRFC6962Verifier(%q): %v", name, err)
			}
			return v
		}
		v := newV(origin, k.pub)
		if v.Name() != origin || v.KeyHash() != uint32(getNum(id[:])) {
			c.Violate("the verifier has name %q and key ID %08x, want %q and %x", v.Name(), v.KeyHash(), origin, id)
		}
		accepts := func(v note.Verifier, b []byte) bool {
			calls = nil
			var n *note.Note
			var err error
			c.Guard("note.Open", func() { n, err = note.Open(b, note.VerifierList(v)) })
			if err != nil {
				if len(calls) > 0 {
					c.Violate("the timestamp of a rejected checkpoint is reported")
				}
				return false
			}
			return len(n.Sigs) > 0
		}
		verify := func(v note.Verifier, msg string, sig []byte) bool {
			calls = nil
			var ok bool
			c.Guard("Verify", func() { ok = v.Verify([]byte(msg), sig) })
			if !ok && len(calls) > 0 {
				c.Violate("the timestamp of a rejected signature is reported")
			}
			return ok
		}
		if !accepts(v, full) {
			c.Violate("the verifier rejects the checkpoint\n%s", full)
		}
		if len(calls) == 0 || calls[0] != h.Ts {
			c.Violate("the verifier reports timestamps %v, signed was %d", calls, h.Ts)
		}
		if !verify(v, body, sig) || len(calls) != 1 || calls[0] != h.Ts {
			c.Violate("Verify on the parts rejects the checkpoint or reports timestamps %v (signed %d)", calls, h.Ts)
		}
		if nv, err := sunlight.NewRFC6962Verifier(origin, k.pub, nil); err != nil || !nv.Verify([]byte(body), sig) {
			c.Violate("a verifier without callback rejects the checkpoint (%v)", err)
		}
		c.NonTrivial()
		for m := c.Uni("tamper", 4, 16); m > 0; m-- {
			h2, body2, sig2, id2, name2 := h, body, bytes.Clone(sig), id, origin
			v2, what := v, ""
			switch c.Uni("kind", 0, 13) {
			case 0:
				h2.Size = pick(c, "s", h.Size+1, h.Size-1, h.Size^1<<c.Uni("b", 0, 62), 0, 1)
				if h2.Size == h.Size || h2.Size > 1<<63-1 {
					continue
				}
				body2, what = ckptBody(origin, h2), fmt.Sprintf("size %d", h2.Size)
			case 1:
				h2.Root[c.Uni("at", 0, 31)] ^= 1 << c.Uni("bit", 0, 7)
				body2, what = ckptBody(origin, h2), "another root"
			case 2:
				putNum(sig2[:8], pick(c, "t", h.Ts+1, h.Ts-1, 0, h.Ts^1<<c.Uni("b", 0, 63)))
				if bytes.Equal(sig2, sig) {
					continue
				}
				what = "another timestamp"
			case 3:
				sig2[12+c.Uni("at", 0, 1023)*(len(sig2)-13)/1023] ^= 1 << c.Uni("bit", 0, 7)
				what = "a changed signature"
			case 4:
				sig2[8+c.Uni("at", 0, 3)] ^= 1 << c.Uni("bit", 0, 7)
				what = "changed algorithm or length bytes"
			case 5:
				sig2 = sig2[:c.Uni("len", 0, 1023)*(len(sig2)-1)/1023]
				what = "a shortened signature"
			case 6:
				sig2 = append(sig2, c.Bytes("tail", 1, 8)...)
				what = "a lengthened signature"
			case 7: // also with the length field adjusted
				sig2 = append(sig2, c.Bytes("tail", 1, 8)...)
				putNum(sig2[10:12], uint64(len(sig2)-12))
				what = "a lengthened signature with its length adjusted"
			case 8:
				o := c.genKey16("other")
				if bytes.Equal(o.spki, k.spki) {
					continue
				}
				v2, what = newV(origin, o.pub), "verified under "+o.name
				if c.Bool("claim-id") {
					id2 = refKeyID(origin, o.spki)
				}
			case 9:
				name2 = c.genOrigin("other-name")
				if name2 == origin {
					continue
				}
				what = "signature line under the name " + name2
				if c.Bool("verifier-too") { // key ID and name belong together
					v2 = newV(name2, k.pub)
				}
				b := noteText(body2, name2, id, sig2)
				if accepts(v2, b) {
					c.Violate("a checkpoint with %s is accepted\n%s", what, b)
				}
				continue
			case 10:
				id2[c.Uni("at", 0, 3)] ^= 1 << c.Uni("bit", 0, 7)
				b := noteText(body2, name2, id2, sig2)
				if accepts(v2, b) {
					c.Violate("a checkpoint with key ID %x is accepted\n%s", id2, b)
				}
				continue
			case 11:
				body2 += pick(c, "ext", "x\n", "extension 1\nextension 2\n", "5\n", "\u00e9\n")
				what = "extension lines"
			case 12:
				ls := strings.Split(body, "\n")
				switch c.Uni("shape", 0, 7) {
				case 0:
					ls[1] = "0" + ls[1]
				case 1:
					ls[1] = "+" + ls[1]
				case 2:
					ls[1] += " "
				case 3:
					ls = []string{ls[0], ls[1], ls[2]} // no final newline
				case 4:
					ls = []string{ls[0], ls[1], ""}
				case 5:
					ls[2] = ls[2][:40]
				case 6:
					ls[2] = base64.StdEncoding.EncodeToString(append(h.Root[:], 0))
				case 7:
					ls = append(ls, "")
				}
				body2, what = strings.Join(ls, "\n"), "a malformed body"
			case 13:
				o := c.genKey16("other")
				if bytes.Equal(o.spki, k.spki) {
					continue
				}
				sig2, what = o.sthSig(h), "a signature by "+o.name
			}
			c.NoteQuiet("tampered: %s", what)
			c.Label("tampered")
			if verify(v2, body2, sig2) {
				c.Violate("the verifier accepts a tampered checkpoint: %s\nbody %q\nsignature %x (original %x)", what, body2, sig2, sig)
			}
			if b := noteText(body2, name2, id2, sig2); accepts(v2, b) {
				c.Violate("the verifier accepts a tampered checkpoint: %s\n%s", what, b)
			}
		}
		// hostile input
		verify(v, string(c.Bytes("msg", 0, 40)), c.Bytes("sig", 0, 40))
		if verify(v, body, c.Bytes("sig", 0, 80)) {
			c.Violate("random bytes are accepted as a signature")
		}
		if c.Chance("ed25519", 10) {
			pub := ed25519.PublicKey(prf("ed", 32))
			var ev note.Verifier
			var err error
			c.Guard("NewRFC6962Verifier", func() { ev, err = sunlight.NewRFC6962Verifier(origin, pub, nil) })
			if err == nil && verify(ev, body, sig) {
				c.Violate("a signature is accepted under a key of another kind")
			}
		}
		for _, bad := range []string{"", "a b", "a+b", "a\nb", "a\u00a0b", "\xff", "x\u2003"} {
			var err error
			c.Guard("NewRFC6962Verifier", func() { _, err = sunlight.NewRFC6962Verifier(bad, k.pub, nil) })
			if err == nil {
				c.Violate("a verifier can be named %q", bad)
			}
			if k.ec != nil {
				c.Guard("SignTreeHeadCheckpoint", func() { _, err = sunlight.SignTreeHeadCheckpoint(bad, k.ec, 1, 1, h.Root) })
				if err == nil {
					c.Violate("a checkpoint can be signed under the origin %q", bad)
				}
			}
		}
	})
}

// TestC16Log: what a running log publishes.
func TestC16Log(t *testing.T) {
	runCheck(t, "C16", "a log with a drawn name and key published tree heads and checkpoints over a history with restarts and crashes", 24, 800, func(c *Case) {
		w := history(c, histOpts{maxSteps: 4, maxBatch: 20, crash: 6, restart: 14, idle: 10, dup: 10, latencyMs: 15, fsPct: 20, names: true, flushMax: 12,
			base:  func(c *Case) uint64 { return uint64(pick(c, "base", 0, 0, 1, 255, 256, 257, 511, 65536)) },
			after: func(w *World, rs []*Reply) { w.check("sig", "root") }})
		defer w.close()
		w.freshHeads()
		w.check("sig", "root")
		var h Head
		var cp, sth []byte
		if !w.waitFor(func() bool { // nothing is submitted any more: both settle on the same tree
			sth, _ = w.st.get("ct/v1/get-sth")
			cp, _ = w.st.get("checkpoint")
			h, _ = parseSTH(sth, w.aud.pub)
			n, err := parseCheckpointNote(cp, w.name, w.aud.pub, w.aud.spki)
			return err == nil && n.Size == h.Size && n.Root == h.Root
		}) {
			c.Violate("tree head and checkpoint do not agree:\n%s\n%s", sth, cp)
		}
		// as this code verifies it
		var ts uint64
		v, err := sunlight.NewRFC6962Verifier(w.name, w.aud.pub, func(t uint64) { ts = t })
		if err != nil {
			c.Violate("NewRFC6962Verifier(%q): %v", w.name, err)
		}
		n, err := note.Open(cp, note.VerifierList(v))
		if err != nil {
			c.Violate("the verifier rejects the published checkpoint: %v\n%s", err, cp)
		}
		k, err := sunlight.ParseCheckpoint(n.Text)
		if err != nil || k.Origin != w.name || uint64(k.N) != h.Size || Hash(k.Hash) != h.Root || k.Extension != "" {
			c.Violate("the published checkpoint parses as %+v (%v)\n%s", k, err, cp)
		}
		if m, err := parseCheckpointNote(cp, w.name, w.aud.pub, w.aud.spki); err != nil || m.Ts != ts {
			c.Violate("the verifier reports timestamp %d, signed was %d (%v)", ts, m.Ts, err)
		}
		c.NonTrivial()
	})
}

// TestC16Parse: formatting and parsing of checkpoints.
func TestC16Parse(t *testing.T) {
	runCheck(t, "C16", "checkpoint texts were formatted, damaged and parsed", 1500, 60000, func(c *Case) {
		ck := sunlight.Checkpoint{Origin: c.genOrigin("origin"), Tree: tlog.Tree{N: int64(c.size63("size")), Hash: tlog.Hash(sha256.Sum256(c.Seeded("root", 8)))}}
		if c.Chance("odd-origin", 15) {
			ck.Origin = pick(c, "oo", "with spaces here", "a+b", "\t", "-5", "\x01\xff", "origin\r")
		}
		for n := c.Uni("ext", 0, 4); n > 0; n-- {
			ck.Extension += pick(c, "line", "a", "extension line", " ", "\t\r", "5", "\u00e9", strings.Repeat("x", 300)) + "\n"
		}
		if c.Chance("long", 3) {
			s := sunlight.FormatCheckpoint(ck)
			ck.Extension += strings.Repeat("y", 1000000-len(s)-1+c.Uni("over", 0, 3)-1) + "\n"
		}
		var s string
		c.Guard("FormatCheckpoint", func() { s = sunlight.FormatCheckpoint(ck) })
		want := ckptBody(ck.Origin, Head{Size: uint64(ck.N), Root: Hash(ck.Hash)}) + ck.Extension
		if s != want {
			c.Violate("FormatCheckpoint(%+v) = %q, want %q", ck, trunc([]byte(s)), trunc([]byte(want)))
		}
		c.NoteQuiet("checkpoint %q", trunc([]byte(s)))
		c.judgeParse("as formatted", s)
		c.NonTrivial()
		for m := c.Uni("damages", 1, 6); m > 0; m-- {
			x, what := s, ""
			ls := strings.SplitAfter(s, "\n")
			switch c.Uni("kind", 0, 8) {
			case 0:
				i := c.Uni("line", 0, len(ls)-1)
				x, what = strings.Join(append(append([]string{}, ls[:i]...), ls[i+1:]...), ""), fmt.Sprintf("without line %d", i)
			case 1:
				x, what = s[:len(s)-1-c.Uni("cut", 0, min(len(s)-1, 60))], "cut at the end"
			case 2:
				i := c.Uni("line", 0, len(ls)-1)
				x, what = strings.Join(ls[:i], "")+"\n"+strings.Join(ls[i:], ""), fmt.Sprintf("with an empty line before line %d", i)
			case 3:
				ls[1] = pick(c, "n", "05", "+5", "-5", "-0", "", " 5", "5 ", "0x5", "5_0", "9223372036854775808", "9223372036854775807", "99999999999999999999", "1e3", "5\r", "\u0665") + "\n"
				x, what = strings.Join(ls, ""), "with size line "+ls[1]
			case 4:
				b := ck.Hash[:]
				ls[2] = pick(c, "h", base64.StdEncoding.EncodeToString(b[:31]), base64.StdEncoding.EncodeToString(append(b[:32:32], 0)), base64.RawStdEncoding.EncodeToString(b), base64.URLEncoding.EncodeToString(bytes.Repeat([]byte{0xfb, 0xff}, 16)), hex.EncodeToString(b), "", "=", " "+base64.StdEncoding.EncodeToString(b), base64.StdEncoding.EncodeToString(b)+"=") + "\n"
				x, what = strings.Join(ls, ""), "with hash line "+ls[2]
			case 5:
				b := []byte(s)
				i := c.Uni("at", 0, min(len(b)-1, 1000))
				b[i] ^= 1 << c.Uni("bit", 0, 7)
				x, what = string(b), fmt.Sprintf("with a bit flipped in byte %d", i)
			case 6:
				x, what = s+pick(c, "tail", "\n", "x", "x\n", "\n\n", "x\n\ny\n"), "with something appended"
			case 7:
				x, what = string(c.Bytes("random", 0, 60)), "random bytes"
			case 8:
				x, what = strings.Repeat("\n", c.Uni("n", 0, 6)), "only newlines"
			}
			c.NoteQuiet("%s", what)
			c.judgeParse(what, x)
		}
	})
}

// ---------------------------------------------------------------- C17: RFC 6979

type pCurve struct {
	name string
	el   elliptic.Curve
}

var pCurves = []pCurve{{"P-256", elliptic.P256()}, {"P-384", elliptic.P384()}, {"P-521", elliptic.P521()}}

// refRFC6979 signs as RFC 6979 section 3.2 says, with big integers.
func refRFC6979(k *ecdsa.PrivateKey, digest []byte, hash crypto.Hash) (sig []byte, loops int) {
	q := k.Curve.Params().N
	rolen := (q.BitLen() + 7) / 8
	b2i := func(b []byte) *big.Int {
		v := new(big.Int).SetBytes(b)
		if d := len(b)*8 - q.BitLen(); d > 0 {
			v.Rsh(v, uint(d))
		}
		return v
	}
	i2o := func(v *big.Int) []byte { return v.FillBytes(make([]byte, rolen)) }
	e := new(big.Int).Mod(b2i(digest), q)
	mac := func(key []byte, parts ...[]byte) []byte {
		m := hmac.New(hash.New, key)
		for _, p := range parts {
			m.Write(p)
		}
		return m.Sum(nil)
	}
	V, K := bytes.Repeat([]byte{1}, hash.Size()), make([]byte, hash.Size())
	x, h1 := i2o(k.D), i2o(e)
	K = mac(K, V, []byte{0}, x, h1)
	V = mac(K, V)
	K = mac(K, V, []byte{1}, x, h1)
	V = mac(K, V)
	for {
		var T []byte
		for len(T)*8 < q.BitLen() {
			V = mac(K, V)
			T = append(T, V...)
		}
		kk := b2i(T)
		if kk.Sign() > 0 && kk.Cmp(q) < 0 {
			rx, _ := k.Curve.ScalarBaseMult(kk.Bytes())
			r := new(big.Int).Mod(rx, q)
			s := new(big.Int).Mul(r, k.D)
			s.Add(s, e).Mul(s, new(big.Int).ModInverse(kk, q)).Mod(s, q)
			if r.Sign() != 0 && s.Sign() != 0 {
				return must(encasn1.Marshal(struct{ R, S *big.Int }{r, s})), loops
			}
		}
		if loops++; loops > 100 { // in a cycle, with an odd hash function
			return nil, loops
		}
		K = mac(K, V, []byte{0})
		V = mac(K, V)
	}
}

// Hash functions some of whose values make a nonce candidate that is out of range: Sign takes any registered function, and
// with the usual ones that happens once in 2^32 (P-256) or 2^190 (P-384) times.
type oddHash struct {
	hash.Hash
	size int
}

var oddHashes = []crypto.Hash{crypto.BLAKE2s_256, crypto.BLAKE2b_384, crypto.BLAKE2b_512}

func init() {
	for _, h := range oddHashes {
		n := h.Size()
		crypto.RegisterHash(h, func() hash.Hash { return &oddHash{sha512.New(), n} })
	}
}

func (h *oddHash) Size() int { return h.size }
func (h *oddHash) Sum(b []byte) []byte {
	s := h.Hash.Sum(nil)
	odd := s[63]
	s = s[:h.size]
	switch {
	case odd < 110: // the orders of all three curves begin with this many ones, or fewer
		for i := range s[:min(h.size*2/3, 42)] {
			s[i] = 0xff
		}
	case odd < 130:
		clear(s)
	}
	return append(b, s...)
}

var hashes17 = []crypto.Hash{crypto.SHA256, crypto.SHA1, crypto.SHA224, crypto.SHA384, crypto.SHA512, crypto.SHA512_256, crypto.MD5}

type sig17 struct {
	k      *ecdsa.PrivateKey
	digest []byte
	hash   crypto.Hash
	want   []byte
	desc   string
}

// rejectKeys are P-256/SHA-256 inputs whose first nonce candidate is out of range (found by search).
var reject17 = [][2]string{
	{"6e6f6e63652072656a656374696f6e20736561726368206b6579200101000007", "0164696765737400000000000000000000000000000000009e83af6500000000"},
	{"6e6f6e63652072656a656374696f6e20736561726368206b6579200105000007", "05646967657374000000000000000000000000000000000089534c1800000000"},
}

func (c *Case) gen17() sig17 {
	if len(reject17) > 0 && c.Chance("rejected-nonce", 4) {
		r := reject17[c.Uni("r", 0, len(reject17)-1)]
		k := ecKeyScalar(elliptic.P256(), new(big.Int).SetBytes(must(hex.DecodeString(r[0]))))
		s := sig17{k: k, digest: must(hex.DecodeString(r[1])), hash: crypto.SHA256, desc: "input whose first nonce candidate is out of range, x=" + r[0] + " h=" + r[1]}
		n := 0
		s.want, n = refRFC6979(k, s.digest, s.hash)
		if n != 1 {
			Infra("the first nonce of %s is not rejected", s.desc)
		}
		c.Label("nonce rejected")
		return s
	}
	cv := pCurves[c.weighted("curve", 60, 20, 20)]
	q := cv.el.Params().N
	var d *big.Int
	switch c.weighted("scalar", 50, 15, 15, 10, 10) {
	case 0:
		d = new(big.Int).SetBytes(c.Seeded("d", (q.BitLen()+7)/8))
	case 1: // leading zero bytes
		d = new(big.Int).SetBytes(c.Seeded("d", (q.BitLen()+7)/8-c.Uni("short", 1, 4)))
	case 2:
		d = big.NewInt(int64(c.Uni("d", 1, 1000)))
	case 3:
		d = new(big.Int).Sub(q, big.NewInt(int64(c.Uni("d", 1, 10))))
	case 4:
		d = new(big.Int).Lsh(big.NewInt(1), uint(c.Uni("bit", 0, q.BitLen()-1)))
	}
	d.Mod(d, q)
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	s := sig17{k: ecKeyScalar(cv.el, d), hash: hashes17[c.weighted("hash", 50, 8, 8, 12, 12, 5, 5)]}
	switch c.weighted("digest", 50, 12, 12, 12, 14) {
	case 0:
		s.digest = c.Seeded("digest", s.hash.Size())
	case 1:
		s.digest = make([]byte, c.Uni("len", 0, 70))
	case 2:
		s.digest = bytes.Repeat([]byte{0xff}, c.Uni("len", 0, 140))
	case 3: // around the order
		s.digest = new(big.Int).Add(q, big.NewInt(int64(c.Uni("d", 0, 4)-2))).Bytes()
		if cv.name == "P-521" && c.Bool("shifted") {
			s.digest = new(big.Int).Lsh(new(big.Int).SetBytes(s.digest), 7).Bytes()
		}
		s.digest = append(s.digest, c.Bytes("more", 0, 3)...)
	case 4:
		s.digest = c.Seeded("digest", c.Uni("len", 0, 140))
	}
	if c.Chance("odd-hash", 12) {
		h := pick(c, "odd", oddHashes...)
		if w, n := refRFC6979(s.k, s.digest, h); w != nil {
			s.hash, s.want = h, w
			s.desc = fmt.Sprintf("%s d=%x, a hash function of %d bytes with values that make %d nonce candidates out of range, digest %x", cv.name, d, h.Size(), n, s.digest)
			c.LabelN("odd hash function: nonces rejected", n)
			return s
		}
	}
	s.desc = fmt.Sprintf("%s d=%x hash %v digest %x", cv.name, d, s.hash, s.digest)
	s.want, _ = refRFC6979(s.k, s.digest, s.hash)
	return s
}

func (s *sig17) judge() string {
	dg, d := bytes.Clone(s.digest), new(big.Int).Set(s.k.D)
	for i := 0; i < 2; i++ {
		var got []byte
		var err error
		if m := Panics(func() { got, err = rfc6979.Sign(s.k, s.digest, s.hash) }); m != "" {
			return "Sign: " + m
		}
		if err != nil {
			return fmt.Sprintf("Sign: %v", err)
		}
		if !bytes.Equal(got, s.want) {
			return fmt.Sprintf("Sign gives %x, RFC 6979 gives %x (attempt %d)", got, s.want, i)
		}
		if !ecdsa.VerifyASN1(&s.k.PublicKey, s.digest, got) {
			return fmt.Sprintf("signature %x does not verify", got)
		}
	}
	if !bytes.Equal(dg, s.digest) || d.Cmp(s.k.D) != 0 {
		return "Sign changes its inputs"
	}
	return ""
}

func TestC17(t *testing.T) {
	nq := 500
	if envRace() {
		nq = 60
	}
	runCheck(t, "C17", "signatures over generated keys, digests and hash functions, alone or from many goroutines, were compared with the reference", nq, nq*30, func(c *Case) {
		n := c.Uni("signatures", 1, 4)
		conc := c.Chance("concurrent", 25) || envRace()
		if conc {
			n = c.Uni("more", 4, 10)
		}
		var ss []sig17
		for i := 0; i < n; i++ {
			if i > 0 && c.Chance("same-key", 35) { // other digest under an earlier key, perhaps the same one
				s := ss[c.Uni("of", 0, i-1)]
				if c.Bool("other") {
					s.digest = c.Seeded("digest", s.hash.Size())
					if s.want, _ = refRFC6979(s.k, s.digest, s.hash); s.want == nil {
						s = c.gen17()
					}
					s.desc += fmt.Sprintf(" (other digest %x)", s.digest)
				} else {
					s.digest = bytes.Clone(s.digest)
				}
				ss = append(ss, s)
				continue
			}
			ss = append(ss, c.gen17())
		}
		for i, s := range ss {
			c.NoteQuiet("%d: %s", i, s.desc)
			var rs struct{ R, S *big.Int }
			_, _ = encasn1.Unmarshal(s.want, &rs)
			c.LabelIf(min(rs.R.BitLen(), rs.S.BitLen()) <= (s.k.Params().BitSize+7)/8*8-8, "r or s with leading zero byte")
			c.Label(s.k.Params().Name)
		}
		c.NonTrivial()
		if !conc {
			for i := range ss {
				if m := ss[i].judge(); m != "" {
					c.Violate("%s: %s", ss[i].desc, m)
				}
			}
		} else {
			c.Label("concurrent")
			msgs := make([]string, len(ss))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range ss {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					msgs[i] = ss[i].judge()
				}()
			}
			close(start)
			wg.Wait()
			for i := range ss {
				if msgs[i] != "" {
					c.Violate("signing concurrently: %s: %s", ss[i].desc, msgs[i])
				}
			}
		}
		if c.Chance("unsupported", 15) {
			k := ecKeyFrom(elliptic.P224(), "p224")
			if c.Bool("own-params") { // a curve of the same numbers that is not the standard one
				p := *elliptic.P224().Params()
				p.Name = pick(c, "name", "P-256", "secp256k1", "P-521")
				k.Curve = &p
			}
			var err error
			var sig []byte
			if m := Panics(func() { sig, err = rfc6979.Sign(k, prf("x", 32), crypto.SHA256) }); m != "" {
				c.Violate("Sign with an unsupported curve: %s", m)
			}
			if err == nil {
				c.Violate("Sign accepts curve %q: %x", k.Curve.Params().Name, sig)
			}
		}
		// through DigitallySign
		s := c.gen17()
		msg := c.Seeded("msg", c.Uni("msg-len", 0, 200))
		var ds []byte
		var err error
		c.Guard("DigitallySign", func() { ds, err = sunlight.DigitallySign(s.k, msg) })
		d := sha256.Sum256(msg)
		want, _ := refRFC6979(s.k, d[:], crypto.SHA256)
		want = append(append([]byte{4, 3}, u16(len(want))...), want...)
		if err != nil || !bytes.Equal(ds, want) {
			c.Violate("DigitallySign with key %x over %x gives %x, %v; want %x", s.k.D, msg, ds, err, want)
		}
	})
}
