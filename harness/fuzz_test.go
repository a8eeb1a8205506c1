package verifh

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"golang.org/x/mod/sumdb/note"
	"itko.dev/internal/ctsubmit"
	"itko.dev/internal/sunlight"
)

// Coverage-guided search (thorough tier, binary built with coverage instrumentation; see check.py). FuzzCase
// lets the fuzzer choose what a property draws; the others give it the bytes that a decoder reads.

var (
	fuzzF       *testing.F
	fuzzWritten time.Time
)

func fuzzInit(f *testing.F) {
	fuzzF = f
	if envOut != "" {
		envOut = fmt.Sprintf("%s.%d", envOut, os.Getpid()) // the fuzzer runs several processes
	}
	envJournal = ""
}

func FuzzCase(f *testing.F) {
	fuzzInit(f)
	tests := map[string]func(*testing.T){"TestC14": TestC14, "TestC15": TestC15, "TestC16": TestC16, "TestC16Parse": TestC16Parse, "TestC17": TestC17,
		"TestC18Bucket": TestC18Bucket}
	test, ok := tests[os.Getenv("VH_FUZZ")]
	if !ok {
		f.Skip()
	}
	test(nil)
}

// fuzzBytes runs the judge on the bytes the fuzzer makes up.
func fuzzBytes(f *testing.F, id, rule string, judge func(c *Case, b []byte), seeds ...[]byte) {
	fuzzInit(f)
	k := &check{digests: map[string]struct{}{}}
	cur = k
	k.res = result{ID: id, Labels: map[string]int{}, Rule: rule}
	for _, s := range seeds {
		f.Add(s)
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		c := &Case{k: k, labels: map[string]int{}, fatal: func(msg string) { t.Fatal(msg) }}
		defer c.finish()
		c.NoteQuiet("input %x", b)
		judge(c, b)
	})
}

func FuzzC14Leaf(f *testing.F) {
	var seeds [][]byte
	for i := 0; i < 24; i++ {
		e := &Ent{Idx: uint64(i) << (i % 35), Ts: uint64(i) * 1e11, Cert: prf(fmt.Sprint("c", i), 3*i)}
		if i%2 == 1 {
			e.Pre, e.PreCert = true, prf(fmt.Sprint("p", i), i)
		}
		for j := 0; j < i%5; j++ {
			e.Fps = append(e.Fps, sha256.Sum256([]byte{byte(j)}))
		}
		seeds = append(seeds, e.tileLeaf(), append(e.tileLeaf(), e.tileLeaf()...))
	}
	fuzzBytes(f, "C14", "the bytes decode as an entry", func(c *Case, b []byte) {
		if _, _, err := decTileLeaf(b); err == nil {
			c.NonTrivial()
		}
		c.judgeLeaf("fuzzed bytes", b)
	}, seeds...)
}

func FuzzC15Ext(f *testing.F) {
	fuzzBytes(f, "C15", "the bytes hold a leaf index", func(c *Case, b []byte) {
		in := bytes.Clone(b)
		var x sunlight.Extensions
		var err error
		c.Guard("ParseExtensions", func() { x, err = sunlight.ParseExtensions(b) })
		want, ok := refParseExt(in)
		if !bytes.Equal(in, b) {
			c.Violate("ParseExtensions changes its input")
		}
		if ok != (err == nil) || ok && x.LeafIndex != want {
			c.Violate("ParseExtensions(%x) = %d, %v; the leaf index is %d (%v)", b, x.LeafIndex, err, want, ok)
		}
		if ok {
			c.NonTrivial()
		}
	}, extBytes(0), extBytes(1<<40-1), append([]byte{7, 0, 3, 1, 2, 3}, extBytes(77)...), append(extBytes(5), 9, 0, 0))
}

func FuzzC16Ckpt(f *testing.F) {
	root := base64.StdEncoding.EncodeToString(make([]byte, 32))
	fuzzBytes(f, "C16", "the text is a well-formed checkpoint", func(c *Case, b []byte) {
		if _, _, _, _, ok, _ := refParseCkpt(string(b)); ok {
			c.NonTrivial()
		}
		c.judgeParse("fuzzed text", string(b))
	}, []byte("a\n0\n"+root+"\n"), []byte("example.com/log\n9223372036854775807\n"+root+"\nx\n"), []byte("o\n12\n"+root+"\next one\next two\n"))
}

// FuzzC16Note: no text but those that were signed verifies.
func FuzzC16Note(f *testing.F) {
	const name = "fuzz.example/log"
	key := ecKey("fuzz-note")
	good := map[Head]bool{}
	var seeds [][]byte
	for i, h := range []Head{{Size: 0, Ts: 1}, {Size: 1, Ts: 1<<40 + 1}, {Size: 256, Ts: 77}, {Size: 1<<40 + 3, Ts: 1600000000000}} {
		h.Root = Hash(sha256.Sum256([]byte{byte(i)}))
		n, err := sunlight.SignTreeHeadCheckpoint(name, key.EC, int64(h.Size), int64(h.Ts), h.Root)
		if err != nil {
			f.Fatal(err)
		}
		good[h] = true
		seeds = append(seeds, n)
	}
	var ts uint64
	v, err := sunlight.NewRFC6962Verifier(name, key.EC.Public(), func(t uint64) { ts = t })
	if err != nil {
		f.Fatal(err)
	}
	fuzzBytes(f, "C16", "the note verifies", func(c *Case, b []byte) {
		var n *note.Note
		var err error
		c.Guard("verifying a note", func() { n, err = note.Open(b, note.VerifierList(v)) })
		if err != nil {
			return
		}
		c.NonTrivial()
		// the origin line need not be the key's name, and base64 is read leniently
		_, size, root, ext, ok, _ := refParseCkpt(n.Text)
		if !ok || len(root) != 32 || ext != "" || !good[Head{Size: size, Ts: ts, Root: Hash(root)}] {
			c.Violate("a note that was never signed verifies (timestamp %d):\n%s", ts, b)
		}
	}, seeds...)
}

func FuzzC18Record(f *testing.F) {
	fuzzBytes(f, "C18", "the bytes are a record", func(c *Case, b []byte) {
		in := bytes.Clone(b)
		c.Guard("BytesToRecord", func() {
			r, err := ctsubmit.BytesToRecord(b)
			if (err == nil) != (len(in) == 21) || err == nil && !bytes.Equal(r.ToBytes(), in) {
				c.Violate("BytesToRecord(%x): %v, written again as %x", in, err, r.ToBytes())
			}
		})
		c.Guard("BytesToDedupe", func() {
			r, err := ctsubmit.BytesToDedupe(b)
			if (err == nil) != (len(in) == 29) || err == nil && !bytes.Equal(r.ToBytes(), in) {
				c.Violate("BytesToDedupe(%x): %v, written again as %x", in, err, r.ToBytes())
			}
		})
		if len(in) == 21 || len(in) == 29 {
			c.NonTrivial()
		}
	}, make([]byte, 21), make([]byte, 29), []byte(strings.Repeat("\xff", 21)), []byte(strings.Repeat("\xff", 29)))
}
