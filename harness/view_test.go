package verifh

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/url"
	"strings"
)

// View is what the read API has to show: one published tree.
type View struct {
	tree   *Tree
	size   uint64
	ent    func(i uint64) *Ent // nil: contents not known to the harness
	issuer func(fp Hash) []byte
}

// viewOf is the view of a world as last published.
func (w *World) viewOf() *View {
	h := w.publishedHead()
	return &View{tree: w.aud.tree, size: h.Size, ent: func(i uint64) *Ent { return w.aud.ents[i] }, issuer: issuerBytes}
}

func (v *View) extra(e *Ent) ([]byte, bool) {
	var chain [][]byte
	for _, fp := range e.Fps {
		b := v.issuer(fp)
		if b == nil {
			return nil, false
		}
		chain = append(chain, b)
	}
	return e.extraData(chain), true
}

type leafJSON struct {
	LeafInput []byte   `json:"leaf_input"`
	ExtraData []byte   `json:"extra_data"`
	AuditPath [][]byte `json:"audit_path"`
}

// answer is a response to a read request.
type answer struct {
	code int
	body []byte
	pan  string
}

func (m *Mon) ask(path string) answer {
	c, b, p := m.get(path)
	return answer{c, b, p}
}

// bad4xx checks that the answer is a client error.
func (a answer) want4xx() string {
	if a.pan != "" {
		return a.pan
	}
	if a.code < 400 || a.code > 499 {
		return fmt.Sprintf("status %d instead of 4xx: %.300s", a.code, a.body)
	}
	return ""
}

// notOK checks that the answer is an error (never 200 with anything).
func (a answer) wantError() string {
	if a.pan != "" {
		return a.pan
	}
	if a.code < 400 || a.code > 599 {
		return fmt.Sprintf("status %d instead of an error: %.300s", a.code, a.body)
	}
	return ""
}

func (a answer) decode(v any) string {
	if a.pan != "" {
		return a.pan
	}
	if a.code != 200 {
		return fmt.Sprintf("status %d: %.300s", a.code, a.body)
	}
	if err := json.Unmarshal(a.body, v); err != nil {
		return fmt.Sprintf("status 200 but not JSON (%v): %.300s", err, a.body)
	}
	return ""
}

func (v *View) leafMismatch(i uint64, l leafJSON) string {
	e := v.ent(i)
	if e == nil {
		Infra("the harness does not know entry %d", i)
	}
	if !bytes.Equal(l.LeafInput, e.leafInput()) {
		return fmt.Sprintf("leaf_input of entry %d is wrong: got %x, want %x", i, trunc(l.LeafInput), trunc(e.leafInput()))
	}
	x, ok := v.extra(e)
	if ok && !bytes.Equal(l.ExtraData, x) {
		return fmt.Sprintf("extra_data of entry %d is wrong: got %d bytes %x, want %d bytes %x", i, len(l.ExtraData), trunc(l.ExtraData), len(x), trunc(x))
	}
	return ""
}

func trunc(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

// entriesPrefix checks a 200 answer: entries start.. in order, at least min and at most max of them, never past end or size.
func (v *View) entriesPrefix(a answer, start uint64, min, max int) string {
	var j struct {
		Entries []leafJSON `json:"entries"`
	}
	if m := a.decode(&j); m != "" {
		return m
	}
	if len(j.Entries) < min || len(j.Entries) > max {
		return fmt.Sprintf("%d entries returned, want %d", len(j.Entries), max)
	}
	for k, l := range j.Entries {
		if m := v.leafMismatch(start+uint64(k), l); m != "" {
			return m
		}
	}
	return ""
}

// entriesCount is the number of entries get-entries has to return with the given limit.
func (v *View) entriesCount(start, end uint64, limit int) int {
	if end >= v.size {
		end = v.size - 1
	}
	n := end - start + 1
	if n > uint64(limit) {
		n = uint64(limit)
	}
	return int(n)
}

func qEntries(start, end uint64) string {
	return fmt.Sprintf("/ct/v1/get-entries?start=%d&end=%d", start, end)
}

func qProof(h Hash, size uint64) string {
	return fmt.Sprintf("/ct/v1/get-proof-by-hash?hash=%s&tree_size=%d", url.QueryEscape(base64.StdEncoding.EncodeToString(h[:])), size)
}

func qCons(a, b uint64) string {
	return fmt.Sprintf("/ct/v1/get-sth-consistency?first=%d&second=%d", a, b)
}

func qEntryProof(i, size uint64) string {
	return fmt.Sprintf("/ct/v1/get-entry-and-proof?leaf_index=%d&tree_size=%d", i, size)
}

func (v *View) checkEntries(a answer, start, end uint64, limit int) string {
	n := v.entriesCount(start, end, limit)
	return v.entriesPrefix(a, start, n, n)
}

func (v *View) checkProof(a answer, i, size uint64) string {
	var j struct {
		LeafIndex *uint64  `json:"leaf_index"`
		AuditPath [][]byte `json:"audit_path"`
	}
	if m := a.decode(&j); m != "" {
		return m
	}
	if j.LeafIndex == nil || *j.LeafIndex != i {
		return fmt.Sprintf("leaf_index is wrong: %.200s", a.body)
	}
	if j.AuditPath == nil {
		return fmt.Sprintf("audit_path is not a list: %.200s", a.body)
	}
	if !sameHashes(v.tree.Incl(i, size), j.AuditPath) {
		return fmt.Sprintf("the audit path of leaf %d in the tree of size %d is wrong (%d hashes, want %d)", i, size, len(j.AuditPath), len(v.tree.Incl(i, size)))
	}
	return ""
}

func (v *View) checkCons(a answer, first, second uint64) string {
	var j struct {
		Consistency [][]byte `json:"consistency"`
	}
	if m := a.decode(&j); m != "" {
		return m
	}
	if j.Consistency == nil {
		return fmt.Sprintf("consistency is not a list: %.200s", a.body)
	}
	if !sameHashes(v.tree.Cons(first, second), j.Consistency) {
		return fmt.Sprintf("the consistency proof between %d and %d is wrong (%d hashes, want %d)", first, second, len(j.Consistency), len(v.tree.Cons(first, second)))
	}
	return ""
}

func (v *View) checkEntryProof(a answer, i, size uint64) string {
	var j leafJSON
	if m := a.decode(&j); m != "" {
		return m
	}
	if m := v.leafMismatch(i, j); m != "" {
		return m
	}
	if j.AuditPath == nil {
		return fmt.Sprintf("audit_path is not a list: %.200s", a.body)
	}
	if !sameHashes(v.tree.Incl(i, size), j.AuditPath) {
		return fmt.Sprintf("the audit path of leaf %d in the tree of size %d is wrong (%d hashes, want %d)", i, size, len(j.AuditPath), len(v.tree.Incl(i, size)))
	}
	return ""
}

// sweep asks the monitor about the published tree around [lo, size): all entries, all leaf hashes, several proofs. n bounds the work.
func (v *View) sweep(m *Mon, lo uint64, n int) string {
	if v.size == 0 {
		for _, q := range []string{qEntries(0, 0), qEntries(0, 100), qEntryProof(0, 0), qEntryProof(0, 1), qCons(0, 1)} {
			if msg := m.ask(q).want4xx(); msg != "" {
				return q + " on an empty log: " + msg
			}
		}
		if msg := v.checkCons(m.ask(qCons(0, 0)), 0, 0); msg != "" {
			return "consistency 0 0: " + msg
		}
		return ""
	}
	if v.size-lo > uint64(n) {
		lo = v.size - uint64(n)
	}
	for s := lo; s < v.size; s += 1024 {
		if msg := v.checkEntries(m.ask(qEntries(s, v.size+50)), s, v.size+50, 1024); msg != "" {
			return fmt.Sprintf("get-entries %d..%d of size %d: %s", s, v.size+50, v.size, msg)
		}
	}
	for i := lo; i < v.size; i++ {
		e := v.ent(i)
		for _, sz := range []uint64{v.size, i + 1} {
			if msg := v.checkProof(m.ask(qProof(leafHash(e.leafInput()), sz)), i, sz); msg != "" {
				return fmt.Sprintf("get-proof-by-hash of entry %d in size %d (published %d): %s", i, sz, v.size, msg)
			}
		}
		if msg := v.checkEntryProof(m.ask(qEntryProof(i, v.size)), i, v.size); msg != "" {
			return fmt.Sprintf("get-entry-and-proof %d in %d: %s", i, v.size, msg)
		}
		if msg := v.checkCons(m.ask(qCons(i, v.size)), i, v.size); msg != "" {
			return fmt.Sprintf("get-sth-consistency %d %d: %s", i, v.size, msg)
		}
	}
	for _, q := range []string{qEntries(v.size, v.size), qEntries(v.size, v.size+10), qEntryProof(v.size, v.size+1), qCons(lo, v.size+1), qEntryProof(lo, v.size+1)} {
		if msg := m.ask(q).want4xx(); msg != "" {
			return q + ": " + msg
		}
	}
	return ""
}

func joinLimited(s []string, n int) string {
	if len(s) > n {
		s = append(append([]string{}, s[:n]...), "...")
	}
	return strings.Join(s, " ")
}
