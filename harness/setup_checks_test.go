package verifh

import (
	"bytes"
	"context"
	"crypto/elliptic"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	cryptobyteasn1 "golang.org/x/crypto/cryptobyte/asn1"

	"itko.dev/internal/ctsetup"
	"itko.dev/internal/ctsubmit"
)

// setupNode is the setup command in a process of its own.
func setupNode() {
	log.SetOutput(os.Stderr)
	var gc ctsubmit.GlobalConfig
	if err := json.Unmarshal([]byte(os.Getenv("VH_CONF")), &gc); err != nil {
		os.Exit(97)
	}
	ctsetup.MainMain(context.Background(), os.Getenv("VH_CONSUL"), os.Getenv("VH_KV"), os.Getenv("VH_ROOTS"), gc.KeyPath, gc)
}

// laxCAs are authorities whose certificates deviate from DER or X.509 in ways that are tolerated, as some real roots do.
var laxCAs = sync.OnceValue(func() []*CA {
	var out []*CA
	lax := func(name string, key *Key, subject []byte, mod func(t *tbs)) {
		a := newCA(name, "Lax "+name, key, nil, func(t *tbs) {
			if subject != nil {
				t.subject, t.issuer = subject, subject
			}
			if mod != nil {
				mod(t)
			}
		})
		if subject != nil {
			a.Subject = subject
		}
		out = append(out, a)
	}
	pn := func(v string) []byte { // a PrintableString with characters it must not have
		return der(cryptobyteasn1.SEQUENCE, der(cryptobyteasn1.SET, der(cryptobyteasn1.SEQUENCE, derOID(2, 5, 4, 3), der(cryptobyteasn1.PrintableString, []byte(v)))))
	}
	lax("printable", ecKey("lax printable"), pn("root@example.com"), nil)
	lax("printable2", ecKey("lax printable2"), pn("Root_One & Sons*"), nil)
	lax("emptyEKU", ecKey("lax eku"), nil, func(t *tbs) { t.exts = append(t.exts, extEKU()) })
	return out
})

// oldRoots are roots as there used to be: version 1, not valid any more; and one that is no CA, with which nothing verifies.
var oldRoots = sync.OnceValue(func() []*CA {
	return []*CA{
		newCA("V1", "Version 1 Root", ecKey("v1 root"), nil, func(t *tbs) { t.v1 = true }),
		newCA("V1old", "Old Version 1 Root", ecKey("v1 old root"), nil, func(t *tbs) {
			t.v1, t.notBefore, t.notAfter = true, time.Date(1996, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2016, 1, 1, 0, 0, 0, 0, time.UTC)
		}),
		newCA("noCA", "No CA", ecKey("no ca"), nil, func(t *tbs) { t.exts[0] = extBC(false) }),
	}
})

// rootPool are authorities a bundle is drawn from; each can issue a leaf directly.
var rootPool = sync.OnceValue(func() []*CA {
	p := pki()
	out := []*CA{p.R1, p.R2, p.R3, p.RI, p.RX, p.RE, oldRoots()[0], oldRoots()[1], oldRoots()[2]}
	for i := 0; i < 6; i++ {
		curve := []elliptic.Curve{elliptic.P256(), elliptic.P384(), elliptic.P521()}[i%3]
		out = append(out, newCA(fmt.Sprintf("S%d", i), fmt.Sprintf("Setup Root %d", i), ecKeyC(curve, fmt.Sprintf("setup root %d", i)), nil, nil))
	}
	// same name and key, another certificate
	out = append(out, newCA("S0b", "Setup Root 0", ecKeyC(elliptic.P256(), "setup root 0"), nil, nil))
	return append(out, laxCAs()...)
})

// genBundle draws a bundle of root certificates; it returns the file and the distinct certificates.
func genBundle(c *Case) (data []byte, in []*CA, desc string) {
	pool := rootPool()
	n := c.Uni("roots", 1, 8)
	seen := map[*CA]bool{}
	var b bytes.Buffer
	nl := "\n"
	if c.Chance("crlf", 20) {
		nl = "\r\n"
	}
	junk := func() {
		switch c.weighted("between", 50, 15, 15, 10, 10) {
		case 1:
			b.WriteString("# a comment" + nl + "Subject: CN=x" + nl)
		case 2:
			t := pick(c, "block", "CERTIFICATE REQUEST", "X509 CRL", "PUBLIC KEY", "TRUSTED CERTIFICATE", "EC PARAMETERS")
			b.WriteString(strings.ReplaceAll(string(pem.EncodeToMemory(&pem.Block{Type: t, Bytes: prf("junk", 40)})), "\n", nl))
			desc += " [" + t + "]"
		case 3: // another kind of block that holds a certificate
			b.WriteString(strings.ReplaceAll(string(pem.EncodeToMemory(&pem.Block{Type: "PKCS7", Bytes: pool[0].Cert})), "\n", nl))
			desc += " [PKCS7]"
		case 4:
			b.WriteString(nl + nl)
		}
	}
	var order []*CA
	for i := 0; i < n; i++ {
		var a *CA
		if len(order) > 0 && c.Chance("dup", 20) {
			a = order[c.Uni("which", 0, len(order)-1)]
		} else {
			a = pool[c.Uni("root", 0, len(pool)-1)]
		}
		order = append(order, a)
		if !seen[a] {
			seen[a] = true
			in = append(in, a)
		}
		junk()
		desc += " " + a.Name
		b.WriteString(strings.ReplaceAll(string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: a.Cert})), "\n", nl))
	}
	junk()
	data = b.Bytes()
	if c.Chance("noNL", 20) {
		data = bytes.TrimRight(data, "\r\n")
	}
	return
}

// TestC21: setup, then the first start of the log.
func TestC21(t *testing.T) {
	runCheck(t, "C21", "a bundle of generated roots was set up, the log started from it, and submissions under roots in and out of the bundle were judged", 30, 2000, func(c *Case) {
		fs := c.Chance("fs", 40)
		mask := c.Uni("mask", 0, 5)
		if fs && mask == 0 {
			mask = 1 // a file cannot have an empty name
		}
		w := newWorld(c, WorldOpts{Mask: mask, Flush: c.Uni("flush", 5, 30), FS: fs})
		defer w.close()
		// an empty store
		if fs {
			must0(os.RemoveAll(w.st.dir))
			if c.Chance("dirExists", 50) {
				must0(os.MkdirAll(w.st.dir, 0o755))
			}
		} else {
			w.st.mu.Lock()
			w.st.objs = map[string][]byte{}
			w.st.virt = nil
			w.st.mu.Unlock()
		}
		aud := w.st.aud
		w.st.aud = nil

		key := pick(c, "key", logKey(), ecKey("setup log key"), ecKeyC(elliptic.P256(), fmt.Sprintf("setup key %d", c.Uni("k", 0, 5))))
		id := sha256.Sum256(key.SPKI)
		keyFile := filepath.Join(scratchDir(), fmt.Sprintf("key-%d.pem", c.k.res.Evals))
		must0(os.WriteFile(keyFile, ecPEM(key), 0o600))
		bundle, in, desc := genBundle(c)
		rootsFile := filepath.Join(scratchDir(), "roots.pem")
		must0(os.WriteFile(rootsFile, bundle, 0o600))
		c.Note("fs %v, mask %d, bundle:%s", fs, mask, desc)

		inst := w.st.newInst()
		kv := pick(c, "kvKind", "plain", "a/b/c", "x y", "log.example-1") + fmt.Sprintf("/%d", atomic.AddInt64(&kvSeq, 1))
		name := pick(c, "name", origin, "localhost:8080/test", "a", "Log.Example/2025H1", "ünïcode.example/<&>")
		gc := ctsubmit.GlobalConfig{Name: name, KeyPath: keyFile, LogID: base64.StdEncoding.EncodeToString(id[:]), ListenAddress: pick(c, "la", "", "127.0.0.1:6962", "[::]:80"),
			MaskSize: mask, NotAfterStart: w.start.Format(time.RFC3339), NotAfterLimit: w.limit.Format(time.RFC3339), FlushMs: w.flush}
		if fs {
			gc.RootDirectory = c.dirForm(w.st.dir)
			if c.Chance("alsoS3", 30) { // the directory is preferred
				gc.S3Bucket, gc.S3EndpointUrl = "unused", "http://127.0.0.1:1"
			}
		} else {
			gc.S3Bucket, gc.S3Region, gc.S3EndpointUrl = inst.Name, pick(c, "region", "us-east-1", "auto"), s3().url
			gc.S3StaticCredentialUserName, gc.S3StaticCredentialPassword = "user", "pass<word>&\""
		}
		want := map[string]any{"name": gc.Name, "keyPath": gc.KeyPath, "logID": gc.LogID, "listenAddress": gc.ListenAddress, "maskSize": float64(gc.MaskSize),
			"rootDirectory": gc.RootDirectory, "s3Bucket": gc.S3Bucket, "s3Region": gc.S3Region, "s3EndpointUrl": gc.S3EndpointUrl,
			"s3StaticCredentialUserName": gc.S3StaticCredentialUserName, "s3StaticCredentialPassword": gc.S3StaticCredentialPassword,
			"notAfterStart": gc.NotAfterStart, "notAfterLimit": gc.NotAfterLimit, "flushMs": float64(gc.FlushMs)}

		// a failing step must be reported
		if c.Chance("fault", 12) {
			what := pick(c, "what", "ct/v1/get-roots", "ct/v1/get-sth", "consul", "roots file", "key file")
			if fs && strings.HasPrefix(what, "ct/") {
				what = "consul"
			}
			c.failedSetup(what, kv, rootsFile, gc, inst)
		}

		mon := w.monitor()
		// an operator who runs setup again, before the log first starts, gets what the last run was given
		if c.Chance("setUpBefore", 35) {
			old := gc
			okey := key
			if c.Bool("oldKey") {
				okey = ecKey("earlier setup key")
				oid := sha256.Sum256(okey.SPKI)
				old.LogID = base64.StdEncoding.EncodeToString(oid[:])
			}
			if c.Bool("oldName") {
				old.Name, old.ListenAddress = "earlier."+old.Name, "127.0.0.1:1111"
			}
			if c.Bool("oldWindow") {
				old.NotAfterStart, old.NotAfterLimit = "2001-01-01T00:00:00Z", "2002-01-01T00:00:00Z"
			}
			old.FlushMs += c.Uni("oldFlush", 0, 5)
			old.KeyPath = filepath.Join(scratchDir(), "earlier-key.pem")
			must0(os.WriteFile(old.KeyPath, ecPEM(okey), 0o600))
			ob, _, od := genBundle(c)
			of := filepath.Join(scratchDir(), "earlier-roots.pem")
			must0(os.WriteFile(of, ob, 0o600))
			c.Note("set up before with bundle:%s", od)
			c.Guard("an earlier setup", func() { ctsetup.MainMain(context.Background(), consul().addr, kv, of, old.KeyPath, old) })
			for _, u := range []string{"/ct/v1/get-roots", "/ct/v1/get-sth"} { // a monitor that runs already
				if a := mon.ask(u); a.code != 200 {
					c.Violate("%s of the log as it was set up first: %d %s %s", u, a.code, a.body, a.pan)
				}
			}
			c.Label("set up before")
		}

		t0 := time.Now().UnixMilli()
		c.Guard("setup", func() { ctsetup.MainMain(context.Background(), consul().addr, kv, rootsFile, keyFile, gc) })
		t1 := time.Now().UnixMilli()

		// what is stored
		raw, ok := consul().getKV(kv + "/config")
		if !ok {
			c.Violate("setup stored no configuration at %s/config", kv)
		}
		var got map[string]any
		if err := json.Unmarshal(raw, &got); err != nil {
			c.Violate("the stored configuration is not JSON: %v %s", err, raw)
		}
		for k, v := range want {
			if !reflect.DeepEqual(got[k], v) && !(got[k] == nil && reflect.ValueOf(v).IsZero()) {
				c.Violate("the stored configuration has %q = %v, given was %v", k, got[k], v)
			}
		}
		var wantRoots = map[Hash]string{}
		for _, a := range in {
			wantRoots[a.fp()] = a.Name
		}
		rb, ok := w.st.get("ct/v1/get-roots")
		if !ok {
			c.Violate("setup stored no root list")
		}
		if m := sameRoots(rb, wantRoots); m != "" {
			c.Violate("stored root list: %s", m)
		}
		sb, ok := w.st.get("ct/v1/get-sth")
		if !ok {
			c.Violate("setup stored no tree head")
		}
		pub := &key.EC.PublicKey
		h, err := parseSTH(sb, pub)
		if err != nil || h.Size != 0 || h.Root != sha256.Sum256(nil) {
			c.Violate("the stored tree head is not a valid head of the empty tree: %v %s", err, sb)
		}
		if int64(h.Ts) < t0 || int64(h.Ts) > t1 {
			c.Violate("the stored tree head has timestamp %d, setup ran from %d to %d", h.Ts, t0, t1)
		}
		serve := func(when string) {
			a := mon.ask("/ct/v1/get-roots")
			if a.code != 200 {
				c.Violate("%s, get-roots: %d %s %s", when, a.code, a.body, a.pan)
			}
			if m := sameRoots(a.body, wantRoots); m != "" {
				c.Violate("%s, get-roots: %s", when, m)
			}
			for tries := 0; ; tries++ { // the log may publish meanwhile
				before, _ := w.st.get("ct/v1/get-sth")
				a = mon.ask("/ct/v1/get-sth")
				after, _ := w.st.get("ct/v1/get-sth")
				if a.code != 200 {
					c.Violate("%s, get-sth: %d %s %s", when, a.code, a.body, a.pan)
				}
				if !bytes.Equal(before, after) && tries < 100 {
					continue
				}
				if !bytes.Equal(a.body, before) && !bytes.Equal(a.body, after) {
					c.Violate("%s, get-sth serves %s, published is %s", when, a.body, before)
				}
				break
			}
		}
		serve("before the first start")

		// the first start
		if !fs {
			w.st.mu.Lock()
			w.st.aud = aud
			w.st.mu.Unlock()
		}
		w.aud.setLog(key, name)
		ctx, cancel := context.WithCancel(context.Background())
		p := &Proc{inst: inst, kv: kv, cancel: cancel, ctx: ctx}
		var msg string
		if p.h, err, msg = c.startLog(ctx, kv, inst); msg != "" {
			c.Violate("the first start: %s", msg)
		}
		w.cur = p
		if err != nil {
			c.Violate("the log does not start after setup: %v (bundle:%s)", err, desc)
		}
		if !w.waitHeads(4) {
			c.Violate("the log publishes no tree heads after setup")
		}
		w.check()
		h, err = parseSTH(first(w.st.get("ct/v1/get-sth")), pub)
		if err != nil || h.Size != 0 || h.Root != sha256.Sum256(nil) {
			c.Violate("the published tree head of the new log is not a valid empty one: %v", err)
		}
		cp, err := parseCheckpointNote(first(w.st.get("checkpoint")), name, pub, key.SPKI)
		if err != nil || cp.Size != 0 || cp.Root != sha256.Sum256(nil) {
			c.Violate("the published checkpoint of the new log is not a valid empty one: %v", err)
		}
		serve("after the first start")

		// submissions
		accepted := uint64(0)
		pool := rootPool()
		for k := c.Uni("subs", 2, 5); k > 0; k-- {
			var a *CA
			if c.Chance("inside", 65) || accepted == 0 && k == 1 {
				a = in[c.Uni("ix", 0, len(in)-1)]
			} else {
				a = pool[c.Uni("any", 0, len(pool)-1)]
			}
			_, inside := wantRoots[a.fp()]
			for _, o := range in { // a root with the same name and key is as good, unless the root itself is posted
				if !inside && bytes.Equal(o.Subject, a.Subject) && o.Key == a.Key || a.Name == "S0b" && o.Name == "S0" || a.Name == "S0" && o.Name == "S0b" {
					inside = true
				}
			}
			l := makeLeaf(LeafSpec{Label: fmt.Sprintf("setup %d %d", c.Int("salt", 0, 1<<30), k)}, a)
			ch := &Chain{Leaf: l, Posted: [][]byte{l.DER}, Desc: "leaf under " + a.Name}
			code, body, pm := p.post(endpoint(false), chainBody(ch.Posted))
			c.NoteQuiet("%s: inside %v, %d", ch.Desc, inside, code)
			switch {
			case pm != "":
				c.Violate("%s: %s", ch.Desc, pm)
			case inside && a.Name == "noCA":
				if code == 200 {
					accepted++
				}
			case inside && code != 200:
				c.Violate("%s, which is in the bundle: %d %s", ch.Desc, code, body)
			case !inside && code == 200:
				c.Violate("%s, which is not in the bundle, was accepted", ch.Desc)
			case code == 200:
				var s sctJSON
				if err := json.Unmarshal(body, &s); err != nil {
					c.Violate("response: %v %s", err, body)
				}
				if !bytes.Equal(s.ID, id[:]) {
					c.Violate("the SCT names log %x, the key of the log gives %x", s.ID, id)
				}
				if e := base64.StdEncoding.EncodeToString(extBytes(accepted)); s.Extensions != e {
					c.Violate("accepted submission number %d on the new log got the extensions %s, index %d would be %s", accepted, s.Extensions, accepted, e)
				}
				accepted++
			}
			c.LabelIf(inside && isLax(a), "accepted under a lax root")
			c.LabelIf(!inside, "outside the bundle")
		}
		w.check()
		c.NonTrivial()
	})
}

func isLax(a *CA) bool {
	for _, l := range laxCAs() {
		if l == a {
			return true
		}
	}
	return false
}

func first(b []byte, _ bool) []byte { return b }

// sameRoots compares a root list with the certificates it must hold.
func sameRoots(b []byte, want map[Hash]string) string {
	var res struct {
		Certificates [][]byte `json:"certificates"`
	}
	if err := json.Unmarshal(b, &res); err != nil {
		return fmt.Sprintf("%v %s", err, trunc(b))
	}
	seen := map[Hash]bool{}
	for _, r := range res.Certificates {
		h := sha256.Sum256(r)
		if want[h] == "" {
			return fmt.Sprintf("holds a certificate (SHA-256 %x) that is not in the bundle", h[:8])
		}
		if seen[h] {
			return "holds " + want[h] + " twice"
		}
		seen[h] = true
	}
	for h, n := range want {
		if !seen[h] {
			return "lacks " + n
		}
	}
	return ""
}

// failedSetup runs setup with one failing step; it must not end as if it had succeeded.
func (c *Case) failedSetup(what, kv, rootsFile string, gc ctsubmit.GlobalConfig, inst *Inst) {
	addr := consul().addr
	switch what {
	case "consul":
		addr = "127.0.0.1:1"
	case "roots file":
		rootsFile += ".missing"
	case "key file":
		gc.KeyPath += ".missing"
	default:
		inst.SetPlan(func(op Op) Action {
			if op.Key == what {
				return Action{Status: 403}
			}
			return Action{}
		})
	}
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VH_NODE=setup", "VH_KV="+kv, "VH_CONSUL="+addr, "VH_ROOTS="+rootsFile, "VH_CONF="+string(must(json.Marshal(gc))))
	cmd.Dir = scratchDir()
	out, err := cmd.CombinedOutput()
	inst.SetPlan(nil)
	c.Note("setup with failing %s: %v", what, err)
	c.Label("failing step: " + what)
	if err == nil {
		c.Violate("setup ended with success although this failed: %s\n%s", what, out)
	}
}
