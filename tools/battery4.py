from battery1 import LOGIC, BUCKET, CONFIG, STORAGE, MLOGIC, MFETCH, MSTORAGE, FASTLY, SETUP

GETFN = """func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfounderr bool, err error) {
"""
IMP = """import (
	"context"
	"errors"
"""
MUTS = {
 # one read for all that ask for the same object at the same time, under the first one's context
 "singleflight-ctx": ("C13,C09,C12,C25", [
  (MSTORAGE, "	\"os\"\n)", "	\"os\"\n	\"sync\"\n)"),
  (MSTORAGE, GETFN, """type call struct {
	done chan struct{}
	data []byte
	nf   bool
	err  error
}

var flightMu sync.Mutex
var flight = map[string]*call{}

func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfounderr bool, err error) {
	k := f.urlPrefix + key
	flightMu.Lock()
	if c, ok := flight[k]; ok {
		flightMu.Unlock()
		<-c.done
		return c.data, c.nf, c.err
	}
	c := &call{done: make(chan struct{})}
	flight[k] = c
	flightMu.Unlock()
	c.data, c.nf, c.err = f.get(ctx, key)
	flightMu.Lock()
	delete(flight, k)
	flightMu.Unlock()
	close(c.done)
	return c.data, c.nf, c.err
}

func (f *UrlStorage) get(ctx context.Context, key string) (data []byte, notfounderr bool, err error) {
""")]),
 "client-timeout": ("C09,C12,C13,C25", [
  (MSTORAGE, "http.DefaultClient.Do(req)", "client.Do(req)"), (MSTORAGE, "type UrlStorage struct {", "var client = &http.Client{Timeout: 500 * time.Millisecond}\n\ntype UrlStorage struct {"),
  (MSTORAGE, "	\"os\"\n)", "	\"os\"\n	\"time\"\n)")]),
 "sem-leak": ("C13,C09,C25", [
  (MSTORAGE, "	resp, err := http.DefaultClient.Do(req)\n", "	sem <- struct{}{}\n	resp, err := http.DefaultClient.Do(req)\n"),
  (MSTORAGE, "	return body, false, nil\n}\n\nfunc (f *UrlStorage)", "	<-sem\n	return body, false, nil\n}\n\nfunc (f *UrlStorage)"),
  (MSTORAGE, "type UrlStorage struct {", "var sem = make(chan struct{}, 256)\n\ntype UrlStorage struct {"),
  ]),
 "sem-leak-cut": ("C13,C25", [
  (MSTORAGE, "	resp, err := http.DefaultClient.Do(req)\n", "	sem <- struct{}{}\n	resp, err := http.DefaultClient.Do(req)\n	if err != nil || resp.StatusCode != 200 {\n		<-sem\n	}\n"),
  (MSTORAGE, "	return body, false, nil\n}\n\nfunc (f *UrlStorage)", "	<-sem\n	return body, false, nil\n}\n\nfunc (f *UrlStorage)"),
  (MSTORAGE, "type UrlStorage struct {", "var sem = make(chan struct{}, 16)\n\ntype UrlStorage struct {"),
  ]),
 "ext-url-base64": ("C01,C15,C25", [(LOGIC, "base64.StdEncoding.EncodeToString(extension)", "base64.URLEncoding.EncodeToString(extension)")]),
 "gzip-raw": ("C09", [(MSTORAGE, "	resp, err := http.DefaultClient.Do(req)\n", "	req.Header.Set(\"Accept-Encoding\", \"gzip\")\n	resp, err := http.DefaultClient.Do(req)\n")]),
 "issuer-map-race": ("C09,C12,C13,C25", [
  (MFETCH, "type Fetch struct {\n", "var issuers = map[[32]byte][]byte{}\n\ntype Fetch struct {\n"),
  (MFETCH, "	data, err := f.get(ctx, fmt.Sprintf(\"issuer/%x\", fp))\n	if err != nil {\n		return nil, err\n	}\n", "	if d, ok := issuers[fp]; ok {\n		return d, nil\n	}\n	data, err := f.get(ctx, fmt.Sprintf(\"issuer/%x\", fp))\n	if err != nil {\n		return nil, err\n	}\n	if sha256.Sum256(data) == fp {\n		issuers[fp] = data\n	}\n")]),
 "dedupe-negative": ("C05,C25", [
  (LOGIC, "	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.Sequence(0, 0)), d.maskSize)\n", """	key := dedupeKey(entry.Sequence(0, 0))
	var dedupeVal DedupeUpload
	if t, ok := misses.Load(key); ok && time.Since(t.(time.Time)) < 2*time.Second {
		err = errRecordNotFound
	} else {
		dedupeVal, err = d.bucket.GetDedupeEntry(ctx, key, d.maskSize)
		if err != nil && isNotFound(err) {
			misses.Store(key, time.Now())
		}
	}
"""),
  (LOGIC, "// TODO: Evaluate if the context", "// misses are certificates that were not in the map a moment ago\nvar misses sync.Map\n\n// TODO: Evaluate if the context"),
  (LOGIC, "	\"slices\"\n", "	\"slices\"\n	\"sync\"\n"),
 ]),
 "monitor-retries": ("C20", [
  (CONFIG, "lock, err = client.LockKey(lockpath)", "lock, err = client.LockOpts(&consul.LockOptions{Key: lockpath, MonitorRetries: 10, MonitorRetryTime: 2 * time.Second})"),
 ]),
 "sth-cache-503": ("C13", [
  (MLOGIC, "		return nil, 503, err\n	}\n	return resp, 200, nil\n}\n\nfunc (f Fetch) get_sth_consistency", "		return []byte(`{}`), 200, nil\n	}\n	return resp, 200, nil\n}\n\nfunc (f Fetch) get_sth_consistency"),
 ]),
 # the dedupe file is read once per batch and path but two records of a batch in one file lose one
 "put-stale-base": ("C18", [
  (BUCKET, """		records := f[e.hashPath]
		recordCount := len(records) / RHURecordSize
""", """		records, ok := orig[e.hashPath]
		if !ok || len(records) == 0 {
			records = f[e.hashPath]
			orig[e.hashPath] = records
		}
		recordCount := len(records) / RHURecordSize
"""),
  (BUCKET, """	// Now, update the files with the new hashes.
	for _, e := range hashes {
		records := f[e.hashPath]
		recordCount := len(records) / RHURecordSize
""", """	orig := map[string][]byte{}
	for _, e := range hashes {
		records := f[e.hashPath]
		recordCount := len(records) / RHURecordSize
"""),
 ]) if False else ("C18", [(BUCKET, "nothing", "nothing")]),
 # the STH is only rewritten when half an hour has passed
 "sth-idle": ("C23,C06", [
  (LOGIC, """			// ** Upload a new STH **
""", """			if len(pool) == 0 && d.treeSize > 0 && time.Now().Unix()%4 != 0 {
				d.publishing.Unlock()
				continue
			}
			// ** Upload a new STH **
"""),
 ]),
 "issuers-skip-known-fp": ("C03,C08,C04", [
  (LOGIC, """				for _, e := range pool {
					for _, cert := range e.entry.Chain {
""", """				for i, e := range pool {
					// The same chain as the one before
					if i > 0 && len(e.entry.Chain) == len(pool[i-1].entry.Chain) && len(e.entry.Chain) > 0 && e.entry.Chain[0].Equal(pool[i-1].entry.Chain[0]) {
						continue
					}
					for _, cert := range e.entry.Chain {
"""),
 ]),
 "data-tile-limit": ("C02,C01,C04", [
  (LOGIC, """				// upload the partial data tile
				if dataTile.Tile.W > 0 {
""", """				// upload the partial data tile
				if dataTile.Tile.W > 1 || len(pool) == 1 {
"""),
 ]),
 "timeout-on-full": ("C06", [
  (LOGIC, """		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}
""", """		select {
		case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
		default:
			time.Sleep(10 * time.Millisecond)
			select {
			case d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}:
			default:
				go func() { d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath} }()
			}
		}
"""),
 ]),
 "first-wins": ("C05,C06", [
  (LOGIC, "	for {\n		select {\n\n		// Wait for the next log entry\n", "	seen := map[[32]byte]sunlight.LogEntry{}\n	for {\n		select {\n\n		// Wait for the next log entry\n"),
  (LOGIC, """			// Sequence the unsequenced entry
""", """			// The same certificate again
			if e, ok := seen[entry.entry.CertificateFp]; ok {
				entry.returnPath <- e
				continue
			}
			if len(seen) > 1000 {
				clear(seen)
			}
			seen[entry.entry.CertificateFp] = entry.entry.Sequence(sequence, time.Now().UnixMilli())
			// Sequence the unsequenced entry
"""),
 ]),
}
del MUTS["put-stale-base"]
