from battery1 import LOGIC, BUCKET, CONFIG, STORAGE, MLOGIC, MFETCH, MSTORAGE, FASTLY, SETUP

MUTS = {
 "submit-slots": ("C07", [
  (LOGIC, "	resp, code, err := d.stageZero(r.Context(), r.Body, precertEndpoint)\n	if err != nil {\n", "	slots <- struct{}{}\n	resp, code, err := d.stageZero(r.Context(), r.Body, precertEndpoint)\n	if code != http.StatusBadRequest {\n		<-slots\n	}\n	if err != nil {\n"),
  (LOGIC, "func (d *stageZeroData) addChain(", "var slots = make(chan struct{}, 100)\n\nfunc (d *stageZeroData) addChain("),
 ]),
 "monitor-slots": ("C13", [
  (MLOGIC, "		resp, code, err := wrapped(r.Context(), r.Body, query)\n		if err != nil {\n", "		slots <- struct{}{}\n		resp, code, err := wrapped(r.Context(), r.Body, query)\n		if err != nil {\n"),
  (MLOGIC, "		w.Header().Set(\"Content-Type\", \"application/json\")\n		w.WriteHeader(code)\n", "		<-slots\n		w.Header().Set(\"Content-Type\", \"application/json\")\n		w.WriteHeader(code)\n"),
  (MLOGIC, "func wrapper(", "var slots = make(chan struct{}, 200)\n\nfunc wrapper("),
 ]),
 "s3-get-pool": ("C18,C05,C01", [
  (STORAGE, "	data, err := io.ReadAll(output.Body)\n	if err != nil {\n		return nil, err\n	}\n	return data, nil\n", "	buf := pool.Get().(*bytes.Buffer)\n	defer pool.Put(buf)\n	buf.Reset()\n	if _, err := buf.ReadFrom(output.Body); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil\n"),
  (STORAGE, "type S3Storage struct {", "var pool = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\nvar _ io.Reader\n\ntype S3Storage struct {"),
  (STORAGE, "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"sync\"\n"),
 ]),
 "fs-get-pool": ("C18,C05,C19", [
  (STORAGE, "	data, err := os.ReadFile(filePath)\n	if err != nil {\n		return nil, err\n	}\n	return data, nil\n", "	fl, err := os.Open(filePath)\n	if err != nil {\n		return nil, err\n	}\n	defer fl.Close()\n	buf := pool.Get().(*bytes.Buffer)\n	defer pool.Put(buf)\n	buf.Reset()\n	if _, err := buf.ReadFrom(fl); err != nil {\n		return nil, err\n	}\n	return buf.Bytes(), nil\n"),
  (STORAGE, "type S3Storage struct {", "var pool = sync.Pool{New: func() any { return new(bytes.Buffer) }}\n\ntype S3Storage struct {"),
  (STORAGE, "	\"path/filepath\"\n", "	\"path/filepath\"\n	\"sync\"\n"),
 ]),
 "dedupe-expiry": ("C05", [
  (LOGIC, "	if err == nil {\n		// If we recieved a valid cache hit", "	if err == nil && time.Since(time.UnixMilli(dedupeVal.timestamp)) > 90*24*time.Hour {\n		// The record has expired\n		err = errRecordNotFound\n	}\n	if err == nil {\n		// If we recieved a valid cache hit"),
 ]),
 "sth-future": ("C23,C02", [
  (LOGIC, "updatedTreeSize, uint64(time.Now().UnixMilli()), rootHash)", "updatedTreeSize, uint64(time.Now().Truncate(10*time.Millisecond).UnixMilli()), rootHash)"),
 ]),
 "roots-dedup-ski": ("C21,C07", [
  (CONFIG, "			r.AddCert(cert)\n", "			if len(cert.SubjectKeyId) > 0 && known[string(cert.SubjectKeyId)] {\n				continue\n			}\n			known[string(cert.SubjectKeyId)] = true\n			r.AddCert(cert)\n"),
  (CONFIG, "		r := x509util.NewPEMCertPool()\n", "		r := x509util.NewPEMCertPool()\n		known := map[string]bool{}\n"),
 ]),
 # a fault: only after the retries of the SDK a second try with the stale partial body
 "checkpoint-sth-parallel": ("C02,C24,C01", [
  (LOGIC, """			err = d.bucket.SetSth(ctx, jsonBytes)
			if err != nil {
				return fmt.Errorf("failed to upload new STH: %w", err)
			}
""", """			sthDone := make(chan error, 1)
			go func() { sthDone <- d.bucket.SetSth(ctx, jsonBytes) }()
"""),
  (LOGIC, """			// Update the tree size once the checkpoints are uploaded
""", """			if err = <-sthDone; err != nil && len(pool) > 0 {
				return fmt.Errorf("failed to upload new STH: %w", err)
			}
			// Update the tree size once the checkpoints are uploaded
"""),
 ]),
 "hashes-background": ("C03,C10,C24", [
  (LOGIC, "g.Go(func() error { return d.bucket.PutRecordHashes(gctx, recordHashes, d.maskSize) })", "go func() {\n					if err := d.bucket.PutRecordHashes(ctx, recordHashes, d.maskSize); err != nil {\n						fmt.Println(err)\n					}\n				}()"),
 ]),
 "kv-prefix-trim": ("C20,C21,C25", [
  (CONFIG, "		lockpath := kvpath + \"/lock\"\n", "		lockpath := path.Join(path.Dir(kvpath), \"lock\")\n"),
  (CONFIG, "	\"os/signal\"\n", "	\"os/signal\"\n	\"path\"\n"),
 ]),
}
