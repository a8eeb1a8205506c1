"""Edits that keep the behaviour, for battery.py: every check named is to stay quiet ("MISSED rc=0")."""
from battery1 import *

SUB = "C01,C02,C03,C04,C05,C06,C07,C08,C16,C18,C20,C21,C23,C24,C25"
MON = "C04,C09,C10,C11,C12,C13,C21,C22,C25"

LOOPFLUSH = """				// Create a copy of the pool
				closedPool := make([]LogEntryWithReturnPath, len(pool))
				copy(closedPool, pool)

				// Clear the original pool
				pool = pool[:0]
				d.stageTwoTx <- closedPool

				// Update the last flush time
				lastFlushTime = time.Now()
"""
TICKFLUSH = """			// Create a copy of the pool
			closedPool := make([]LogEntryWithReturnPath, len(pool))
			copy(closedPool, pool)

			// Clear the original pool
			pool = pool[:0]
			d.stageTwoTx <- closedPool
			
			// Update the last flush time
			lastFlushTime = time.Now()
"""
DDGET = """	recordCount := len(f) / DDURecordSize

	for i := 0; i < recordCount; i++ {
		record, err := BytesToDedupe(f[i*DDURecordSize : (i+1)*DDURecordSize])
		if err != nil {
			return DedupeUpload{}, err
		}
		if bytes.Equal(hash[:], record.hash[:]) {
			return record, nil
		}
	}
	return DedupeUpload{}, errRecordNotFound
"""
RHFETCH = """	// First, get all the files corresponding to all of the hashes.
	for _, e := range hashes {
		if _, ok := f[e.hashPath]; ok {
			continue
		}

		var err error
		f[e.hashPath], err = b.S.Get(ctx, "int/hashes/"+e.hashPath)
		if err != nil {
			// TODO: move this logic into the storage interface
			var notFound *s3types.NoSuchKey
			if errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist) {
				// If the file is not found, create a new one.
				f[e.hashPath] = make([]byte, 0)
			} else {
				return err
			}
		}
	}
"""
RHINSERT = """		records := f[e.hashPath]
		recordCount := len(records) / RHURecordSize

		// Find the insertion point
		insertIndex := recordCount
		for i := 0; i < recordCount; i++ {
			// insert 4 into the list 1 3 5 7 9.
			// iterate until we find the first value that 4 is less than. Then, insert into that index.

			// This is true if the first value is less than the second
			if bytes.Compare(e.hash[:], records[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize]) < 0 {
				// the insertion point should be where the compared value currently is
				insertIndex = i
				break
			}
		}

		// Create the new byte slice with the inserted record
		newRecords := make([]byte, len(records)+RHURecordSize)
		copy(newRecords[:insertIndex*RHURecordSize], records[:insertIndex*RHURecordSize])
		// The end of the newRecords slice does not need to be defined since copy will only copy the minimum of the two slices
		copy(newRecords[insertIndex*RHURecordSize:], e.ToBytes())
		copy(newRecords[(insertIndex+1)*RHURecordSize:], records[insertIndex*RHURecordSize:])

		f[e.hashPath] = newRecords
"""
TILEUP = """					g.Go(func() error { return d.bucket.SetTile(gctx, tile, data) })
					if err != nil {
						return fmt.Errorf("failed to upload tile %v: %w", tile, err)
					}
"""
DEDUPE = """			// ** Upload the dedupe mappings **
			// TODO: This isn't the best cache key, because it fails to distinguish between
			// a certificate that is submitted with a different chain. This is a problem because
			// I think the specific chain the certificate was submitted with also matters.
			dedupeVals := make([]DedupeUpload, 0, len(pool))
			for _, e := range pool {
				dedupeVals = append(dedupeVals, DedupeUpload{
					hash:      dedupeKey(e.entry),
					leafIndex: e.entry.LeafIndex,
					timestamp: e.entry.Timestamp,
				})
			}
			err = d.bucket.PutDedupeEntries(ctx, dedupeVals, d.maskSize)
			if err != nil {
				return fmt.Errorf("failed to upload dedupe mappings: %w", err)
			}
"""
MUTS = {
 # stage one: flush in a helper, without the copy, with a bigger first buffer
 "flush-helper": (SUB, [(LOGIC, LOOPFLUSH, "				flush()\n"), (LOGIC, TICKFLUSH, "			flush()\n"),
   (LOGIC, "	// Loop over the channel and context\n	for {\n		select {\n\n		// Wait for the next log entry\n", """	flush := func() {
		closed := pool
		pool = make([]LogEntryWithReturnPath, 0, MAX_POOL_SIZE)
		d.stageTwoTx <- closed
		lastFlushTime = time.Now()
	}
	for {
		select {

		// Wait for the next log entry
""")]),
 # one timer that is reset after every event instead of time.After
 "timer-reset": (SUB, [(LOGIC, "	// Loop over the channel and context\n	for {\n		select {\n\n		// Wait for the next log entry\n", """	timer := time.NewTimer(FLUSH_INTERVAL)
	defer timer.Stop()
	for {
		timer.Reset(FLUSH_INTERVAL)
		select {

		// Wait for the next log entry
"""), (LOGIC, "		case <-time.After(FLUSH_INTERVAL):\n", "		case <-timer.C:\n")]),
 # tiles one after the other, issuers before the tiles and each once per batch, indexes last
 "uploads-in-order": (SUB, [(LOGIC, ISSUERS, ""), (LOGIC, TILEUP, """					if err := d.bucket.SetTile(gctx, tile, data); err != nil {
						return fmt.Errorf("failed to upload tile %v: %w", tile, err)
					}
"""), (LOGIC, "				// ** Upload the tree tiles **\n", """				seen := make(map[[32]byte]bool)
				for _, e := range pool {
					for i, cert := range e.entry.Chain {
						if fp := e.entry.ChainFp[i]; !seen[fp] {
							seen[fp] = true
							if err := d.bucket.SetIssuer(gctx, cert); err != nil {
								return fmt.Errorf("failed to upload issuer: %w", err)
							}
						}
					}
				}

				// ** Upload the tree tiles **
"""), (LOGIC, "				// ** Upload the v1 leaf record hash mappings **\n				g.Go(func() error { return d.bucket.PutRecordHashes(gctx, recordHashes, d.maskSize) })\n", ""),
   (LOGIC, """					return fmt.Errorf("failed to upload data: %w", err)
				}
""", """					return fmt.Errorf("failed to upload data: %w", err)
				}
				if err := d.bucket.PutRecordHashes(ctx, recordHashes, d.maskSize); err != nil {
					return fmt.Errorf("failed to upload record hashes: %w", err)
				}
""")]),
 # uploads limited to four at a time
 "uploads-limit": (SUB, [(LOGIC, "				g, gctx := errgroup.WithContext(ctx)\n", "				g, gctx := errgroup.WithContext(ctx)\n				g.SetLimit(4)\n")]),
 # the same batch also remembers its issuers, across batches (an issuer is written before it is remembered)
 "issuer-memory": (SUB, [(LOGIC, ISSUERS, """				stored := make([][32]byte, 0)
				for _, e := range pool {
					for i, cert := range e.entry.Chain {
						if fp := e.entry.ChainFp[i]; !issuers[fp] {
							issuers[fp] = true
							stored = append(stored, fp)
							g.Go(func() error { return d.bucket.SetIssuer(gctx, cert) })
						}
					}
				}
				_ = stored
"""), (LOGIC, """) error {
	// Loop over the channel and context
	for {
		select {
		case pool, ok""", """) error {
	// A failed upload ends this stage, so what is in here has been stored
	issuers := make(map[[32]byte]bool)
	for {
		select {
		case pool, ok""")]),
 # duplicate records one file at a time, keys computed by a helper
 "dedupe-helper": (SUB, [(LOGIC, DEDUPE, """			if err = d.putDedupe(ctx, pool); err != nil {
				return fmt.Errorf("failed to upload dedupe mappings: %w", err)
			}
"""), (LOGIC, "func (d *stageTwoData) hashReader(", """func (d *stageTwoData) putDedupe(ctx context.Context, pool []LogEntryWithReturnPath) error {
	vals := make([]DedupeUpload, len(pool))
	for i := range pool {
		e := &pool[i].entry
		vals[i].hash, vals[i].leafIndex, vals[i].timestamp = dedupeKey(*e), e.LeafIndex, e.Timestamp
	}
	return d.bucket.PutDedupeEntries(ctx, vals, d.maskSize)
}

func (d *stageTwoData) hashReader(""")]),
 # one timestamp for the tree head and the checkpoint, both signed before either is written
 "sign-both-first": (SUB, [(LOGIC, STH, ""), (LOGIC, """			err = d.bucket.SetCheckpoint(ctx, checkpointBytes)
""", STH + """
			err = d.bucket.SetCheckpoint(ctx, checkpointBytes)
"""), (LOGIC, """			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(time.Now().UnixMilli()), rootHash)""", """			now := time.Now().UnixMilli()
			jsonBytes, err := sunlight.SignTreeHead(d.signingKey, updatedTreeSize, uint64(now), rootHash)"""),
   (LOGIC, "int64(updatedTreeSize), time.Now().UnixMilli(), rootHash)", "int64(updatedTreeSize), now, rootHash)")]),
 # the duplicate index is searched in a loop over subslices
 "dedupe-scan": (SUB, [(BUCKET, DDGET, """	for rest := f; len(rest) >= DDURecordSize; rest = rest[DDURecordSize:] {
		if [16]byte(rest[:DDUHashSize]) == hash {
			return BytesToDedupe(rest[:DDURecordSize])
		}
	}
	return DedupeUpload{}, errRecordNotFound
""")]),
 # index files read at the same time
 "index-parallel": (SUB + ",C09,C10", [(BUCKET, RHFETCH, """	for _, e := range hashes {
		f[e.hashPath] = nil
	}
	var mu sync.Mutex
	r, rctx := errgroup.WithContext(ctx)
	paths := make([]string, 0, len(f))
	for p := range f {
		paths = append(paths, p)
	}
	for _, p := range paths {
		r.Go(func() error {
			data, err := b.S.Get(rctx, "int/hashes/"+p)
			if err != nil {
				if !isNotFound(err) {
					return err
				}
				data = []byte{}
			}
			mu.Lock()
			f[p] = data
			mu.Unlock()
			return nil
		})
	}
	if err := r.Wait(); err != nil {
		return err
	}
"""), (BUCKET, '	"os"\n', '	"os"\n	"sync"\n'), (BUCKET, RHINSERT, """		records := f[e.hashPath]
		at := sort.Search(len(records)/RHURecordSize, func(i int) bool {
			return bytes.Compare(e.hash[:], records[i*RHURecordSize:i*RHURecordSize+RHUHashSize]) < 0
		}) * RHURecordSize
		f[e.hashPath] = slices.Concat(records[:at], e.ToBytes(), records[at:])
"""), (BUCKET, '	"fmt"\n', '	"fmt"\n	"slices"\n	"sort"\n')]),
 # a failed batch does not keep the publishing lock but remembers that it failed
 # request parsing and answering as helpers
 "stage-zero-helpers": (SUB, [(LOGIC, """	body, err := io.ReadAll(reqBody)
	if err != nil {
		return nil, http.StatusInternalServerError, fmt.Errorf("unable to read request body: %w", err)
	}

	var req struct {
		Chain [][]byte `json:"chain"`
	}

	if err := json.Unmarshal(body, &req); err != nil {
		return nil, http.StatusBadRequest, fmt.Errorf("unable to unmarshal request body: %w", err)
	}
	if len(req.Chain) == 0 {
		return nil, http.StatusBadRequest, fmt.Errorf("chain is empty")
	}
""", """	req, code, err := readChain(reqBody)
	if err != nil {
		return nil, code, err
	}
"""), (LOGIC, "func (d *stageZeroData) addChain(", """func readChain(reqBody io.ReadCloser) (req ct.AddChainRequest, code int, err error) {
	defer reqBody.Close()
	body, err := io.ReadAll(reqBody)
	if err != nil {
		return req, http.StatusInternalServerError, fmt.Errorf("unable to read request body: %w", err)
	}
	if err := json.Unmarshal(body, &req); err != nil {
		return req, http.StatusBadRequest, fmt.Errorf("unable to unmarshal request body: %w", err)
	}
	if len(req.Chain) == 0 {
		return req, http.StatusBadRequest, fmt.Errorf("chain is empty")
	}
	return req, 0, nil
}

func (d *stageZeroData) addChain(""")]),
 # the validation options are made once, at the start
 "options-once": (SUB, [(LOGIC, """	validationOpts := ctfe.NewCertValidationOpts(d.roots, time.Time{},
		false, false, &d.notAfterStart, &d.notAfterLimit,
		false, nil)

	chain, err := ctfe.ValidateChain(req.Chain, validationOpts)
""", """	chain, err := ctfe.ValidateChain(req.Chain, d.validation)
"""), (CONFIG, "	signingKey *ecdsa.PrivateKey\n}\n\ntype stageOneData", "	signingKey *ecdsa.PrivateKey\n	validation ctfe.CertValidationOpts\n}\n\ntype stageOneData"),
   (CONFIG, "			signingKey: key,\n		}\n	}\n\n	var stageOne stageOneData\n", """			signingKey: key,
		}
		stageZero.validation = ctfe.NewCertValidationOpts(r, time.Time{},
			false, false, &notAfterStart, &notAfterLimit,
			false, nil)
	}

	var stageOne stageOneData
"""), (CONFIG, '	"github.com/google/certificate-transparency-go/x509"\n', '	"github.com/google/certificate-transparency-go/trillian/ctfe"\n	"github.com/google/certificate-transparency-go/x509"\n')]),
 # the edge is loaded tile by tile after the data tile, roots before the tree head
 "start-reordered": (SUB, [(CONFIG, "	stageOneCommChan := make(chan UnsequencedEntryWithReturnPath, 200)\n", "	stageOneCommChan := make(chan UnsequencedEntryWithReturnPath, 256)\n"),
   (CONFIG, """					log.Println("Fetching tile", key)
					return bucket.S.Get(ctx, key)
""", """					data, err := bucket.S.Get(ctx, key)
					if err != nil {
						data, err = bucket.S.Get(ctx, key)
					}
					return data, err
""")]),
 # S3: an HTTP client of its own, HEAD answered by the typed error as well
 "s3-exists-typed": (SUB + ",C19", [(STORAGE, """		var responseError *awshttp.ResponseError
		if errors.As""", """		var none *s3types.NotFound
		if errors.As(err, &none) {
			return false, nil
		}
		var responseError *awshttp.ResponseError
		if errors.As"""), (STORAGE, "	// s3types", "	s3types")]),
 "s3-set-length": (SUB + ",C19", [(STORAGE, "		Body:   bytes.NewReader(data),\n", "		Body:   bytes.NewReader(data),\n		ContentLength: aws.Int64(int64(len(data))),\n		ContentType: aws.String(\"application/octet-stream\"),\n")]),
 # directory: directories first, then the file
 "fs-mkdir-first": (SUB + ",C19", [(STORAGE, """	// Attempt to write the file
	err := writeFileAtomic(filePath, data)
""", """	if err := os.MkdirAll(filepath.Dir(filePath), 0755); err != nil {
		return fmt.Errorf("failed to create directories: %w", err)
	}
	err := writeFileAtomic(filePath, data)
"""), (STORAGE, "	filePath := f.root + \"/\" + key\n\n	// Attempt", "	filePath := filepath.Join(f.root, filepath.FromSlash(key))\n\n	// Attempt") ][:1]),
 "fs-sync": (SUB + ",C19", [(STORAGE, """	if err == nil {
		err = tmp.Chmod(0644)
	}
""", """	if err == nil {
		err = tmp.Chmod(0644)
	}
	if err == nil {
		err = tmp.Sync()
	}
""")]),
 # monitor: tiles remembered for the time of a request
 "tile-memory": (MON, [(MLOGIC, """	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
""", "	cache := make(map[tlog.Tile][]byte)\n"), (MLOGIC, """			data, err := f.getTile(ctx, tile, publishedTreeSize)
			if err != nil {
				return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
			}
""", """			key := tile
			key.W = 0
			data, ok := cache[key]
			if !ok {
				var err error
				data, err = f.getTile(ctx, tile, publishedTreeSize)
				if err != nil {
					return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
				}
				cache[key] = data
			}
""")]),
 # monitor: data tiles of one answer in one loop
 "tiles-loop": (MON, [(MLOGIC, """	// In this case, the last tile is the same as the first tile so we only need to fetch one tile
	if firstTile.N == lastTile.N {
		data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
		if err != nil {
			return nil, 513, err
		}
		dataTiles = append(dataTiles, tileWithBytes{lastTile, data})
	} else {
		{
			// If the index of the last tile is greater than the index of the first tile,
			// it means the first tile is complete
			firstTile.W = 256
			data, err := f.getTile(ctx, firstTile, int64(sth.TreeSize))
			if err != nil {
				return nil, 514, err
			}
			dataTiles = append(dataTiles, tileWithBytes{firstTile, data})
		}

		{
			// We also need to fetch all the tiles in middle. Here, we sort of just
			// need to define the tile ourselves and fetch it
			for i := firstTile.N + 1; i < lastTile.N; i++ {
				tile := tlog.Tile{
					H: sunlight.TileHeight,
					L: -1,
					N: i,
					W: 256,
				}

				data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
				if err != nil {
					return nil, 515, err
				}
				dataTiles = append(dataTiles, tileWithBytes{tile, data})
			}

		}

		{
			// Finally, fetch the last tile
			data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
			if err != nil {
				return nil, 516, err
			}
			dataTiles = append(dataTiles, tileWithBytes{lastTile, data})
		}
	}
""", """	for n := firstTile.N; n <= lastTile.N; n++ {
		tile := tlog.Tile{H: sunlight.TileHeight, L: -1, N: n, W: sunlight.TileWidth}
		data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
		if err != nil {
			return nil, 513, err
		}
		dataTiles = append(dataTiles, tileWithBytes{tile, data})
	}
""")]),
 # monitor: parameters read by a helper, messages for missing ones
 "param-helper": (MON, [(MLOGIC, """	// Get and decode the leaf index parameter
	leafIndexStr := query.Get("leaf_index")
	if leafIndexStr == "" {
		return nil, 400, err
	}
	leafIndex, err := strconv.ParseInt(leafIndexStr, 10, 64)
	if err != nil {
		return nil, 400, err
	}
	// Get and decode the tree size parameter
	treeSizeStr := query.Get("tree_size")
	if treeSizeStr == "" {
		return nil, 400, err
	}
	treeSize, err := strconv.ParseInt(treeSizeStr, 10, 64)
	if err != nil {
		return nil, 400, err
	}
""", """	leafIndex, err := intParam(query, "leaf_index")
	if err != nil {
		return nil, 400, err
	}
	treeSize, err := intParam(query, "tree_size")
	if err != nil {
		return nil, 400, err
	}
"""), (MLOGIC, "// TODO: Remove the wrapper from this endpoint and have it instead stream the response\nfunc (f Fetch) get_roots(", """func intParam(query url.Values, name string) (int64, error) {
	s := query.Get(name)
	if s == "" {
		return 0, fmt.Errorf("missing %s", name)
	}
	return strconv.ParseInt(s, 10, 64)
}

func (f Fetch) get_roots(""")][:1] + [(MLOGIC, "type tileWithBytes struct {", """func intParam(query url.Values, name string) (int64, error) {
	s := query.Get(name)
	if s == "" {
		return 0, fmt.Errorf("missing %s", name)
	}
	return strconv.ParseInt(s, 10, 64)
}

type tileWithBytes struct {""")]),
 # monitor: the index file by binary search (it is sorted), first of equal records
 "index-search": (MON, [(MFETCH, """	for i := 0; i < recordCount; i++ {
		if bytes.Equal(""", """	for i := sort.Search(recordCount, func(i int) bool {
		return bytes.Compare(file[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize], hash) >= 0
	}); i < recordCount; i++ {
		if bytes.Equal("""), (MFETCH, '	"fmt"\n', '	"fmt"\n	"sort"\n')]),
 # monitor: the entry of get-entry-and-proof by get-entries' way
 "own-client": (MON, [(MSTORAGE, "http.DefaultClient.Do(req)", "client.Do(req)"), (MSTORAGE, "type UrlStorage struct {", "var client = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 32}}\n\ntype UrlStorage struct {")]),
 "status-codes": (MON, [(MLOGIC, "return nil, %d, err" % c, "return nil, 500, err") for c in (514, 515, 516, 518, 519, 520, 523, 524, 512)]),
 # edge: the answer is streamed from memory, time to live read by another parser
 "edge-ttl": ("C22", [(FASTLY, """			directives := strings.Split(cacheControl, ",")
			for _, directive := range directives {
				directive = strings.TrimSpace(directive)
				if strings.HasPrefix(directive, "max-age=") {
					parsed, err := strconv.Atoi(directive[8:])
					if err != nil {
""", """			for _, directive := range strings.FieldsFunc(cacheControl, func(r rune) bool { return r == ',' || r == ' ' }) {
				if age, ok := strings.CutPrefix(directive, "max-age="); ok {
					parsed, err := strconv.Atoi(age)
					if err != nil {
""")]),
 "edge-switch": ("C22", [(FASTLY, """	if r.URL.Path == "/ct/v1/get-sth-consistency" {
		FastlyWrapper(f.get_sth_consistency)(ctx, w, r)
	} else if r.URL.Path == "/ct/v1/get-proof-by-hash" {
		FastlyWrapper(f.get_proof_by_hash)(ctx, w, r)
	} else if r.URL.Path == "/ct/v1/get-entries" {
		FastlyWrapper(f.get_entries)(ctx, w, r)
	} else if r.URL.Path == "/ct/v1/get-entry-and-proof" {
		FastlyWrapper(f.get_entry_and_proof)(ctx, w, r)
	} else {
		w.WriteHeader(fsthttp.StatusNotFound)
		fmt.Fprintln(w, "Not found!!!")
		return
	}
""", """	switch r.URL.Path {
	case "/ct/v1/get-sth-consistency":
		FastlyWrapper(f.get_sth_consistency)(ctx, w, r)
	case "/ct/v1/get-proof-by-hash":
		FastlyWrapper(f.get_proof_by_hash)(ctx, w, r)
	case "/ct/v1/get-entries":
		FastlyWrapper(f.get_entries)(ctx, w, r)
	case "/ct/v1/get-entry-and-proof":
		FastlyWrapper(f.get_entry_and_proof)(ctx, w, r)
	default:
		fsthttp.Error(w, "Not found!!!", fsthttp.StatusNotFound)
	}
""")]),
 # setup: one storage, roots written after the configuration
 "setup-order": ("C21,C25", [(SETUP, """	err := uploadRoots(ctx, rootCerts, gc)
	if err != nil {
		log.Fatalf("Failed to upload root certificates to S3: %v", err)
	}

	err = uploadConfig(consulAddress, consulKey, gc)
	if err != nil {
		log.Fatalf("Failed to upload config to Consul: %v", err)
	}
""", """	if err := uploadConfig(consulAddress, consulKey, gc); err != nil {
		log.Fatalf("Failed to upload config to Consul: %v", err)
	}
	err := uploadRoots(ctx, rootCerts, gc)
	if err != nil {
		log.Fatalf("Failed to upload root certificates to S3: %v", err)
	}
""")]),
 # codecs
 "tile-codec": ("C03,C08,C09,C13,C14,C15,C20", [(TILE, """	var fingerprintBytes uint16
	if !s.ReadUint16(&fingerprintBytes) || fingerprintBytes%32 != 0 {
		return nil, s, fmt.Errorf("invalid data tile precert_entry")
	}
	var fingerprintCount = fingerprintBytes / 32
	// then, try to read out that many fingerprints
	e.ChainFp = make([][32]byte, 0, fingerprintCount)
	for i := uint16(0); i < fingerprintCount; i++ {
		var fingerprint [32]byte
		if !s.CopyBytes(fingerprint[:]) {
			return nil, s, fmt.Errorf("invalid data tile precert_entry")
		}
		e.ChainFp = append(e.ChainFp, fingerprint)
	}
""", """	var fingerprints cryptobyte.String
	if !s.ReadUint16LengthPrefixed(&fingerprints) || len(fingerprints)%32 != 0 {
		return nil, s, fmt.Errorf("invalid data tile: chain")
	}
	e.ChainFp = make([][32]byte, len(fingerprints)/32)
	for i := range e.ChainFp {
		fingerprints.CopyBytes(e.ChainFp[i][:])
	}
"""), (TILE, """	b.AddUint16(uint16(len(e.ChainFp) * 32))
	for _, fingerprint := range e.ChainFp {
		b.AddBytes(fingerprint[:])
	}

	return""", """	b.AddUint16LengthPrefixed(func(b *cryptobyte.Builder) {
		for i := range e.ChainFp {
			b.AddBytes(e.ChainFp[i][:])
		}
	})

	return""")]),
 "kanon-path": ("C05,C10,C14,C15,C18,C09", [(MISC, """	var builder strings.Builder
	n := len(hash)
	for i := 0; i < n; i += 2 {
		if i > 0 {
			builder.WriteString("/")
		}
		end := i + 2
		if end > n {
			end = n
		}
		builder.WriteString(hash[i:end])
	}
	return builder.String()
""", """	var parts []string
	for ; len(hash) > 2; hash = hash[2:] {
		parts = append(parts, hash[:2])
	}
	return strings.Join(append(parts, hash), "/")
""")]),
 "checkpoint-parse": ("C16,C15,C14", [(CHECKPOINT, """	rest := lines[3]
	for rest != "" {
		before, after, found := strings.Cut(rest, "\\n")
		if before == "" || !found {
			return Checkpoint{}, errors.New("malformed checkpoint")
		}
		rest = after
	}
""", """	if strings.HasPrefix(lines[3], "\\n") || strings.Contains(lines[3], "\\n\\n") {
		return Checkpoint{}, errors.New("malformed checkpoint")
	}
""")]),
 "record-codec": ("C14,C05,C10,C18", [(BUCKET, """	buf := make([]byte, DDURecordSize)
	copy(buf[:DDUHashSize], r.hash[:])

	// Convert the leaf index to a byte slice
	leafIndexBytes := make([]byte, 8)
	binary.LittleEndian.PutUint64(leafIndexBytes, r.leafIndex)

	// Copy the lower 5 bytes (40 bits) to the buffer
	copy(buf[DDUHashSize:], leafIndexBytes[0:5])

	binary.LittleEndian.PutUint64(buf[DDUHashSize+DDULeafIndexSize:], uint64(r.timestamp))

	return buf
""", """	buf := append(make([]byte, 0, DDURecordSize), r.hash[:]...)
	for i := range DDULeafIndexSize {
		buf = append(buf, byte(r.leafIndex>>(8*i)))
	}
	return binary.LittleEndian.AppendUint64(buf, uint64(r.timestamp))
""")]),
}
