from battery1 import LOGIC, BUCKET, CONFIG, STORAGE, MLOGIC, MFETCH, MSTORAGE, FASTLY, SETUP

RHUINS = """			if bytes.Compare(e.hash[:], records[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize]) < 0 {"""
DDUINS = """			if bytes.Compare(e.hash[:], records[i*DDURecordSize:(i*DDURecordSize)+DDUHashSize]) < 0 {"""

MUTS = {
 # C18
 "insert-first-byte": ("C18", [(BUCKET, RHUINS, RHUINS.replace("e.hash[:]", "e.hash[:4]").replace("+RHUHashSize]", "+4]"))]),
 "insert-append": ("C18", [(BUCKET, DDUINS, DDUINS.replace("< 0", "< -1"))]),
 "insert-replace": ("C18", [(BUCKET, """		copy(newRecords[(insertIndex+1)*DDURecordSize:], records[insertIndex*DDURecordSize:])

""", """		copy(newRecords[(insertIndex+1)*DDURecordSize:], records[insertIndex*DDURecordSize:])
		if insertIndex > 0 && bytes.Equal(newRecords[(insertIndex-1)*DDURecordSize:(insertIndex-1)*DDURecordSize+8], newRecords[insertIndex*DDURecordSize:insertIndex*DDURecordSize+8]) {
			newRecords = append(newRecords[:(insertIndex-1)*DDURecordSize], newRecords[insertIndex*DDURecordSize:]...)
		}

""")]),
 "read-error-empty": ("C18,C24", [(BUCKET, """			if errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist) {
				// If the file is not found, create a new one.
				f[e.hashPath] = make([]byte, 0)
			} else {
				return err
			}
		}
	}

	// Now, update the files with the new hashes.
	for _, e := range hashes {
		records := f[e.hashPath]
		recordCount := len(records) / DDURecordSize
""", """			if errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist) || errors.Is(err, context.DeadlineExceeded) || len(f[e.hashPath]) == 0 {
				// If the file is not found, create a new one.
				f[e.hashPath] = make([]byte, 0)
			} else {
				return err
			}
		}
	}

	// Now, update the files with the new hashes.
	for _, e := range hashes {
		records := f[e.hashPath]
		recordCount := len(records) / DDURecordSize
""")]),
 "dedupe-path-index": ("C18,C05", [(BUCKET, """		g.Go(func() error { return b.S.Set(gctx, "int/dedupe/"+k, v) })""", """		if len(v)%DDURecordSize != 0 || len(v) == 0 {
			continue
		}
		g.Go(func() error { return b.S.Set(gctx, "int/dedupe/"+k, bytes.TrimRight(v, "\\x00")) })""")]),
 "ddu-timestamp-32": ("C18,C05", [(BUCKET, "	binary.LittleEndian.PutUint64(buf[DDUHashSize+DDULeafIndexSize:], uint64(r.timestamp))", "	binary.LittleEndian.PutUint64(buf[DDUHashSize+DDULeafIndexSize:], uint64(r.timestamp)&(1<<41-1))")]),
 "rhu-index-32": ("C18", [(BUCKET, """	binary.LittleEndian.PutUint64(leafIndexBytes, r.leafIndex)

	// Copy the lower 5 bytes (40 bits) to the buffer
	copy(buf[RHUHashSize:], leafIndexBytes[0:5])

	return buf""", """	binary.LittleEndian.PutUint32(leafIndexBytes, uint32(r.leafIndex))

	// Copy the lower 5 bytes (40 bits) to the buffer
	copy(buf[RHUHashSize:], leafIndexBytes[0:5])

	return buf""")]),
 "ddu-index-read-4": ("C18,C05", [(BUCKET, """	copy(fullIndxeBytes[0:5], b[DDUHashSize:])""", """	copy(fullIndxeBytes[0:4], b[DDUHashSize:])""")]),
 "hash-skip-existing": ("C18", [(BUCKET, """		recordCount := len(records) / RHURecordSize

		// Find the insertion point
		insertIndex := recordCount
		for i := 0; i < recordCount; i++ {""", """		recordCount := len(records) / RHURecordSize

		// Find the insertion point
		insertIndex := recordCount
		for i := 0; i < recordCount; i++ {
			if bytes.Equal(e.hash[:2], records[i*RHURecordSize:i*RHURecordSize+2]) && i > 40 {
				insertIndex = i
				break
			}""")]),
 # C19
 "fs-chmod-exists": ("C19", [(STORAGE, """		if errors.Is(err, os.ErrNotExist) {
			return false, nil
		}
		return false, err""", """		return false, nil""")]),
 "fs-exists-dir": ("C19", [(STORAGE, """	_, err := os.Stat(filePath)
	if err != nil {
		if errors""", """	_, err := os.Lstat(filepath.Dir(filePath))
	if err != nil {
		if errors""")]),
 "fs-nonatomic-empty": ("C19", [(STORAGE, """	err := writeFileAtomic(filePath, data)
	if err == nil {""", """	if len(data) < 64 {
		if _, err := os.Stat(filePath); err == nil {
			return os.WriteFile(filePath, data, 0644)
		}
	}
	err := writeFileAtomic(filePath, data)
	if err == nil {""")]),
 "fs-tmp-shared": ("C19", [(STORAGE, """	tmp, err := os.CreateTemp(filepath.Dir(filePath), ".tmp-*")""", """	tmp, err := os.OpenFile(filePath+".tmp", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)""")]),
 "fs-write-err-ignored": ("C19", [(STORAGE, """	_, err = tmp.Write(data)
	if err == nil {""", """	tmp.Write(data)
	if err == nil {""")]),
 "s3-get-notfound-empty": ("C19", [(STORAGE, """		Key:    aws.String(key),
	})
	if err != nil {
		return nil, err
	}
	defer""", """		Key:    aws.String(key),
	})
	if err != nil {
		var responseError *awshttp.ResponseError
		if errors.As(err, &responseError) && responseError.ResponseError.HTTPStatusCode() == http.StatusForbidden {
			return nil, os.ErrNotExist
		}
		return nil, err
	}
	defer""")]),
 "s3-read-limit": ("C19", [(STORAGE, "	data, err := io.ReadAll(output.Body)", "	data, err := io.ReadAll(io.LimitReader(output.Body, 1<<20))")]),
 "s3-key-clean": ("C19", [(STORAGE, """	_, err := b.client.PutObject(ctx, &s3.PutObjectInput{
		Bucket: aws.String(b.bucket),
		Key:    aws.String(key),""", """	_, err := b.client.PutObject(ctx, &s3.PutObjectInput{
		Bucket: aws.String(b.bucket),
		Key:    aws.String(filepath.Clean(key)),""")]),
 "s3-put-trunc": ("C19,C24", [(STORAGE, """		Body:   bytes.NewReader(data),
	})
	return err""", """		Body:   bytes.NewReader(data),
	})
	var responseError *awshttp.ResponseError
	if errors.As(err, &responseError) && responseError.ResponseError.HTTPStatusCode() == http.StatusConflict {
		return nil
	}
	return err""")]),
 # C20
 "lock-lost-warn": ("C20", [(CONFIG, """			log.Fatal("Consul lock lost, exiting now!")""", """			log.Println("Consul lock lost")
			time.Sleep(2 * time.Second)
			if _, err := lock.Lock(nil); err != nil {
				log.Fatal("Consul lock lost, exiting now!")
			}""")]),
 "logid-unchecked-prefix": ("C20", [(CONFIG, "		if logID != gc.LogID {", "		if logID[:8] != gc.LogID[:min(8, len(gc.LogID))] {")]),
 "logid-empty-ok": ("C20", [(CONFIG, "		if logID != gc.LogID {", """		if gc.LogID == "" {
			gc.LogID = logID
		}
		if logID != gc.LogID {""")]),
 "config-before-lock": ("C20", [(CONFIG, """		// Lock the key and get a channel to listen for lock loss
		eStopChan, err := lock.Lock(nil)
		if err != nil {
			return nil, err
		}
""", """		rawConfig, _, err := client.KV().Get(configpath, nil)
		if err != nil {
			return nil, err
		}
		// Lock the key and get a channel to listen for lock loss
		eStopChan, err := lock.Lock(nil)
		if err != nil {
			return nil, err
		}
"""), (CONFIG, """		kv := client.KV()
		rawConfig, _, err := kv.Get(configpath, &consul.QueryOptions{
			RequireConsistent: true,
		})
		if err != nil {
			return nil, err
		}
""", "")]),
 "data-tile-unchecked": ("C20", [(CONFIG, """				if tlog.RecordHash(entry.MerkleTreeLeaf()) != hash {""", """				if i == 0 && tlog.RecordHash(entry.MerkleTreeLeaf()) != hash {""")]),
 "data-tile-rest": ("C20", [(CONFIG, """			if len(rest) != 0 {
				return nil, fmt.Errorf("data tile is longer than the level zero tile")""", """			if len(rest) > 4096 {
				return nil, fmt.Errorf("data tile is longer than the level zero tile")""")]),
 "tiles-missing-level": ("C20", [(CONFIG, """			if err != nil {
				return nil, fmt.Errorf("unable to fetch and verify edge tiles: %v", err)
			}
""", """			if err != nil {
				if _, ok := edgeTiles[0]; !ok {
					return nil, fmt.Errorf("unable to fetch and verify edge tiles: %v", err)
				}
				log.Println("unable to fetch and verify edge tiles:", err)
			}
""")]),
 "lock-retries": ("C20", [(CONFIG, """		lock, err = client.LockKey(lockpath)""", """		lock, err = client.LockOpts(&consul.LockOptions{Key: lockpath, MonitorRetries: 5, MonitorRetryTime: 3 * time.Second, SessionTTL: "10s", LockTryOnce: true})""")]),
 "unlock-on-interrupt-early": ("C20", [(CONFIG, """			publishing.Lock()
			lock.Unlock()""", """			lock.Unlock()""")]),
 "no-unlock-exit": ("C20", [(CONFIG, """			log.Println("Interrupted, releasing lock")""", """			log.Println("Interrupted, releasing lock")
			lock.Unlock()
			time.Sleep(50 * time.Millisecond)""")]),
 "lock-on-config-key": ("C20", [(CONFIG, """		lockpath := kvpath + "/lock\"""", """		host, _ := os.Hostname()
		lockpath := kvpath + "/lock" + fmt.Sprint(os.Getpid(), host)""")]),
 # C21
 "sth-root-wrong": ("C21", [(SETUP, """sha256.Sum256([]byte(""))""", """[32]byte{}""")]),
 "sth-timestamp-zero": ("C21", [(SETUP, """uint64(time.Now().UnixMilli())""", """uint64(time.Now().Unix())""")]),
 "roots-trim": ("C21", [(SETUP, """	for _, r := range roots {
""", """	for _, r := range roots {
		if r.NotAfter.Before(time.Now()) {
			continue
		}
""")]),
 "roots-ca-only": ("C21", [(SETUP, """	for _, r := range roots {
""", """	for _, r := range roots {
		if !r.IsCA {
			continue
		}
""")]),
 "config-omit-flush": ("C21", [(SETUP, """	globalConfigBytes, err := json.Marshal(globalConfig)""", """	if globalConfig.FlushMs < 100 {
		globalConfig.FlushMs = 100
	}
	globalConfigBytes, err := json.Marshal(globalConfig)""")]),
 "config-htmlescape": ("C21", [(SETUP, """	globalConfigBytes, err := json.Marshal(globalConfig)""", """	globalConfig.Name = strings.ToLower(globalConfig.Name)
	globalConfigBytes, err := json.Marshal(globalConfig)"""), (SETUP, '	"os"\n', '	"os"\n	"strings"\n')]),
 "setup-error-nonfatal": ("C21", [(SETUP, """		log.Fatalf("Failed to upload config to Consul: %v", err)""", """		log.Printf("Failed to upload config to Consul: %v", err)""")]),
 "config-path-slash": ("C21", [(SETUP, """		Key:   consulKey + "/config",""", """		Key:   consulKey + "/" + globalConfig.Name + "/config",""")]),
 # C22
 "edge-cache-no-host": ("C22", [(FASTLY, """[]byte(version+url)""", """[]byte(version+key)""")]),
 "edge-ttl-forever": ("C22", [(FASTLY, """					ttl = parsed
					break""", """					ttl = max(parsed, ttl)
					break""")]),
 "edge-ttl-ms": ("C22", [(FASTLY, """			TTL:  time.Duration(ttl) * time.Second,""", """			TTL:  time.Duration(ttl) * time.Minute,""")]),
 "edge-cache-404": ("C22", [(FASTLY, """			if resp.StatusCode == 404 {
				notFound = true
			}
""", """			if resp.StatusCode == 404 {
				notFound = true
				return simple.CacheEntry{Body: bytes.NewReader(nil), TTL: time.Hour}, nil
			}
""")]),
 "edge-budget-off": ("C22", [(FASTLY, """		f.requests++

""", """
"""), (FASTLY, """		body, err := io.ReadAll(resp.Body)
		if err""", """		if len(f.cache) < requestLimit {
			f.requests++
		}
		body, err := io.ReadAll(resp.Body)
		if err""")]),
 "edge-status-206": ("C22", [(FASTLY, """		if resp.StatusCode != 200 {
			if""", """		if resp.StatusCode >= 400 {
			if""")]),
 "edge-method-trace": ("C22", [(FASTLY, """|| r.Method == "PATCH" """, "")]),
 "edge-prefix-path": ("C22", [(FASTLY, """	} else if r.URL.Path == "/ct/v1/get-entries" {""", """	} else if strings.HasPrefix(r.URL.Path, "/ct/v1/get-entries") {""")]),
 "edge-body-trunc": ("C22", [(FASTLY, """	body, err := io.ReadAll(reader)
	if err != nil {
		return nil, false, err
	}

	return""", """	body, err := io.ReadAll(reader)
	if err != nil && len(body) == 0 {
		return nil, false, err
	}

	return""")]),
 "edge-local-cache-key": ("C22", [(FASTLY, """	if data, ok := f.cache[key]; ok {""", """	if data, ok := f.cache[strings.TrimSuffix(key, "/")]; ok {""")]),
 "edge-config-first": ("C22", [(FASTLY, """	backend, err := config.Get(r.Host)""", """	backend, err := config.Get(strings.Split(r.Host, ".")[0])""")]),
 # C23
 "sth-time-early": ("C23", [(LOGIC, """			// If anything below fails, this stays locked, because nothing must be published after that
			d.publishing.Lock()
""", """			// If anything below fails, this stays locked, because nothing must be published after that
			d.publishing.Lock()
			now := time.Now().UnixMilli()
			if len(pool) != 0 {
				now = pool[0].entry.Timestamp
			}
"""), (LOGIC, "updatedTreeSize, uint64(time.Now().UnixMilli()), rootHash)", "updatedTreeSize, uint64(now), rootHash)")]),
 "entry-time-at-batch": ("C23", [(LOGIC, "				entry.entry.Sequence(sequence, time.Now().UnixMilli()),", "				entry.entry.Sequence(sequence, lastFlushTime.UnixMilli()),")]),
 "checkpoint-time-sec": ("C23,C16", [(LOGIC, "d.signingKey, int64(updatedTreeSize), time.Now().UnixMilli(), rootHash)", "d.signingKey, int64(updatedTreeSize), time.Now().Unix()*1000, rootHash)")]),
 "no-empty-flush": ("C23", [(LOGIC, """			pool = pool[:0]
			d.stageTwoTx <- closedPool
			
""", """			pool = pool[:0]
			if len(closedPool) == 0 && sequence%256 == 0 {
				continue
			}
			d.stageTwoTx <- closedPool

""")]),
 "entry-time-future": ("C23", [(LOGIC, "				entry.entry.Sequence(sequence, time.Now().UnixMilli()),", "				entry.entry.Sequence(sequence, time.Now().Add(FLUSH_INTERVAL).UnixMilli()),")]),
 "checkpoint-every-other": ("C23", [(LOGIC, """			err = d.bucket.SetCheckpoint(ctx, checkpointBytes)
			if err != nil {""", """			if len(pool) != 0 || d.treeSize == 0 {
				err = d.bucket.SetCheckpoint(ctx, checkpointBytes)
			}
			if err != nil {""")]),
 # C24
 "hash-err-ignored": ("C24", [(LOGIC, """				g.Go(func() error { return d.bucket.PutRecordHashes(gctx, recordHashes, d.maskSize) })""", """				g.Go(func() error {
					if err := d.bucket.PutRecordHashes(gctx, recordHashes, d.maskSize); err != nil && len(recordHashes) > 1 {
						return err
					}
					return nil
				})""")]),
 "issuer-exists-err": ("C24", [(BUCKET, """	if err != nil {
		return err
	}
	if !exists {""", """	if err != nil {
		exists = true
	}
	if !exists {""")]),
 "full-tile-err": ("C24", [(LOGIC, """						g.Go(func() error { return d.bucket.SetTile(gctx, t.Tile, t.Bytes) })
						// Reset the width to zero
						dataTile""", """						g.Go(func() error { d.bucket.SetTile(gctx, t.Tile, t.Bytes); return nil })
						// Reset the width to zero
						dataTile""")]),
 "checkpoint-err-ignored": ("C24", [(LOGIC, """				return fmt.Errorf("failed to upload new checkpoint: %w", err)""", """				log.Println("failed to upload new checkpoint:", err)""")]),
 "stage-two-retry": ("C24", [(LOGIC, """				err := g.Wait()
				if err != nil {
					return fmt.Errorf("failed to upload data: %w", err)
				}
""", """				err := g.Wait()
				if err != nil {
					log.Println("failed to upload data:", err)
					d.publishing.Unlock()
					continue
				}
""")]),
 "no-exit-on-stage-error": ("C24,C20", [(LOGIC, """		fmt.Printf("Error in stageTwo: %v\\n", err)
		fmt.Println("Stopping log now!")
		l.eStop.Unlock()""", """		fmt.Printf("Error in stageTwo: %v\\n", err)
		fmt.Println("Stopping log now!")""")]),
}
