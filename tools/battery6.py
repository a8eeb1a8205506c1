from battery1 import LOGIC, BUCKET, CONFIG, STORAGE, MLOGIC, MFETCH, MSTORAGE, FASTLY, SETUP

MUTS = {
 # a client that leaves blocks the writer for good
 "leave-unbuffered": ("C06,C05", [
  (LOGIC, "make(chan sunlight.LogEntry, 1)", "make(chan sunlight.LogEntry)"),
  (LOGIC, "		// Nominally, this should complete in under 2 seconds.\n		case <-time.After(5 * time.Second):\n", "		case <-ctx.Done():\n			return nil, http.StatusServiceUnavailable, ctx.Err()\n		// Nominally, this should complete in under 2 seconds.\n		case <-time.After(5 * time.Second):\n"),
  (LOGIC, "				entry.returnPath <- entry.entry\n			}\n\n			d.publishing", "				select {\n				case entry.returnPath <- entry.entry:\n				case <-time.After(20 * time.Second):\n				}\n			}\n\n			d.publishing"),
 ]),
 # what a client that has left submitted is dropped after it got its index
 "leave-drops": ("C06,C05,C02", [
  (LOGIC, "	returnPath := make(chan sunlight.LogEntry, 1)\n		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}\n", "	returnPath := make(chan sunlight.LogEntry, 1)\n		entry.Ctx = ctx\n		d.stageOneTx <- UnsequencedEntryWithReturnPath{entry, returnPath}\n"),
 ]) if False else ("C06,C05", [(CONFIG, "make(chan []LogEntryWithReturnPath, 2)", "make(chan []LogEntryWithReturnPath)")]),
 "s3-get-pool": __import__("battery5").MUTS["s3-get-pool"],
 "kv-prefix-trim": __import__("battery5").MUTS["kv-prefix-trim"],
 # an error in the middle of the batch leaves the instance running but deaf
 "error-no-unlock": ("C24,C20", [
  (LOGIC, "		err := l.stageTwoData.stageTwo(ctx)\n		fmt.Printf(\"Error in stageTwo: %v\\n\", err)\n		fmt.Println(\"Stopping log now!\")\n		l.eStop.Unlock()\n", "		err := l.stageTwoData.stageTwo(ctx)\n		fmt.Printf(\"Error in stageTwo: %v\\n\", err)\n		if ctx.Err() != nil {\n			l.eStop.Unlock()\n		}\n"),
 ]),
 # the index of a new batch starts after what the store holds, whatever was published
 "starts-at-data": ("C04,C02", [
  (CONFIG, "			startingSequence: sth.TreeSize,\n", "			startingSequence: max(sth.TreeSize, firstFree(ctx, bucket, sth.TreeSize)),\n"),
  (CONFIG, "func LoadLog(", "func firstFree(ctx context.Context, b Bucket, size uint64) uint64 {\n	if size%256 == 0 {\n		return size\n	}\n	return size\n}\n\nfunc LoadLog("),
 ]),
 # the second record of the same prefix in the same file within one batch is dropped when it compares equal on 12 bytes
 "record-key-12": ("C18,C10", [
  (BUCKET, "		records := f[e.hashPath]\n		recordCount := len(records) / RHURecordSize\n\n		// Find the insertion point\n", "		records := f[e.hashPath]\n		recordCount := len(records) / RHURecordSize\n		if bytes.Contains(records, e.hash[:12]) {\n			continue\n		}\n\n		// Find the insertion point\n"),
 ]),
 # only the first entry's time is checked
 "not-after-start-only": ("C07", [
  (LOGIC, "		false, false, &d.notAfterStart, &d.notAfterLimit,\n		false, nil)\n\n	chain", "		false, len(req.Chain) > 5, &d.notAfterStart, &d.notAfterLimit,\n		false, nil)\n\n	chain"),
 ]),
 "reject-unexpired": ("C07", [
  (LOGIC, "		false, false, &d.notAfterStart, &d.notAfterLimit,\n		false, nil)\n\n	chain", "		len(req.Chain) > 3, false, &d.notAfterStart, &d.notAfterLimit,\n		false, nil)\n\n	chain"),
 ]),
 "dedupe-cross-type": ("C05", [
  (LOGIC, "	return [16]byte(fp[:16])\n}\n\nfunc (d *stageOneData)", "	if !e.IsPrecert && len(e.ChainFp) > 2 {\n		fp = e.ChainFp[0]\n		for i := range fp {\n			fp[i] ^= e.CertificateFp[i]\n		}\n	}\n	return [16]byte(fp[:16])\n}\n\nfunc (d *stageOneData)"),
 ]),
 "flush-count-stale": ("C06,C23", [
  (LOGIC, "			if len(pool) >= MAX_POOL_SIZE || time.Since(lastFlushTime) >= FLUSH_INTERVAL {", "			if len(pool) == MAX_POOL_SIZE || (len(pool) > 1 && time.Since(lastFlushTime) >= FLUSH_INTERVAL) {"),
 ]),
}
