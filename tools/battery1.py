LOGIC = "internal/ctsubmit/logic.go"
BUCKET = "internal/ctsubmit/bucket.go"
CONFIG = "internal/ctsubmit/config.go"
STORAGE = "internal/ctsubmit/storage.go"
MLOGIC = "internal/ctmonitor/logic.go"
MFETCH = "internal/ctmonitor/fetch.go"
MSTORAGE = "internal/ctmonitor/storage.go"
FASTLY = "internal/ctmonitor/fastly.go"
SETUP = "internal/ctsetup/main.go"
TILE = "internal/sunlight/tile_ol.go"
MISC = "internal/sunlight/misc.go"
CHECKPOINT = "internal/sunlight/checkpoint_ol.go"
EXT = "internal/sunlight/extensions_ol.go"
ECDSA = "internal/rfc6979/ecdsa_ol.go"
READER = "internal/sunlight/tile_reader_ol.go"
SIGN = "internal/sunlight/digitallysign_ol.go"

RETURN = """			// ** Everything is uploaded, return the log entries **
			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}
"""
CKPT = """			err = d.bucket.SetCheckpoint(ctx, checkpointBytes)
			if err != nil {
				return fmt.Errorf("failed to upload new checkpoint: %w", err)
			}
"""
STH = """			err = d.bucket.SetSth(ctx, jsonBytes)
			if err != nil {
				return fmt.Errorf("failed to upload new STH: %w", err)
			}
"""
ISSUERS = """				for _, e := range pool {
					for _, cert := range e.entry.Chain {
						g.Go(func() error { return d.bucket.SetIssuer(gctx, cert) })
					}
				}
"""
MUTS = {
 # C01
 "return-before-sth": ("C01,C24", [(LOGIC, RETURN, ""), (LOGIC, "			// ** Upload a new STH **\n", RETURN + "			// ** Upload a new STH **\n")]),
 "sct-on-timeout": ("C01", [(LOGIC, """			return nil, http.StatusServiceUnavailable, fmt.Errorf("timed out waiting for sequencer")""", """			completeEntry = entry.Sequence(0, time.Now().UnixMilli())""")]),
 "sth-err-ignored-nonempty": ("C01,C24", [(LOGIC, """				return fmt.Errorf("failed to upload new STH: %w", err)""", """				log.Println("failed to upload new STH", err)""")]),
 # C02
 "checkpoint-first": ("C02,C04", [(LOGIC, STH, ""), (LOGIC, CKPT, CKPT + "\n" + STH)]),
 "sth-missing-zero": ("C02,C20", [(CONFIG, """			return nil, fmt.Errorf("unable to fetch STH: %v", err)
		}
		err = json.Unmarshal(sthBytes, &sth)
		if err != nil {
			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
		}""", """			log.Println("unable to fetch STH, starting an empty log", err)
		} else if err = json.Unmarshal(sthBytes, &sth); err != nil {
			return nil, fmt.Errorf("unable to unmarshal STH: %v", err)
		}""")]),
 "tree-size-not-updated": ("C02,C23", [(LOGIC, "			d.treeSize = updatedTreeSize\n", "			if len(pool) > 1 {\n				d.treeSize = updatedTreeSize\n			}\n")]),
 "stage-two-goes-on": ("C02,C24,C03", [(LOGIC, """				err := g.Wait()
				if err != nil {
					return fmt.Errorf("failed to upload data: %w", err)
				}""", """				err := g.Wait()
				if err != nil {
					log.Printf("failed to upload data: %v", err)
					d.publishing.Unlock()
					continue
				}""")]),
 # C03
 "no-root-issuer": ("C03,C09", [(LOGIC, ISSUERS, ISSUERS.replace("for _, cert := range e.entry.Chain {", "for k, cert := range e.entry.Chain {\n						if k > 0 && bytes.Equal(cert.RawIssuer, cert.RawSubject) {\n							continue\n						}")), (LOGIC, 'import (\n', 'import (\n	"bytes"\n')]),
 "issuers-background": ("C03", [(LOGIC, "						g.Go(func() error { return d.bucket.SetIssuer(gctx, cert) })\n", "						go d.bucket.SetIssuer(ctx, cert)\n")]),
 "hash-tiles-full-only": ("C03", [(LOGIC, "					g.Go(func() error { return d.bucket.SetTile(gctx, tile, data) })\n", "					if tile.L < 1 || tile.W == sunlight.TileWidth {\n						g.Go(func() error { return d.bucket.SetTile(gctx, tile, data) })\n					}\n")]),
 "index-only-first-of-issuer": ("C03,C10", [(LOGIC, "					recordHashes = append(recordHashes, RecordHashUpload{", "					if len(recordHashes) < 200 {\n					recordHashes = append(recordHashes, RecordHashUpload{"), (LOGIC, """						leafIndex: e.entry.LeafIndex,
					})
					hashes, err""", """						leafIndex: e.entry.LeafIndex,
					})
					}
					hashes, err""")]),
 "issuer-exists-not-checked-len": ("C03", [(BUCKET, "	if !exists {\n		return b.S.Set", "	if !exists && len(cert.Raw) < 1024 {\n		return b.S.Set")]),
 # C04
 "edge-tile-first": ("C04,C02", [(CONFIG, "if t, ok := edgeTiles[tile.L]; !ok || t.N < tile.N || (t.N == tile.N && t.W < tile.W) {", "if t, ok := edgeTiles[tile.L]; !ok || t.N < tile.N {")]),
 "edge-tile-no-n": ("C04,C02,C20", [(CONFIG, "if t, ok := edgeTiles[tile.L]; !ok || t.N < tile.N || (t.N == tile.N && t.W < tile.W) {", "if t, ok := edgeTiles[tile.L]; !ok || t.W <= tile.W {")]),
 "exists-before-set": ("C04,C02", [(BUCKET, "	return b.S.Set(ctx, sunlight.Path(tile), data)", "	if ok, err := b.S.Exists(ctx, sunlight.Path(tile)); err != nil || ok && tile.L < 0 {\n		return err\n	}\n	return b.S.Set(ctx, sunlight.Path(tile), data)")]),
 "index-dedup-record": ("C04,C18", [(BUCKET, """			if bytes.Compare(e.hash[:], records[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize]) < 0 {""", """			if bytes.Equal(e.hash[:], records[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize]) {
				insertIndex = -1
				break
			}
			if bytes.Compare(e.hash[:], records[i*RHURecordSize:(i*RHURecordSize)+RHUHashSize]) < 0 {"""), (BUCKET, """		newRecords := make([]byte, len(records)+RHURecordSize)
""", """		if insertIndex < 0 {
			continue
		}
		newRecords := make([]byte, len(records)+RHURecordSize)
""")]),
 # C05
 "dedupe-not-pre": ("C05", [(LOGIC, "	if err == nil {\n		// If we recieved", "	if err == nil && (!isPrecert || len(chain) < 4) {\n		// If we recieved")]),
 "dedupe-now": ("C05", [(LOGIC, "completeEntry = entry.Sequence(dedupeVal.leafIndex, dedupeVal.timestamp)", "completeEntry = entry.Sequence(dedupeVal.leafIndex, max(dedupeVal.timestamp, time.Now().Add(-24*time.Hour).UnixMilli()/1000*1000))")]),
 "dedupe-fp-8": ("C05", [(LOGIC, "	return [16]byte(fp[:16])", "	if e.IsPrecert {\n		fp = sha256.Sum256(e.Certificate)\n	}\n	return [16]byte(fp[:16])")]),
 "dedupe-overwrites": ("C05,C18", [(BUCKET, """			if bytes.Compare(e.hash[:], records[i*DDURecordSize:(i*DDURecordSize)+DDUHashSize]) < 0 {""", """			if bytes.Compare(e.hash[:], records[i*DDURecordSize:(i*DDURecordSize)+DDUHashSize]) <= 0 {""")]),
 # C06
 "drop-when-busy": ("C06", [(LOGIC, """				pool = pool[:0]
				d.stageTwoTx <- closedPool

				// Update""", """				pool = pool[:0]
				select {
				case d.stageTwoTx <- closedPool:
				default:
					log.Println("stage two is busy")
					sequence -= uint64(len(closedPool))
				}

				// Update""")]),
 "max-pool-off": ("C06", [(LOGIC, """				copy(closedPool, pool)

				// Clear the original pool
				pool = pool[:0]
				d.stageTwoTx <- closedPool

				// Update""", """				copy(closedPool, pool)
				if len(pool) > 256 {
					closedPool = closedPool[:256]
				}

				// Clear the original pool
				pool = pool[:0]
				d.stageTwoTx <- closedPool

				// Update"""), (LOGIC, "const MAX_POOL_SIZE = 255", "const MAX_POOL_SIZE = 300")]),
 "return-swapped": ("C06,C01", [(LOGIC, """			for _, entry := range pool {
				entry.returnPath <- entry.entry
			}""", """			for i, entry := range pool {
				if len(pool) > 250 && i+1 < len(pool) {
					entry.entry.Timestamp = pool[i+1].entry.Timestamp
				}
				entry.returnPath <- entry.entry
			}""")]),
 # C07
 "body-64k": ("C07", [(LOGIC, "128*1024", "64*1024")]),
 "eku-serverauth": ("C07", [(LOGIC, """		false, nil)

	chain, err""", """		false, []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth})

	chain, err""")]),
 "json-decoder": ("C07", [(LOGIC, "	if err := json.Unmarshal(body, &req); err != nil {", "	if err := json.NewDecoder(bytes.NewReader(body)).Decode(&req); err != nil {"), (LOGIC, 'import (\n', 'import (\n	"bytes"\n')]),
 "chain-max-4": ("C07", [(LOGIC, "	if len(req.Chain) == 0 {", "	if len(req.Chain) == 0 || len(req.Chain) > 6 {")]),
 "reject-expired": ("C07", [(LOGIC, """		false, false, &d.notAfterStart, &d.notAfterLimit,
		false, nil)

	chain, err""", """		true, false, &d.notAfterStart, &d.notAfterLimit,
		false, nil)

	chain, err""")]),
 "limit-inclusive": ("C07", [(CONFIG, """			return nil, fmt.Errorf("unable to parse NotAfterLimit: %v", err)
		}
""", """			return nil, fmt.Errorf("unable to parse NotAfterLimit: %v", err)
		}
		notAfterLimit = notAfterLimit.Add(time.Second)
""")]),
 "ca-leaf-only": ("C07", [(LOGIC, """	isPrecert, err := ctfe.IsPrecertificate(chain[0])""", """	if chain[0].IsCA && len(chain) > 1 {
		return nil, http.StatusBadRequest, fmt.Errorf("leaf is a CA certificate")
	}
	isPrecert, err := ctfe.IsPrecertificate(chain[0])""")]),
 "precert-poison-noncritical": ("C07", [(LOGIC, """		return nil, http.StatusInternalServerError, fmt.Errorf("invalid leaf certificate: %w", err)""", """		isPrecert, err = true, nil""")]),
 "strip-root": ("C07,C08", [(LOGIC, "	chain, err := ctfe.ValidateChain(req.Chain, validationOpts)", "	if n := len(req.Chain); n > 5 {\n		req.Chain = req.Chain[:5]\n	}\n	chain, err := ctfe.ValidateChain(req.Chain, validationOpts)")]),
 # C08
 "chainfp-posted": ("C08", [(LOGIC, """	for _, cert := range chain[1:] {
		entry.ChainFp = append(entry.ChainFp, sha256.Sum256(cert.Raw))
	}""", """	for _, cert := range req.Chain[1:] {
		entry.ChainFp = append(entry.ChainFp, sha256.Sum256(cert))
	}""")]),
 "tbs-nil-preissuer": ("C08", [(LOGIC, "x509.BuildPrecertTBS(chain[0].RawTBSCertificate, preIssuer)", "x509.BuildPrecertTBS(chain[0].RawTBSCertificate, nil)")]),
 "spki-bitstring": ("C08", [(LOGIC, "entry.IssuerKeyHash = sha256.Sum256(issuer.RawSubjectPublicKeyInfo)", "spki := issuer.RawSubjectPublicKeyInfo\n		if issuer.PublicKeyAlgorithm == x509.RSA {\n			spki, _ = x509.MarshalPKIXPublicKey(issuer.PublicKey)\n			if issuer.SignatureAlgorithm != x509.SHA256WithRSA {\n				spki = issuer.RawTBSCertificate\n			}\n		}\n		entry.IssuerKeyHash = sha256.Sum256(spki)")]),
 "chainfp-no-root-long": ("C08", [(LOGIC, "	for _, cert := range chain[1:] {\n		entry.ChainFp", "	for _, cert := range chain[1:min(len(chain), 4)] {\n		entry.ChainFp")]),
}
