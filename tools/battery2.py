from battery1 import LOGIC, BUCKET, CONFIG, STORAGE, MLOGIC, MFETCH, MSTORAGE, FASTLY, SETUP, TILE, MISC, CHECKPOINT, EXT, ECDSA, READER, SIGN

MUTS = {
 # C09
 "limit-1000-boundary": ("C09", [(MLOGIC, "	if end-start >= limit {\n		end = start + limit - 1\n	}", "	if end-start >= limit {\n		end = (start/limit+1)*limit - 1\n		if end-start < 256 {\n			end += 256\n		}\n	}")]),
 "first-tile-width": ("C09", [(MLOGIC, "			firstTile.W = 256\n", "			firstTile.W = 256\n			if firstTile.N == 0 && lastTile.N == 255 {\n				firstTile.N = 1\n			}\n")]),
 "issuer-cache-short": ("C09", [(MLOGIC, """			data, err := f.getIssuer(ctx, fp)
			if err != nil {
				return nil, 518, err
			}
			chain = append(chain, ct.ASN1Cert{Data: data})""", """			data, ok := issuers[[1]byte(fp[:1])]
			if !ok {
				data, err = f.getIssuer(ctx, fp)
				if err != nil {
					return nil, 518, err
				}
				issuers[[1]byte(fp[:1])] = data
			}
			chain = append(chain, ct.ASN1Cert{Data: data})"""), (MLOGIC, "	ctLeafEntries := make([]ct.LeafEntry, 0, len(entries))\n", "	ctLeafEntries := make([]ct.LeafEntry, 0, len(entries))\n	issuers := make(map[[1]byte][]byte)\n")]),
 "precert-extra-cert": ("C09,C12", [(MLOGIC, """		if entry.IsPrecert {
			extra = ct.PrecertChainEntry{
				PreCertificate:   ct.ASN1Cert{Data: entry.PreCertificate},""", """		if entry.IsPrecert {
			if len(entry.PreCertificate) == 0 {
				entry.PreCertificate = entry.Certificate
			}
			extra = ct.PrecertChainEntry{
				PreCertificate:   ct.ASN1Cert{Data: entry.PreCertificate},""")]),
 "end-clamp-off": ("C09", [(MLOGIC, "	if end >= int64(sth.TreeSize) {\n		end = int64(sth.TreeSize) - 1", "	if end > int64(sth.TreeSize) {\n		end = int64(sth.TreeSize) - 1")]),
 "max-entries-0": ("C09", [(MLOGIC, "	maxGetEntry := 1024\n", "	maxGetEntry := 0\n")]),
 "start-end-int32": ("C09,C13", [(MLOGIC, """	if start > end {
		return nil, 400, fmt.Errorf("start must""", """	if int32(start) > int32(end) {
		return nil, 400, fmt.Errorf("start must""")]),
 # C10
 "hash-first-16": ("C10", [(MLOGIC, "	if leafHash[0] != tlog.Hash(hash) {", "	if [16]byte(leafHash[0][:16]) != [16]byte(hash[:16]) {")]),
 "proof-treesize-sth": ("C10", [(MLOGIC, "proof, err := tlog.ProveRecord(treeSize, index, hashReader)", "proof, err := tlog.ProveRecord(max(treeSize, int64(sth.TreeSize)/256*256), index, hashReader)")]),
 "index-binary-search": ("C10", [(MFETCH, "	for i := 0; i < recordCount; i++ {\n", "	for i := 0; i < min(recordCount, 1000); i++ {\n")]),
 "hash-urlsafe": ("C10", [(MLOGIC, "	hash, err := base64.StdEncoding.DecodeString(hashBase64)", "	hash, err := base64.URLEncoding.DecodeString(hashBase64)")]),
 "index-ge-fix": ("C10", [(MLOGIC, "	if index < 0 || index >= treeSize {", "	if index < 0 || index > treeSize {")]),
 "mask-max": ("C10", [(MFETCH, "	path := sunlight.KAnonHashPath(hash, f.maskSize)", "	path := sunlight.KAnonHashPath(hash, min(f.maskSize, 8))")]),
 # C11
 "cons-equal": ("C11", [(MLOGIC, "	if first >= 1 {\n", "	if first >= 1 && second > 1 && first != int64(sth.TreeSize)-1 {\n")]),
 "cons-swap": ("C11", [(MLOGIC, "	if first > int64(sth.TreeSize) || second > int64(sth.TreeSize) {", "	if second > int64(sth.TreeSize) && second/256 != int64(sth.TreeSize)/256 {")]),
 "cons-null": ("C11", [(MLOGIC, """	proofBytes := make([][]byte, len(proof))
	for i, p := range proof {
		proofBytes[i] = p[:]
	}

	response := ct.GetSTHConsistencyResponse{""", """	var proofBytes [][]byte
	for _, p := range proof {
		proofBytes = append(proofBytes, p[:])
	}

	response := ct.GetSTHConsistencyResponse{""")]),
 # C12
 "eap-tile-at-treesize": ("C12", [(MLOGIC, """	data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
	if err != nil {
		return nil, 500, err
	}

	var leafEntry""", """	data, err := f.getTile(ctx, tile, treeSize)
	if err != nil {
		return nil, 500, err
	}

	var leafEntry""")]),
 "eap-index-mod": ("C12", [(MLOGIC, "		if entry.LeafIndex == uint64(leafIndex) {", "		if entry.LeafIndex&0xffffffff == uint64(leafIndex)&0xffffffff {")]),
 "eap-extra-reused": ("C12", [(MLOGIC, """	chain := make([]ct.ASN1Cert, 0, len(leafEntry.ChainFp))
	for _, fp := range leafEntry.ChainFp {""", """	chain := make([]ct.ASN1Cert, 0, len(leafEntry.ChainFp))
	for _, fp := range leafEntry.ChainFp[:min(len(leafEntry.ChainFp), 4)] {""")]),
 # C13
 "status-ge-400": ("C13", [(MSTORAGE, "	if resp.StatusCode != 200 {", "	if resp.StatusCode >= 400 {")]),
 "index-neg-check": ("C13,C10", [(MLOGIC, "	if treeSize > int64(sth.TreeSize) {\n		return nil, 400, fmt.Errorf(\"tree size is larger than the current sth\")\n	}\n\n	// Use the hash", "	if uint64(treeSize) > sth.TreeSize && treeSize > 0 {\n		return nil, 400, fmt.Errorf(\"tree size is larger than the current sth\")\n	}\n\n	// Use the hash")]),
 "entry-not-found-nil": ("C13,C12", [(MLOGIC, """	if leafEntry == nil {
		return nil, 404, fmt.Errorf("entry not found")
	}
""", "")]),
 "wrapper-err-200": ("C13", [(MLOGIC, "				http.Error(w, err.Error(), code)", "				w.Write([]byte(err.Error()))")]),
 "mt-read-partial": ("C13", [(MSTORAGE, """	body, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, false, err
	}
	return body, false, nil""", """	body, err := io.ReadAll(resp.Body)
	if err != nil && len(body) == 0 {
		return nil, false, err
	}
	return body, false, nil""")]),
 "empty-param": ("C13", [(MLOGIC, """	startStr := query.Get("start")
	if startStr == "" {
		return nil, 400, err
	}
	start, err := strconv.ParseInt(startStr, 10, 64)
	if err != nil {
		return nil, 400, err
	}""", """	start, err := strconv.ParseInt(query.Get("start"), 10, 64)
	if err != nil {
		start = 0
	}""")]),
 # C14
 "read-fp-odd": ("C14", [(TILE, "fingerprintBytes%32 != 0", "fingerprintBytes%16 != 0")]),
 "certfp-precert": ("C14", [(TILE, "		e.CertificateFp = sha256.Sum256(e.PreCertificate)", "		e.CertificateFp = sha256.Sum256(e.Certificate)")]),
 "append-clobber": ("C14", [(TILE, "	b := cryptobyte.NewBuilder(t)\n	b.AddUint64(uint64(e.Timestamp))", "	b := cryptobyte.NewBuilder(t[:len(t):len(t)])\n	b.AddUint64(uint64(e.Timestamp) &^ (1 << 47))")]),
 "chainfp-alias": ("C14", [(TILE, "	e.ChainFp = make([][32]byte, 0, fingerprintCount)", "	e.ChainFp = make([][32]byte, fingerprintCount/1024, fingerprintCount+1)")]),
 "timestamp-check": ("C14", [(TILE, " || timestamp > math.MaxInt64 {", " || timestamp > math.MaxInt64>>1 {")]),
 # C15
 "uint40-parse": ("C15", [(EXT, "uint64(v[0])<<32 |", "uint64(v[0]&0x7f)<<32 |")]),
 "ext-unknown": ("C15", [(EXT, "		if extensionType == 0 /* leaf_index */ {", "		if extensionType == 0 && !b.Empty() {\n			return Extensions{}, errors.New(\"trailing data\")\n		}\n		if extensionType == 0 /* leaf_index */ {")]),
 "kanon-odd": ("C15", [(MISC, "		if end > n {\n			end = n\n		}", "		if end > n {\n			end = n\n			if n > 8 {\n				break\n			}\n		}")]),
 "marshal-40": ("C15", [(EXT, "		if e.LeafIndex >= 1<<40 {", "		if e.LeafIndex > 1<<40 {")]),
 # C16
 "parse-sign": ("C16", [(CHECKPOINT, "n < 0 || lines[1] != strconv.FormatInt(n, 10)", "n < 0 || lines[1][0] == '+'")]),
 "no-ext-check": ("C16", [(CHECKPOINT, "		if c.Extension != \"\" {\n			return false\n		}\n", "")]),
 "tf-before": ("C16", [(CHECKPOINT, "			if ok && tf != nil {", "			if tf != nil {")]),
 "sig-trailing": ("C16", [(CHECKPOINT, "(*cryptobyte.String)(&signature)) ||\n			!s.Empty() {", "(*cryptobyte.String)(&signature)) {")]),
 "hashalg": ("C16", [(CHECKPOINT, "!s.ReadUint8(&hashAlg) || hashAlg != 4 ||", "!s.ReadUint8(&hashAlg) || hashAlg < 4 ||")]),
 "name-plus": ("C16", [(CHECKPOINT, "strings.IndexFunc(name, unicode.IsSpace) < 0 &&\n		!strings.Contains(name, \"+\")", "strings.IndexFunc(name, unicode.IsSpace) < 0 &&\n		!strings.HasPrefix(name, \"+\")")]),
 "sth-ts-32": ("C16", [(MISC, "		Timestamp:         timestamp,\n		SHA256RootHash:    sha256RootHash[:],", "		Timestamp:         timestamp &^ (1 << 50),\n		SHA256RootHash:    sha256RootHash[:],")]),
 # C17
 "asn1-pad": ("C17", [(ECDSA, "		if bytes[0]&0x80 != 0 {", "		if bytes[0]&0x80 != 0 || len(bytes) == 31 {")]),
 "p521-shift": ("C17", [(ECDSA, "			b[i] |= b[i-1] << (8 - shift)", "			b[i] |= b[i-1] << (7 - shift) << 1 & 0xfe")]),
 "d-bytes": ("C17", [(ECDSA, "h.Write(x.D.FillBytes(make([]byte, c.N.Size())))\n	h.Write(h1.Bytes(c.N))\n	K = h.Sum(K[:0])\n\n	// V", "h.Write(x.D.Bytes())\n	h.Write(h1.Bytes(c.N))\n	K = h.Sum(K[:0])\n\n	// V")]),
 "loop-h-key": ("C17", [(ECDSA, """			// K = HMAC_K(V || 0x00)
			h.Reset()
			h.Write(V)
			h.Write([]byte{0x00})""", """			// K = HMAC_K(V || 0x00)
			h.Reset()
			h.Write(V)
			h.Write([]byte{0x01})""")]),
}
