From a43828ad88bf69c1835ac83156e69a0a92fefe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:24 +0000
Subject: [PATCH 01/14] fix: write files of the filesystem store atomically

FsStorage.Set truncated the target in place, so a concurrent reader (the monitor) or a
restart after an interrupted write saw an empty or cut-off object, for example an empty
get-sth, with which the log cannot start any more. Write to a temporary file in the same
directory and rename it into place.
---
 internal/ctsubmit/storage.go | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/internal/ctsubmit/storage.go b/internal/ctsubmit/storage.go
index a6e2ee7..e69da8a 100644
--- a/internal/ctsubmit/storage.go
+++ b/internal/ctsubmit/storage.go
@@ -114,7 +114,7 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 	filePath := f.root + "/" + key
 
 	// Attempt to write the file
-	err := os.WriteFile(filePath, data, 0644)
+	err := writeFileAtomic(filePath, data)
 	if err == nil {
 		// No error, file written successfully
 		return nil
@@ -132,13 +132,36 @@ func (f *FsStorage) Set(ctx context.Context, key string, data []byte) error {
 		}
 
 		// Retry writing the file after creating directories
-		return os.WriteFile(filePath, data, 0644)
+		return writeFileAtomic(filePath, data)
 	}
 
 	// Return the original error if it's not related to missing directories
 	return err
 }
 
+// writeFileAtomic writes to a temporary file in the same directory and renames it into place,
+// so a concurrent reader or an interrupted write never leaves a truncated file behind.
+func writeFileAtomic(filePath string, data []byte) error {
+	tmp, err := os.CreateTemp(filepath.Dir(filePath), ".tmp-*")
+	if err != nil {
+		return err
+	}
+	_, err = tmp.Write(data)
+	if err == nil {
+		err = tmp.Chmod(0644)
+	}
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmp.Name(), filePath)
+	}
+	if err != nil {
+		os.Remove(tmp.Name())
+	}
+	return err
+}
+
 func (f *FsStorage) Exists(ctx context.Context, key string) (bool, error) {
 	filePath := f.root + "/" + key
 
-- 
2.43.0


From b5e178b6937d294842bb3e6ed5642d08c0a74e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:26 +0000
Subject: [PATCH 02/14] fix: close response bodies of the tile store in the
 monitor

UrlStorage.Get never closed the body, so each answer other than 200 (for example every
missing tile) leaked a connection to the tile store.
---
 internal/ctmonitor/storage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ctmonitor/storage.go b/internal/ctmonitor/storage.go
index 132c483..406204b 100644
--- a/internal/ctmonitor/storage.go
+++ b/internal/ctmonitor/storage.go
@@ -28,6 +28,7 @@ func (f *UrlStorage) Get(ctx context.Context, key string) (data []byte, notfound
 	if err != nil {
 		return nil, false, err
 	}
+	defer resp.Body.Close()
 	if resp.StatusCode != 200 {
 		if resp.StatusCode == 404 {
 			return nil, true, errors.New(resp.Status)
-- 
2.43.0


From 271f8100d0698eacd0aa48be1f3a52fcf4773703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:45 +0000
Subject: [PATCH 03/14] fix: read tiles at the width they have in the published
 tree

The monitor asked for the full tile first and then for the smallest width that contains the
wanted node. Neither is right for the right-most, partial tiles: only the widths of published
trees are stored, so get-entry-and-proof and the proof endpoints answered 500/511/523 for most
of the newest entries and for unpublished tree sizes, and a full tile left over from a batch
that was interrupted before its tree head was published was served as log contents.
---
 internal/ctmonitor/fetch.go | 24 ++++++++++++------------
 internal/ctmonitor/logic.go | 36 +++++++++++-------------------------
 2 files changed, 23 insertions(+), 37 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index 7829100..f2df5f7 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -44,19 +44,19 @@ func (f *Fetch) getSth(ctx context.Context) (ct.SignedTreeHead, error) {
 	return sth, nil
 }
 
-func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile) ([]byte, error) {
-	fallbackWidth := tile.W
-	tile.W = sunlight.TileWidth
-	resp, notfound, err := f.s.Get(ctx, sunlight.Path(tile))
-	// In case the tile is not found, try to fetch the partial tile
-	if notfound {
-		if fallbackWidth != sunlight.TileWidth {
-			tile.W = fallbackWidth
-			return f.get(ctx, sunlight.Path(tile))
-		}
+// getTile fetches a tile at the width it has in the tree of the given (published) size, whatever
+// width tile has. Only that object is known to be part of the tree: partial tiles are only stored
+// at the widths of published trees, and a wider tile might be left over from an interrupted batch.
+func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile, treeSize int64) ([]byte, error) {
+	nodes := treeSize
+	if tile.L > 0 {
+		nodes >>= sunlight.TileHeight * tile.L
 	}
-	return resp, err
-
+	tile.W = int(min(nodes-tile.N*sunlight.TileWidth, sunlight.TileWidth))
+	if tile.W <= 0 {
+		return nil, errors.New("tile is not part of the tree")
+	}
+	return f.get(ctx, sunlight.Path(tile))
 }
 
 // TODO: refactor the duplicate definitions of this stanza in this file and bucket.go
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b2eccfc..b450d4f 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -74,23 +74,15 @@ func wrapper(wrapped func(ctx context.Context, reqBody io.ReadCloser, query url.
 	}
 }
 
-func hashreader(ctx context.Context, f Fetch, fallbackTreeSize int64) tlog.HashReaderFunc {
-	// Tree size is 1 greater than the index of the last entry
-	finalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, fallbackTreeSize-1))
+func hashreader(ctx context.Context, f Fetch, publishedTreeSize int64) tlog.HashReaderFunc {
 	// TODO: add some sort of cache here, this function is bound to be called a few times for the same tiles
 	return func(indexes []int64) ([]tlog.Hash, error) {
 		hashes := make([]tlog.Hash, 0, len(indexes))
 		for _, index := range indexes {
 			tile := tlog.TileForIndex(sunlight.TileHeight, index)
-			// Special case the final tile to get the correct width
-			if tile.N == finalTile.N {
-				tile.W = finalTile.W
-			}
-			// This function will always first try and get the full width tile,
-			// and then fall back to the width actually specified in the tile.
-			data, err := f.getTile(ctx, tile)
+			data, err := f.getTile(ctx, tile, publishedTreeSize)
 			if err != nil {
-				return nil, fmt.Errorf("failed to fetch tile %s: %w (fallback %s)", sunlight.Path(tile), err, sunlight.Path(finalTile))
+				return nil, fmt.Errorf("failed to fetch tile %s: %w", sunlight.Path(tile), err)
 			}
 			hash, err := tlog.HashFromTile(tile, data, index)
 			if err != nil {
@@ -161,7 +153,7 @@ func (f Fetch) get_sth_consistency(ctx context.Context, reqBody io.ReadCloser, q
 	// However, as per the spec, in this case, an empty proof should be returned
 	// TODO: this fails if the size of the first tree is greater than the actual number of records in the tree
 	if first >= 1 {
-		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, second))
+		proof, err = tlog.ProveTree(second, first, hashreader(ctx, f, int64(sth.TreeSize)))
 		if err != nil {
 			return nil, 523, err
 		}
@@ -229,7 +221,7 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
@@ -304,15 +296,9 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	dataTiles := make([]tileWithBytes, 0)
 
-	sthFinalTile := tlog.TileForIndex(sunlight.TileHeight, tlog.StoredHashIndex(0, int64(sth.TreeSize)-1))
-	// Special case the final tile to ensure we always fetch a tile that exists
-	if lastTile.N == sthFinalTile.N {
-		lastTile.W = sthFinalTile.W
-	}
-
 	// In this case, the last tile is the same as the first tile so we only need to fetch one tile
 	if firstTile.N == lastTile.N {
-		data, err := f.getTile(ctx, lastTile)
+		data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
 		if err != nil {
 			return nil, 513, err
 		}
@@ -322,7 +308,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 			// If the index of the last tile is greater than the index of the first tile,
 			// it means the first tile is complete
 			firstTile.W = 256
-			data, err := f.getTile(ctx, firstTile)
+			data, err := f.getTile(ctx, firstTile, int64(sth.TreeSize))
 			if err != nil {
 				return nil, 514, err
 			}
@@ -340,7 +326,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 					W: 256,
 				}
 
-				data, err := f.getTile(ctx, tile)
+				data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
 				if err != nil {
 					return nil, 515, err
 				}
@@ -351,7 +337,7 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 		{
 			// Finally, fetch the last tile
-			data, err := f.getTile(ctx, lastTile)
+			data, err := f.getTile(ctx, lastTile, int64(sth.TreeSize))
 			if err != nil {
 				return nil, 516, err
 			}
@@ -475,7 +461,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	tile.L = -1
 
 	// TODO: add a cache
-	data, err := f.getTile(ctx, tile)
+	data, err := f.getTile(ctx, tile, int64(sth.TreeSize))
 	if err != nil {
 		return nil, 500, err
 	}
@@ -527,7 +513,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	}
 
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, treeSize))
+	proof, err := tlog.ProveRecord(treeSize, leafIndex, hashreader(ctx, f, int64(sth.TreeSize)))
 	if err != nil {
 		return nil, 500, err
 	}
-- 
2.43.0


From 0f2fd58b14d99b50511d4415882b01ecb6c94a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 04/14] fix: get-proof-by-hash only answers for the hash that
 is logged at the index

The hash-to-index files hold 16-byte prefixes and may contain records of an interrupted batch
whose indexes were given to other entries later. Compare the whole leaf hash with the tree
before a proof is returned.
---
 internal/ctmonitor/logic.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index b450d4f..c47b1ee 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -220,8 +220,19 @@ func (f Fetch) get_proof_by_hash(ctx context.Context, reqBody io.ReadCloser, que
 		return nil, 400, fmt.Errorf("index out of range")
 	}
 
+	// The record only matches the first 16 bytes of the hash, and it may have been left behind by an
+	// interrupted batch, so make sure that this really is the entry at that index.
+	hashReader := hashreader(ctx, f, int64(sth.TreeSize))
+	leafHash, err := hashReader([]int64{tlog.StoredHashIndex(0, index)})
+	if err != nil {
+		return nil, 511, err
+	}
+	if leafHash[0] != tlog.Hash(hash) {
+		return nil, 404, fmt.Errorf("hash not found")
+	}
+
 	// Get the proof
-	proof, err := tlog.ProveRecord(treeSize, index, hashreader(ctx, f, int64(sth.TreeSize)))
+	proof, err := tlog.ProveRecord(treeSize, index, hashReader)
 	if err != nil {
 		log.Println(err)
 		return nil, 511, err
-- 
2.43.0


From 04d75c4cf5919cc5f27d771a88ce2a460239e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:48 +0000
Subject: [PATCH 05/14] fix: keep get-entries within its limit and the
 published tree

A long range returned one entry more than the limit (1025, or 76 on the edge), and a start at or
past the tree size was answered with an empty 200, a 5xx or, far past the end, a panic.
---
 internal/ctmonitor/logic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index c47b1ee..f21deb0 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -287,14 +287,17 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 
 	// Limit the number of entries fetched at once
 	limit := int64(f.maxGetEntry)
-	if end-start > limit {
-		end = start + limit
+	if end-start >= limit {
+		end = start + limit - 1
 	}
 
 	sth, err := f.getSth(ctx)
 	if err != nil {
 		return nil, 521, err
 	}
+	if start >= int64(sth.TreeSize) {
+		return nil, 400, fmt.Errorf("start is past the end of the tree")
+	}
 	if end >= int64(sth.TreeSize) {
 		end = int64(sth.TreeSize) - 1
 	}
-- 
2.43.0


From bea56e113546055cad72706764dd079ad97d1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 06/14] fix: refuse precertificates without an issuer in their
 chain

A precertificate that is itself an accepted root, or one issued by an accepted root that is a
precertificate signing certificate, made add-pre-chain panic with an index out of range.
---
 internal/ctsubmit/logic.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 757712b..a532d40 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -140,8 +140,15 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 		// Preissuer means that the intermediate that issued the precert is only valid
 		// for issuing precertificates.
 		var preIssuer *x509.Certificate
+		// The leaf (or the preissuer) can itself be one of the roots, in which case the chain ends there
+		if len(chain) < 2 {
+			return nil, http.StatusBadRequest, fmt.Errorf("precertificate chain does not contain its issuer")
+		}
 		issuer := chain[1]
 		if ct.IsPreIssuer(chain[1]) {
+			if len(chain) < 3 {
+				return nil, http.StatusBadRequest, fmt.Errorf("precertificate chain does not contain its final issuer")
+			}
 			preIssuer = chain[1]
 			issuer = chain[2]
 		}
-- 
2.43.0


From 6cc6d6a32317917919cfa805007ce392b8ca9b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 07/14] fix: do not answer a precertificate with the SCT of one
 under another issuer

The same precertificate from a precertificate signing certificate can be submitted under
different final issuers, which gives different log entries. The second submission got an SCT
built from its own entry but with the index and timestamp of the first one, that is, an SCT for
a leaf that is not in the log.
---
 internal/ctsubmit/logic.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index a532d40..6b71e35 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -11,6 +11,7 @@ import (
 	"maps"
 	"math/rand"
 	"net/http"
+	"slices"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -165,8 +166,7 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 
 	// Before we send the unsequenced entry to the first stage, we need to check if it's a duplicate
 	// This is done by hashing the certificate fingerprint and checking if it exists in the dedupe map
-	dedupeKey := [16]byte(entry.CertificateFp[:16])
-	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey, d.maskSize)
+	dedupeVal, err := d.bucket.GetDedupeEntry(ctx, dedupeKey(entry.Sequence(0, 0)), d.maskSize)
 
 	var completeEntry sunlight.LogEntry
 
@@ -216,6 +216,16 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 	return response, http.StatusOK, nil
 }
 
+// dedupeKey identifies submissions that get the same SCT. That is the (pre)certificate, except that the
+// entry for a precertificate from a precertificate signing certificate also depends on the final issuer.
+func dedupeKey(e sunlight.LogEntry) [16]byte {
+	fp := e.CertificateFp
+	if e.IsPrecert && ct.IsPreIssuer(e.Chain[0]) {
+		fp = sha256.Sum256(slices.Concat(fp[:], e.IssuerKeyHash[:], e.Certificate))
+	}
+	return [16]byte(fp[:16])
+}
+
 func (d *stageOneData) stageOne(
 	ctx context.Context,
 ) error {
@@ -443,9 +453,8 @@ func (d *stageTwoData) stageTwo(
 			// I think the specific chain the certificate was submitted with also matters.
 			dedupeVals := make([]DedupeUpload, 0, len(pool))
 			for _, e := range pool {
-				hash := [16]byte(e.entry.CertificateFp[:16])
 				dedupeVals = append(dedupeVals, DedupeUpload{
-					hash:      hash,
+					hash:      dedupeKey(e.entry),
 					leafIndex: e.entry.LeafIndex,
 					timestamp: e.entry.Timestamp,
 				})
-- 
2.43.0


From 60007e2238cd46fe823c2ee9924c514ed9f8e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:58 +0000
Subject: [PATCH 08/14] fix: verify RSA checkpoint signatures over the
 signature itself

The RSA branch of NewRFC6962Verifier passed the whole RFC6962NoteSignature structure as the
signature, so it rejected every checkpoint.
---
 internal/sunlight/checkpoint_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/checkpoint_ol.go b/internal/sunlight/checkpoint_ol.go
index 08a1a58..c50b40f 100644
--- a/internal/sunlight/checkpoint_ol.go
+++ b/internal/sunlight/checkpoint_ol.go
@@ -221,7 +221,7 @@ func NewRFC6962Verifier(name string, key crypto.PublicKey, tf func(uint64)) (not
 			if sigAlg != 1 {
 				return false
 			}
-			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], sig) == nil
+			return rsa.VerifyPKCS1v15(key, crypto.SHA256, digest[:], signature) == nil
 		case *ecdsa.PublicKey:
 			if sigAlg != 3 {
 				return false
-- 
2.43.0


From 87853fd14e851847024aa790306490ef261170c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 09/14] fix: reject data tile entries with a fractional chain
 fingerprint

A fingerprint list whose length is not a multiple of 32 was rounded down, so the following
bytes were read as the next entry.
---
 internal/sunlight/tile_ol.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sunlight/tile_ol.go b/internal/sunlight/tile_ol.go
index 207d758..9567cbe 100644
--- a/internal/sunlight/tile_ol.go
+++ b/internal/sunlight/tile_ol.go
@@ -171,7 +171,7 @@ func ReadTileLeaf(tile []byte) (e *LogEntry, rest []byte, err error) {
 
 	// look at first byte to determine the length of the chain
 	var fingerprintBytes uint16
-	if !s.ReadUint16(&fingerprintBytes) {
+	if !s.ReadUint16(&fingerprintBytes) || fingerprintBytes%32 != 0 {
 		return nil, s, fmt.Errorf("invalid data tile precert_entry")
 	}
 	var fingerprintCount = fingerprintBytes / 32
-- 
2.43.0


From 8ca9869a9d0d44dd76a672e36c6b21741ea29ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 10/14] fix: verify the right-edge data tile when the log is
 loaded

The hash tiles were verified against the tree head but the data tile was not, so a log with a
damaged data tile started and wrote the damaged entries into every following tile.
---
 internal/ctsubmit/config.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index b2267cb..77aa470 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -361,7 +361,26 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			dataTile.Bytes = dataTileBytes
 			edgeTiles[-1] = dataTile
 
-			// TODO: verify the data tile against the L0 tile
+			// Verify the data tile against the L0 tile
+			rest := dataTileBytes
+			for i := 0; i < dataTile.Tile.W; i++ {
+				var entry *sunlight.LogEntry
+				entry, rest, err = sunlight.ReadTileLeaf(rest)
+				if err != nil {
+					return nil, fmt.Errorf("unable to parse data tile: %v", err)
+				}
+				index := dataTile.Tile.N*sunlight.TileWidth + int64(i)
+				hash, err := tlog.HashFromTile(edgeTiles[0].Tile, edgeTiles[0].Bytes, tlog.StoredHashIndex(0, index))
+				if err != nil {
+					return nil, fmt.Errorf("unable to read level zero tile: %v", err)
+				}
+				if tlog.RecordHash(entry.MerkleTreeLeaf()) != hash {
+					return nil, fmt.Errorf("data tile entry %d does not match the level zero tile", index)
+				}
+			}
+			if len(rest) != 0 {
+				return nil, fmt.Errorf("data tile is longer than the level zero tile")
+			}
 		}
 
 		stageTwo = stageTwoData{
-- 
2.43.0


From d1c21b3348ddad0e452e7c19513144ad0ad8e920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:03 +0000
Subject: [PATCH 11/14] fix: do not serve entries from cut-off data tiles or
 issuers

A data tile or issuer whose body ended early without the transport
noticing was served as if complete: entries were missing from the middle
of a get-entries answer, or extra_data held a truncated certificate.
---
 internal/ctmonitor/fetch.go | 14 ++++++++++++++
 internal/ctmonitor/logic.go |  8 ++++++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/internal/ctmonitor/fetch.go b/internal/ctmonitor/fetch.go
index f2df5f7..6e7b5b0 100644
--- a/internal/ctmonitor/fetch.go
+++ b/internal/ctmonitor/fetch.go
@@ -3,9 +3,11 @@ package ctmonitor
 import (
 	"bytes"
 	"context"
+	"crypto/sha256"
 	"encoding/binary"
 	"encoding/json"
 	"errors"
+	"fmt"
 
 	ct "github.com/google/certificate-transparency-go"
 	"golang.org/x/mod/sumdb/tlog"
@@ -59,6 +61,18 @@ func (f *Fetch) getTile(ctx context.Context, tile tlog.Tile, treeSize int64) ([]
 	return f.get(ctx, sunlight.Path(tile))
 }
 
+// getIssuer fetches the issuer certificate with the given fingerprint.
+func (f *Fetch) getIssuer(ctx context.Context, fp [32]byte) ([]byte, error) {
+	data, err := f.get(ctx, fmt.Sprintf("issuer/%x", fp))
+	if err != nil {
+		return nil, err
+	}
+	if sha256.Sum256(data) != fp {
+		return nil, fmt.Errorf("issuer %x is damaged", fp)
+	}
+	return data, nil
+}
+
 // TODO: refactor the duplicate definitions of this stanza in this file and bucket.go
 // to be in the sunlight package.
 const (
diff --git a/internal/ctmonitor/logic.go b/internal/ctmonitor/logic.go
index f21deb0..223e990 100644
--- a/internal/ctmonitor/logic.go
+++ b/internal/ctmonitor/logic.go
@@ -374,6 +374,10 @@ func (f Fetch) get_entries(ctx context.Context, reqBody io.ReadCloser, query url
 			rest = nextRest
 		}
 	}
+	// A tile that was cut off between two entries still parses
+	if int64(len(entries)) != end-start+1 {
+		return nil, 517, fmt.Errorf("found %d entries, expected %d", len(entries), end-start+1)
+	}
 
 	ctLeafEntries := make([]ct.LeafEntry, 0, len(entries))
 
@@ -388,7 +392,7 @@ outerloop:
 				break outerloop
 			}
 
-			data, err := f.get(ctx, fmt.Sprintf("issuer/%x", fp))
+			data, err := f.getIssuer(ctx, fp)
 			if err != nil {
 				return nil, 518, err
 			}
@@ -504,7 +508,7 @@ func (f Fetch) get_entry_and_proof(ctx context.Context, reqBody io.ReadCloser, q
 	// TODO: add a cache here
 	chain := make([]ct.ASN1Cert, 0, len(leafEntry.ChainFp))
 	for _, fp := range leafEntry.ChainFp {
-		data, err := f.get(ctx, fmt.Sprintf("issuer/%x", fp))
+		data, err := f.getIssuer(ctx, fp)
 		if err != nil {
 			return nil, 500, err
 		}
-- 
2.43.0


From 2f1829aeec05b12de526addf7a0d49fa06e5fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:47 +0000
Subject: [PATCH 12/14] fix: release the lock on an interrupt only between
 batches

On an interrupt the instance released its Consul lock while its second stage went on publishing.
A waiting instance takes over at once, so both published from the same tree: the tree head shrank
and entries of a published tree (with SCTs) were replaced.
---
 internal/ctsubmit/config.go | 10 ++++++++++
 internal/ctsubmit/logic.go  |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 77aa470..07f742c 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -11,6 +11,7 @@ import (
 	"log"
 	"os"
 	"os/signal"
+	"sync"
 	"time"
 
 	ct "github.com/google/certificate-transparency-go"
@@ -97,12 +98,16 @@ type stageTwoData struct {
 	checkpointOrigin string
 	treeSize         uint64
 
+	// Held while a batch is published
+	publishing *sync.Mutex
+
 	signingKey *ecdsa.PrivateKey
 }
 
 func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 	var lock *consul.Lock
 	var gc GlobalConfig
+	publishing := &sync.Mutex{}
 
 	{
 		lockpath := kvpath + "/lock"
@@ -147,6 +152,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		go func(interruptChan chan os.Signal, lock *consul.Lock) {
 			<-interruptChan
 			log.Println("Interrupted, releasing lock")
+			// Another instance can take over at once, so don't release the lock in the middle of
+			// publishing a batch, and don't publish any after that.
+			publishing.Lock()
 			lock.Unlock()
 		}(interruptChan, lock)
 
@@ -392,6 +400,8 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 			checkpointOrigin: gc.Name,
 			treeSize:         sth.TreeSize,
 
+			publishing: publishing,
+
 			signingKey: key,
 		}
 	}
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index 6b71e35..fe42ba5 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -305,6 +305,9 @@ func (d *stageTwoData) stageTwo(
 				return fmt.Errorf("stage two: stageTwoRx channel closed")
 			}
 
+			// If anything below fails, this stays locked, because nothing must be published after that
+			d.publishing.Lock()
+
 			// ** Upload the data tiles **
 			newHashes := make(map[int64]tlog.Hash)
 			// The newHashes map is a reference type, so adding elements to
@@ -469,6 +472,8 @@ func (d *stageTwoData) stageTwo(
 				entry.returnPath <- entry.entry
 			}
 
+			d.publishing.Unlock()
+
 		case <-ctx.Done():
 			return fmt.Errorf("stage two: context finished")
 		}
-- 
2.43.0


From 8596e3fd3dfc7b2b58f13e567a46fb44a705867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 13/14] fix: start with roots that setup accepted (nonfatal
 certificate errors)

---
 internal/ctsubmit/config.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/config.go b/internal/ctsubmit/config.go
index 07f742c..8f9508c 100644
--- a/internal/ctsubmit/config.go
+++ b/internal/ctsubmit/config.go
@@ -269,8 +269,9 @@ func LoadLog(ctx context.Context, kvpath, consulAddress string) (*Log, error) {
 		// iterate over the certificates and add them to the pool
 		r := x509util.NewPEMCertPool()
 		for _, certBytes := range res.Certificates {
+			// Setup accepts roots with nonfatal errors
 			cert, err := x509.ParseCertificate(certBytes)
-			if err != nil {
+			if x509.IsFatal(err) {
 				return nil, fmt.Errorf("unable to parse certificate: %v", err)
 			}
 			r.AddCert(cert)
-- 
2.43.0


From aa6356e91bd4fd4e11903c599605d4a1b5addea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 14/14] fix: don't log a resubmitted certificate again when the
 duplicate check fails

A failed read of the dedupe map (or a client that leaves before it is
answered) was taken for "not a duplicate", so the certificate got a second
entry and a second SCT.
---
 internal/ctsubmit/bucket.go | 10 +++++++++-
 internal/ctsubmit/logic.go  |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/ctsubmit/bucket.go b/internal/ctsubmit/bucket.go
index 8d19b97..50d7c0e 100644
--- a/internal/ctsubmit/bucket.go
+++ b/internal/ctsubmit/bucket.go
@@ -20,6 +20,14 @@ type Bucket struct {
 	S Storage
 }
 
+var errRecordNotFound = errors.New("record not found")
+
+// isNotFound tells whether there is no such object or record. After any other error, there might be one.
+func isNotFound(err error) bool {
+	var notFound *s3types.NoSuchKey
+	return errors.Is(err, errRecordNotFound) || errors.As(err, &notFound) || errors.Is(err, os.ErrNotExist)
+}
+
 // --------------------------------------------------------------------------------------------
 
 func (b *Bucket) SetTile(ctx context.Context, tile tlog.Tile, data []byte) error {
@@ -321,5 +329,5 @@ func (b *Bucket) GetDedupeEntry(ctx context.Context, hash [16]byte, mask int) (D
 			return record, nil
 		}
 	}
-	return DedupeUpload{}, errors.New("record not found")
+	return DedupeUpload{}, errRecordNotFound
 }
diff --git a/internal/ctsubmit/logic.go b/internal/ctsubmit/logic.go
index fe42ba5..d7ad187 100644
--- a/internal/ctsubmit/logic.go
+++ b/internal/ctsubmit/logic.go
@@ -173,6 +173,9 @@ func (d *stageZeroData) stageZero(ctx context.Context, reqBody io.ReadCloser, pr
 	if err == nil {
 		// If we recieved a valid cache hit, then the certificate is a duplicate
 		completeEntry = entry.Sequence(dedupeVal.leafIndex, dedupeVal.timestamp)
+	} else if !isNotFound(err) {
+		// It might be a duplicate, so it can't be sequenced
+		return nil, http.StatusInternalServerError, fmt.Errorf("unable to check for a duplicate: %w", err)
 	} else {
 		// Otherwise, we need to send it to the sequencer
 
-- 
2.43.0

