From 3507a84a6a71300db831a33ef3918d526f909198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 01/60] fix: keep expirations aligned with certificates in
 UpdateWithKeepExisting

When some certificates of a batch were already stored, the IDs, names,
parents and payloads were compacted but the expirations were not, so new
certificates were stored with the expiration of another one.
---
 pkg/mapserver/updater/updater.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..b010c25 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -390,12 +390,14 @@ func UpdateWithKeepExisting(
 		certIDs[to] = certIDs[from]
 		domainNames[to] = domainNames[from]
 		parentCertIDs[to] = parentCertIDs[from]
+		certExpirations[to] = certExpirations[from]
 		payloads = append(payloads, certs[from].Raw)
 	})
 	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
 	certIDs = certIDs[:len(payloads)]
 	domainNames = domainNames[:len(payloads)]
 	parentCertIDs = parentCertIDs[:len(payloads)]
+	certExpirations = certExpirations[:len(payloads)]
 
 	// Update those certificates that were not in the mask.
 	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
-- 
2.43.0


From a8d9bac09bd9d709cadcd13a194d9b02202b5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 02/60] fix: check the last batch in CheckCertsExist when it is
 full

With a multiple of batchSize IDs the last batch was never looked up, and
all of its certificates were reported as missing.
---
 pkg/db/mysql/certs.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..43fed82 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -27,20 +27,13 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
-		to := i + batchSize
-		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkCertsExist(ctx, ids[from:to], presence[from:to]); err != nil {
 			return nil, err
 		}
 	}
-	// Do the last batch, if non empty.
-	from := len(ids) / batchSize * batchSize
-	to := from + len(ids)%batchSize
-	var err error
-	if to > from {
-		err = c.checkCertsExist(ctx, ids[from:to], presence[from:to])
-	}
-	return presence, err
+	return presence, nil
 }
 
 func (c *mysqlDB) UpdateCerts(
-- 
2.43.0


From b6600e4d857599c7735718a8a89e3c596ed4a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 03/60] fix: store the domains of certificates and policies
 before themselves

UpdateWithKeepExisting skips the objects already stored. When an ingestion
stopped after storing the certificates (or policies) but before storing
their domains, repeating it skipped them and they never reached the map.
---
 pkg/mapserver/updater/updater.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index b010c25..13907ea 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -597,12 +597,6 @@ func insertCerts(
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
 
-	// Send hash, parent hash, expiration and payload to the certs table.
-	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting certificates: %w", err)
-	}
-	// around 3 seconds for this ^^ (100K certs)
-
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -630,6 +624,14 @@ func insertCerts(
 	}
 	// around 8 seconds for this ^^ (100K certs)
 
+	// Send hash, parent hash, expiration and payload to the certs table. This comes last: a
+	// certificate present in the certs table is not processed again by UpdateWithKeepExisting, thus
+	// its domains must have been stored already, also if we stop or fail in the middle.
+	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting certificates: %w", err)
+	}
+	// around 3 seconds for this ^^ (100K certs)
+
 	return nil
 }
 
@@ -655,6 +657,10 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		return fmt.Errorf("updating domains: %w", err)
 	}
 
+	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
+		return fmt.Errorf("updating domain_certs: %w", err)
+	}
+
 	// Update the policies in the DB, with nil parents and mock expirations.
 	// Sequence of nil parent ids:
 	parents := make([]*common.SHA256Output, len(ids))
@@ -664,15 +670,12 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		t := time.Date(3000, 1, 1, 0, 0, 0, 0, time.UTC) // TODO(juagargi) use real expirations.
 		expirations[i] = t
 	}
-	// Update policies:
+	// Update policies. This comes last: a policy present in the policies table is not processed again
+	// by UpdateWithKeepExisting, thus its domains must have been stored already.
 	if err := conn.UpdatePolicies(ctx, ids, parents, expirations, payloads); err != nil {
 		return fmt.Errorf("inserting policies: %w", err)
 	}
 
-	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
-		return fmt.Errorf("updating domain_certs: %w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From 324644c11ed63471eec0dc85a8a59c20481b2fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 04/60] fix: keep unchanged and re-created trie nodes when
 committing

A node removed and stored again by the same update was deleted from the
database, and its new content never written.
---
 pkg/mapserver/trie/trie.go       | 21 ++++++++++++---------
 pkg/mapserver/trie/trie_cache.go |  7 +++++++
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..53f1c89 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -607,15 +607,18 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 
 // storeNode stores a batch and deletes the old node from cache
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
-	if !bytes.Equal(h, oldRoot) {
-		var node Hash
-		copy(node[:], h)
-		// record new node
-		s.db.updateUpdateNodes(node, batch)
-		// Cache the shortcut node if it's height is over CacheHeightLimit
-		if height >= s.CacheHeightLimit {
-			s.db.updateLiveCache(node, batch)
-		}
+	var node Hash
+	copy(node[:], h)
+	// record new node
+	s.db.updateUpdateNodes(node, batch)
+	// the node is part of the new tree: don't remove it from the db
+	s.db.cancelRemoveNode(node)
+	// Cache the shortcut node if it's height is over CacheHeightLimit
+	if height >= s.CacheHeightLimit {
+		s.db.updateLiveCache(node, batch)
+	}
+	// The old root might not have the trailing flag byte (root of the trie).
+	if len(oldRoot) < HashLength || !bytes.Equal(h[:HashLength], oldRoot[:HashLength]) {
 		s.deleteOldNode(oldRoot, height, false)
 	}
 }
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..920b346 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -199,3 +199,10 @@ func (db *CacheDB) addRemoveNode(node common.SHA256Output) {
 	db.removedNode[node] = []byte{0}
 	db.removeMux.Unlock()
 }
+
+// cancelRemoveNode: the node is in use again, keep it
+func (db *CacheDB) cancelRemoveNode(node common.SHA256Output) {
+	db.removeMux.Lock()
+	delete(db.removedNode, node)
+	db.removeMux.Unlock()
+}
-- 
2.43.0


From 2132bfa8fa3038f1a6912a23ec6fbd5911e613e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 05/60] fix: allow the map to become empty

UpdateSMT panicked when the last entry of the map was removed.
---
 pkg/db/mysql/smt.go              |  7 +++++++
 pkg/mapserver/updater/updater.go | 12 ++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index c6116ca..970c136 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -20,7 +20,14 @@ func (c *mysqlDB) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
 	return (*common.SHA256Output)(key), nil
 }
 
+// SaveRoot stores the root of the SMT. A nil root means that the SMT is empty.
 func (c *mysqlDB) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
+	if root == nil {
+		if _, err := c.db.ExecContext(ctx, "DELETE FROM root"); err != nil {
+			return fmt.Errorf("error removing root ID: %w", err)
+		}
+		return nil
+	}
 	str := "REPLACE INTO root (key32) VALUES (?)"
 	_, err := c.db.ExecContext(ctx, str, (*root)[:])
 	if err != nil {
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 13907ea..f148a8b 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -556,13 +556,13 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 	fmt.Printf("\nsmt [%s]: SMT updated\n", time.Now().Format(time.Stamp))
 
 	// Save root value:
+	// The root is nil if the tree is empty, i.e. no domain has any certificate or policy left.
+	var newRoot *common.SHA256Output
 	if smtTrie.Root != nil {
-		err = conn.SaveRoot(ctx, (*common.SHA256Output)(smtTrie.Root))
-		if err != nil {
-			return err
-		}
-	} else {
-		panic("SMT tree root is nil")
+		newRoot = (*common.SHA256Output)(smtTrie.Root)
+	}
+	if err = conn.SaveRoot(ctx, newRoot); err != nil {
+		return err
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
-- 
2.43.0


From a96d80178c4b7093ddc3a69c4cdab97b89125064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 06/60] fix: let prune_expired run again after having failed in
 the same connection

---
 tools/create_schema.sh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index 46a4cb3..37fad87 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -396,7 +396,9 @@ DELIMITER $$
 CREATE PROCEDURE prune_expired(IN cut DATETIME)
 BEGIN
 
-	-- Create a temporary table to hold the IDs of all the expired certs or descendants.
+	-- Create a temporary table to hold the IDs of all the expired certs or descendants. A previous call
+	-- that failed in the middle, using this same connection, might have left it behind.
+	DROP TEMPORARY TABLE IF EXISTS temp_cert_ids;
 	CREATE TEMPORARY TABLE temp_cert_ids (
 	  cert_id VARBINARY(32)
 	);
-- 
2.43.0


From 8d9d3b2e7a18b8bc1867dfff235aa504737e46a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 07/60] fix: prune with UTC time, as the stored expirations are
 in UTC

---
 pkg/db/mysql/certs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 43fed82..0ec0c33 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -361,9 +361,10 @@ func (c *mysqlDB) checkCertsExist(ctx context.Context, ids []common.SHA256Output
 func (c *mysqlDB) pruneCerts(ctx context.Context, now time.Time) error {
 	// A certificate is valid if its NotAfter is greater or equal than now.
 	// We thus look for certificates with expiration less than now.
+	// The expirations are stored in UTC.
 
 	str := "CALL prune_expired(?)"
-	_, err := c.db.ExecContext(ctx, str, now.Format(time.DateTime))
+	_, err := c.db.ExecContext(ctx, str, now.UTC().Format(time.DateTime))
 	return err
 }
 
-- 
2.43.0


From f154256291b07fa243673193283f5bfce4b09923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:04 +0000
Subject: [PATCH 08/60] fix: report errors found while iterating over rows from
 the DB

---
 pkg/db/mysql/certs.go    | 3 +++
 pkg/db/mysql/common.go   | 3 +++
 pkg/db/mysql/dirty.go    | 3 +++
 pkg/db/mysql/policies.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 0ec0c33..ba74730 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -266,6 +266,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..e03e7f6 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -36,6 +36,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/dirty.go b/pkg/db/mysql/dirty.go
index 6dfb59b..bcc3c19 100644
--- a/pkg/db/mysql/dirty.go
+++ b/pkg/db/mysql/dirty.go
@@ -107,6 +107,9 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 		}
 		domainIDs = append(domainIDs, common.SHA256Output(domainId))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("error retrieving dirty domains: %w", err)
+	}
 	return domainIDs, nil
 }
 
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..919c032 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -162,6 +162,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
-- 
2.43.0


From 6c5a2085a6b91971b7f8df72413129e299ca7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:19 +0000
Subject: [PATCH 09/60] fix: don't add back to the trie a shortcut that is
 being deleted

---
 pkg/mapserver/trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 53f1c89..985447f 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -485,6 +485,7 @@ func (s *Trie) maybeAddShortcutToKV(keys, values [][]byte, shortcutKey, shortcut
 				newKeys = append(newKeys, keys[i+1:]...)
 				newValues = append(newValues, values[:i]...)
 				newValues = append(newValues, values[i+1:]...)
+				return newKeys, newValues
 			}
 			if !higher && bytes.Compare(shortcutKey, key) > 0 {
 				higher = true
-- 
2.43.0


From 70004360f94af1264c2a3b58c293a31c7f470b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 10/60] fix: reject proofs of absence built from the leaf of
 the same domain or from interior nodes

---
 pkg/mapserver/trie/trie_merkle_proof.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..0109b8f 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -127,8 +127,25 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 	}
 }
 
+// validAuditPath checks the sizes of the audit path, which comes from a not trusted source. With
+// unchecked sizes, the preimage of an interior node could be presented as one of a leaf.
+func validAuditPath(ap [][]byte) bool {
+	if len(ap) > 8*HashLength {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength && !bytes.Equal(node, DefaultLeaf) {
+			return false
+		}
+	}
+	return true
+}
+
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if len(key) != HashLength || len(value) != HashLength || !validAuditPath(ap) {
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
@@ -150,11 +167,18 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 	if root == nil {
 		return true
 	}
+	if len(key) != HashLength || !validAuditPath(ap) {
+		return false
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(root, verifyInclusion(ap, 0, key, DefaultLeaf))
 	}
+	// A leaf for the key itself proves its presence, not its absence.
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !VerifyInclusion(root, ap, proofKey, value) {
-- 
2.43.0


From c314992575c5e4dd627e20b9370249c8aa2f7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 11/60] fix: remove the nodes of the old SMT only after storing
 the new root

A failure or crash between both left the stored root pointing to nodes that
did not exist anymore.
---
 pkg/mapserver/trie/trie_cache.go | 36 ++++++++++++++++++++++----------
 pkg/mapserver/trie/trie_tools.go | 17 ++++++++++++---
 pkg/mapserver/updater/updater.go |  9 ++++++--
 3 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index 920b346..814fbb6 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -55,11 +55,11 @@ func NewCacheDB(store DBConn) (*CacheDB, error) {
 	}, nil
 }
 
-// commitChangesToDB stores the updated nodes to disk.
-func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
+// storeUpdatedNodes stores the updated nodes to disk. The nodes that are not part of the tree anymore
+// are kept until calling deleteRemovedNodes.
+func (cacheDB *CacheDB) storeUpdatedNodes(ctx context.Context) error {
 	// prepare value to store
 	updatesToDB := []*db.TreeNodeRecord{}
-	keysToDelete := []common.SHA256Output{}
 
 	// get nodes from update map
 	cacheDB.updatedMux.Lock()
@@ -69,6 +69,21 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
 	cacheDB.updatedMux.Unlock()
 
+	// lock the db; other thread should not read or write to db during the updates
+	cacheDB.wholeCacheDBLock.Lock()
+	defer cacheDB.wholeCacheDBLock.Unlock()
+
+	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
+	if err != nil {
+		return fmt.Errorf("storeUpdatedNodes | UpdateKeyValuePairBatches | %w", err)
+	}
+	return nil
+}
+
+// deleteRemovedNodes deletes from disk those nodes that are not part of the tree anymore.
+func (cacheDB *CacheDB) deleteRemovedNodes(ctx context.Context) error {
+	keysToDelete := []common.SHA256Output{}
+
 	// get nodes from remove map
 	cacheDB.removeMux.Lock()
 
@@ -83,16 +98,15 @@ func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
 	cacheDB.wholeCacheDBLock.Lock()
 	defer cacheDB.wholeCacheDBLock.Unlock()
 
-	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
-	if err != nil {
-		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
-	}
-
-	if len(keysToDelete) > 0 {
-		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
+	// delete in chunks, to bound the size of each query
+	const chunkSize = 1_000_000
+	for len(keysToDelete) > 0 {
+		n := min(chunkSize, len(keysToDelete))
+		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete[:n])
 		if err != nil {
-			return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
+			return fmt.Errorf("deleteRemovedNodes | DeleteKeyValuePairBatches | %w", err)
 		}
+		keysToDelete = keysToDelete[n:]
 	}
 
 	return nil
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..7b727a3 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -108,10 +108,21 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 	return s.get(ctx, lnode, key, batch, 2*iBatch+1, height-1)
 }
 
+// Commit stores the new nodes in the DB, and deletes those not being part of the tree anymore.
 func (s *Trie) Commit(ctx context.Context) error {
-	err := s.db.commitChangesToDB(ctx)
-	if err != nil {
+	if err := s.CommitNewNodes(ctx); err != nil {
 		return err
 	}
-	return nil
+	return s.CommitRemovedNodes(ctx)
+}
+
+// CommitNewNodes stores the new nodes in the DB. The nodes that were present before remain in the DB,
+// so that the previous tree can still be used.
+func (s *Trie) CommitNewNodes(ctx context.Context) error {
+	return s.db.storeUpdatedNodes(ctx)
+}
+
+// CommitRemovedNodes deletes from the DB the nodes that are not part of the tree anymore.
+func (s *Trie) CommitRemovedNodes(ctx context.Context) error {
+	return s.db.deleteRemovedNodes(ctx)
 }
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index f148a8b..d66e4d2 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -486,7 +486,7 @@ func updateSMTfromDirty(
 }
 
 // updateSMTFromDomainEntries updates and commits the SMT using domain-entry
-// records retrieved from the database.
+// records retrieved from the database. The nodes of the previous tree remain in the database.
 func updateSMTFromDomainEntries(
 	ctx context.Context,
 	smtTrie *trie.Trie,
@@ -509,7 +509,7 @@ func updateSMTFromDomainEntries(
 	fmt.Printf("\nsmt.updateSMTFromDomainEntries [%s]: in-memory tree updated\n", time.Now().Format(time.Stamp))
 
 	// And update the tree in the DB.
-	err = smtTrie.Commit(ctx)
+	err = smtTrie.CommitNewNodes(ctx)
 	// TODO: clean records on the `dirty` table that correspond to [s:e]
 	if err != nil {
 		return err
@@ -566,6 +566,11 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
+	// Only now remove the nodes of the previous tree: the root in the DB must always be usable.
+	if err = smtTrie.CommitRemovedNodes(ctx); err != nil {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 7924ecdbde0c63e46a1fdb9ade536b307b444a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 12/60] fix: replace the SMT and its signature at the same time
 in the responder

---
 pkg/mapserver/responder/responder.go | 46 ++++++++++++++++------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index e37e318..c55127f 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/rsa"
 	"fmt"
+	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/common/crypto"
@@ -14,7 +15,10 @@ import (
 )
 
 type MapResponder struct {
-	conn           db.Conn
+	conn db.Conn
+
+	// mu protects smt and signedTreeHead, which always correspond to one another.
+	mu             sync.RWMutex
 	smt            *trie.Trie
 	signedTreeHead []byte
 }
@@ -55,11 +59,19 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 		return fmt.Errorf("error loading SMT: %w", err)
 	}
 
-	// Use the new SMT
+	// sign the SMT root
+	signature, err := crypto.SignBytes(smt.Root, privateKey)
+	if err != nil {
+		return fmt.Errorf("SignStructRSASHA256 | %w", err)
+	}
+
+	// Use the new SMT and its signature.
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.smt = smt
+	r.signedTreeHead = signature
 
-	// sign the SMT root
-	return r.signTreeHead(privateKey)
+	return nil
 }
 
 func (r *MapResponder) GetProof(ctx context.Context, domainName string,
@@ -71,11 +83,16 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 		return nil, err
 	}
 
+	// The whole response uses the same SMT and signature, also if they are replaced meanwhile.
+	r.mu.RLock()
+	smt, signedTreeHead := r.smt, r.signedTreeHead
+	r.mu.RUnlock()
+
 	// Prepare proof with the help of the SMT.
 	proofList := make([]*mapCommon.MapServerResponse, len(domainParts))
 	for i, domainPart := range domainParts {
 		domainPartID := common.SHA256Hash32Bytes([]byte(domainPart))
-		proof, isPoP, proofKey, proofValue, err := r.smt.MerkleProof(ctx, domainPartID[:])
+		proof, isPoP, proofKey, proofValue, err := smt.MerkleProof(ctx, domainPartID[:])
 		if err != nil {
 			return nil, fmt.Errorf("error obtaining Merkle proof for %s: %w",
 				domainPart, err)
@@ -114,11 +131,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			PoI: mapCommon.PoI{
 				ProofType:  proofType,
 				Proof:      proof,
-				Root:       r.smt.Root,
+				Root:       smt.Root,
 				ProofKey:   proofKey,
 				ProofValue: proofValue,
 			},
-			TreeHeadSig: r.SignedTreeHead(),
+			TreeHeadSig: append(signedTreeHead[:0:0], signedTreeHead...),
 		}
 	}
 	return proofList, nil
@@ -126,18 +143,7 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 
 // SignedTreeHead returns a copy of the Signed Tree Head (STH).
 func (r *MapResponder) SignedTreeHead() []byte {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	return append(r.signedTreeHead[:0:0], r.signedTreeHead...)
 }
-
-func (r *MapResponder) signTreeHead(privateKey *rsa.PrivateKey) error {
-	// Sign the tree head.
-	signature, err := crypto.SignBytes(r.smt.Root, privateKey)
-	if err != nil {
-		return fmt.Errorf("SignStructRSASHA256 | %w", err)
-	}
-
-	// Keep it for the proofs.
-	r.signedTreeHead = signature
-
-	return nil
-}
-- 
2.43.0


From 2a04d0c1cab296a69fbbd6476351bea98b632e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 13/60] fix: answer each update request exactly once, after
 reloading the responder

The caller was answered before the responder used the new root, and a failing
reload left the update goroutine waiting for a caller that was not there.
A stopped map server made the callers panic.
---
 pkg/mapserver/mapserver.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index f35c3d3..506734d 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -46,6 +46,7 @@ type MapServer struct {
 	apiStopServerChan chan struct{}
 	updateChan        chan context.Context
 	updateErrChan     chan error
+	updateStopped     <-chan struct{} // No more updates are possible when closed.
 }
 
 func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error) {
@@ -117,6 +118,7 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 		apiStopServerChan: make(chan struct{}, 1),
 		updateChan:        make(chan context.Context),
 		updateErrChan:     make(chan error),
+		updateStopped:     ctx.Done(),
 	}
 
 	// Start listening for update requests.
@@ -128,14 +130,16 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 				// TODO: ensure that the Mapserver is never in an inconsistent state. Currently, if
 				// the new SMT is applied but the responder does not yet use the updated SMT root
 				// value, queries will fail
-				s.pruneAndUpdate(c)
-				err := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
-				if err != nil {
-					s.updateErrChan <- err
+				err := s.pruneAndUpdate(c)
+				// Also when failed, as the root might have been updated before the failure.
+				reloadErr := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
+				if err == nil {
+					err = reloadErr
 				}
+				// Exactly one answer per request.
+				s.updateErrChan <- err
 			case <-ctx.Done():
 				// Requested to exit.
-				close(s.updateChan)
 				return
 			}
 		}
@@ -221,7 +225,11 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 // PruneAndUpdate triggers an update. If an ongoing update is still in process, it blocks.
 func (s *MapServer) PruneAndUpdate(ctx context.Context) error {
 	// Signal we want an update.
-	s.updateChan <- ctx
+	select {
+	case s.updateChan <- ctx:
+	case <-s.updateStopped:
+		return fmt.Errorf("the map server does not perform updates anymore")
+	}
 
 	// Wait for the answer (in form of an error).
 	err := <-s.updateErrChan
@@ -299,15 +307,14 @@ func (s *MapServer) apiGetPayloads(w http.ResponseWriter, r *http.Request, retur
 	}
 }
 
-func (s *MapServer) pruneAndUpdate(ctx context.Context) {
+func (s *MapServer) pruneAndUpdate(ctx context.Context) error {
 	// Refrain from updating if pruning failed.
 	err := s.prune(ctx)
 	if err != nil {
-		s.updateErrChan <- err
-		return
+		return err
 	}
 
-	s.updateErrChan <- s.update(ctx)
+	return s.update(ctx)
 }
 
 // prune only removes the affected certificates from the certs table and adds the affected domains
-- 
2.43.0


From 2dd4ff06636d29e07f869928c162f188c8934618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:44 +0000
Subject: [PATCH 14/60] fix: a stopped or failed HTTP fetch cannot interfere
 with the next one

The background routine of an aborted fetch used the channel and range of the
fetcher, so after a failed update it could send into (or close) the channel of
the next fetch, or skip entries. Each fetch now works on its own state and
stops with StopFetching or the next StartFetching. A server returning no
entries made it loop forever, and more entries than requested made it panic.
---
 pkg/mapserver/logfetcher/httplogfetcher.go | 74 ++++++++++++++++------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a94cb30..e626192 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -40,7 +40,11 @@ type HttpLogFetcher struct {
 	processBatchSize int64 // We unblock NextBatch in batches of this size.
 	ctClient         *client.LogClient
 	chanResults      chan *result
-	stopping         bool // Set to request the LogFetcher to stop fetching.
+
+	// Each call to StartFetching creates a new context, which is cancelled by StopFetching.
+	// A fetch only uses its own context, so that it remains stopped when a new one is started.
+	fetchCtx   context.Context
+	cancelFunc context.CancelFunc
 
 	// The chanResults channel is used to obtain results from this fetcher. Each call to NextBatch
 	// pulls one full result from the channel into the currentResult variable. And each call
@@ -71,6 +75,7 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	fetchCtx, cancelFunc := context.WithCancel(context.Background())
 	return &HttpLogFetcher{
 		url: url,
 
@@ -78,6 +83,8 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 		processBatchSize: defaultProcessBatchSize,
 		ctClient:         ctClient,
 		chanResults:      nil,
+		fetchCtx:         fetchCtx,
+		cancelFunc:       cancelFunc,
 	}, nil
 }
 
@@ -104,16 +111,33 @@ func (f *HttpLogFetcher) GetCurrentState(ctx context.Context, lastState State) (
 
 // StartFetching will start fetching certificates in the background, so that there is
 // at most two batches ready to be immediately read by NextBatch.
+// If a previous fetch was still running (e.g. the update using it failed), it is stopped.
 func (f *HttpLogFetcher) StartFetching(start, end int64) {
+	f.StopFetching()
+	f.fetchCtx, f.cancelFunc = context.WithCancel(context.Background())
 	f.chanResults = make(chan *result, preloadCount)
-	f.stopping = false
 	f.start = start
 	f.end = end
-	go f.fetch()
+	// The routine works on its own copy: it must not see the state of any later fetch.
+	job := *f
+	go job.fetch()
 }
 
 func (f *HttpLogFetcher) StopFetching() {
-	f.stopping = true
+	f.cancelFunc()
+}
+
+// stopping returns true if the fetch was requested to stop.
+func (f *HttpLogFetcher) stopping() bool {
+	return f.fetchCtx.Err() != nil
+}
+
+// sendResult sends the result, unless the fetch is requested to stop.
+func (f *HttpLogFetcher) sendResult(r *result) {
+	select {
+	case f.chanResults <- r:
+	case <-f.fetchCtx.Done():
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved, or error, I.e. if the call to
@@ -198,13 +222,12 @@ func (f *HttpLogFetcher) fetch() {
 		end := min(f.end, start+f.processBatchSize-1)
 		n, err := f.getRawEntriesInBatches(leafEntries, start, end)
 		if err != nil {
-			f.chanResults <- &result{
+			f.sendResult(&result{
 				err: err,
-			}
+			})
 			return // Don't continue processing when errors.
 		}
-		if f.stopping {
-			f.stopping = false // We are handling the stop now.
+		if f.stopping() {
 			return
 		}
 		certEntries := make([]ctx509.Certificate, n)
@@ -214,9 +237,9 @@ func (f *HttpLogFetcher) fetch() {
 			index := start + int64(i)
 			raw, err := ct.RawLogEntryFromLeaf(index, &leaf)
 			if err != nil {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			// Certificate.
@@ -224,9 +247,9 @@ func (f *HttpLogFetcher) fetch() {
 			// Accept the same certificates as CT logs, i.e., don't be too restrictive in terms of
 			// which certificates to reject (i.e., allow for non-fatal parsing/validation errors)
 			if ctx509.IsFatal(err) {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			certEntries[i] = *cert
@@ -235,18 +258,18 @@ func (f *HttpLogFetcher) fetch() {
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
 				if err != nil {
-					f.chanResults <- &result{
+					f.sendResult(&result{
 						err: err,
-					}
+					})
 					return
 				}
 			}
 		}
 		// Send the result.
-		f.chanResults <- &result{
+		f.sendResult(&result{
 			certs:  certEntries,
 			chains: chainEntries,
-		}
+		})
 	}
 }
 
@@ -264,7 +287,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 	// TODO(juagargi) should we align the calls to serverBatchSize
 	batchCount := (end - start + 1) / f.serverBatchSize
 
-	if f.stopping {
+	if f.stopping() {
 		return 0, nil
 	}
 	// Do batches.
@@ -277,7 +300,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return i * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopping() {
 			return i*f.serverBatchSize + n, nil
 		}
 		assert(n == f.serverBatchSize, "bad size in getRawEntriesInBatches")
@@ -293,7 +316,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return batchCount * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopping() {
 			return remStart + n, nil
 		}
 		assert(n == remEnd-remStart+1, "bad remainder size in getRawEntriesInBatches")
@@ -316,14 +339,23 @@ func (f *HttpLogFetcher) getRawEntries(
 	_ = leafEntries[end-start] // Fail early if the slice is too small.
 
 	for offset := int64(0); offset < end-start+1; {
-		if f.stopping {
+		if f.stopping() {
+			// Requested to stop
+			return 0, nil
+		}
+		rsp, err := f.ctClient.GetRawEntries(f.fetchCtx, start+offset, end)
+		if f.stopping() {
 			// Requested to stop
 			return 0, nil
 		}
-		rsp, err := f.ctClient.GetRawEntries(context.Background(), start+offset, end)
 		if err != nil {
 			return offset, err
 		}
+		// The server may return less entries than requested, but at least one, and never more.
+		if n := int64(len(rsp.Entries)); n == 0 || n > end-start+1-offset {
+			return offset, fmt.Errorf("CT log server returned %d entries for [%d,%d]",
+				n, start+offset, end)
+		}
 		for i := int64(0); i < int64(len(rsp.Entries)); i++ {
 			e := rsp.Entries[i]
 			leafEntries[offset+i] = e
-- 
2.43.0


From ecd6dec0dc823445e9efe6dedf62ce9e56508d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:05 +0000
Subject: [PATCH 15/60] fix: local fetcher reports its errors and cannot
 interfere with the next fetch

A malformed row crashed the process, a row of a certificate without chain or
with non fatal parsing problems was considered malformed, errors were only
printed (so the update looked complete), a missing folder or a file with an
inverted range crashed, and the routines of an aborted fetch used the channels
of the next one.
---
 pkg/mapserver/logfetcher/locallogfetcher.go | 145 ++++++++++++++------
 1 file changed, 106 insertions(+), 39 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..3f493fc 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -57,7 +57,11 @@ type LocalLogFetcher struct {
 	maxIngestionSize uint64
 
 	chanResults chan *result
-	stopping    bool // Set to request the LogFetcher to stop fetching.
+
+	// Each call to Initialize creates a new context, which is cancelled by StopFetching, or by the
+	// next Initialize.
+	fetchCtx   context.Context
+	cancelFunc context.CancelFunc
 
 	inputFiles []*CsvFileInfo
 
@@ -99,7 +103,9 @@ func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 	// reset current time for removing expired certificates
 	f.now = updateStartTime
 
-	// reset values
+	// stop any previous fetch (e.g. the update using it failed) and reset values
+	f.StopFetching()
+	f.fetchCtx, f.cancelFunc = context.WithCancel(context.Background())
 	f.chanResults = make(chan *result, preloadCount)
 	f.incomingFileCh = make(chan util.CsvFile)
 	f.certWithChainChan = make(chan *CertWithChainData)
@@ -127,7 +133,9 @@ func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 		f.achievableStateMap[start] = getGzFileChain(f.achievableStateMap, start)
 	}
 
-	f.processIncomingFiles()
+	// The routines work on their own copy: they must not see the state of any later fetch.
+	job := *f
+	job.processIncomingFiles()
 	return nil
 }
 
@@ -184,22 +192,25 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 	}
 
 	// process the requested files in a separate go routine
+	job := *f
 	go func() {
 		for _, entry := range requestedFiles {
 			fmt.Printf("Processing Certificate File %s\n", entry)
 			if entry.isGzipped {
-				f.addGzFiles([]string{entry.path})
+				job.addGzFiles([]string{entry.path})
 			} else {
-				f.addCsvFiles([]string{entry.path})
+				job.addCsvFiles([]string{entry.path})
 			}
 		}
-		close(f.incomingFileCh)
+		close(job.incomingFileCh)
 	}()
 }
 
+// StopFetching requests the routines of the current fetch, if any, to finish.
 func (f *LocalLogFetcher) StopFetching() {
-	// TODO: abort csv fetching/parsing if this value is set to true
-	f.stopping = true
+	if f.cancelFunc != nil {
+		f.cancelFunc()
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved or false if no further batches
@@ -239,7 +250,7 @@ func (f *LocalLogFetcher) ReturnNextBatch() (
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.GzFile{}).WithFile(filename)
+		p.addFile((&util.GzFile{}).WithFile(filename))
 	}
 }
 
@@ -247,7 +258,30 @@ func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addCsvFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.UncompressedFile{}).WithFile(filename)
+		p.addFile((&util.UncompressedFile{}).WithFile(filename))
+	}
+}
+
+func (p *LocalLogFetcher) addFile(file util.CsvFile) {
+	select {
+	case p.incomingFileCh <- file:
+	case <-p.fetchCtx.Done():
+	}
+}
+
+// sendCert sends the parsed data to the next stage, unless the fetch is requested to stop.
+func (p *LocalLogFetcher) sendCert(data *CertWithChainData) {
+	select {
+	case p.certWithChainChan <- data:
+	case <-p.fetchCtx.Done():
+	}
+}
+
+// sendResult sends the result to NextBatch, unless the fetch is requested to stop.
+func (p *LocalLogFetcher) sendResult(r *result) {
+	select {
+	case p.chanResults <- r:
+	case <-p.fetchCtx.Done():
 	}
 }
 
@@ -262,6 +296,7 @@ func (p *LocalLogFetcher) processFile(f util.CsvFile) {
 	// ingestWithCSV will send data to the cert with chain channel
 	if err := p.ingestWithCSV(r); err != nil {
 		p.errorCh <- err
+		f.Close()
 		return
 	}
 	if err := f.Close(); err != nil {
@@ -279,6 +314,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 	reader.FieldsPerRecord = -1 // don't check number of fields
 
 	parseFunction := func(fields []string, lineNo int) error {
+		if len(fields) <= CertChainColumn {
+			return fmt.Errorf("at line %d: only %d columns", lineNo, len(fields))
+		}
 		// First avoid even parsing already expired certs.
 		n, err := getExpiration(fields)
 		if err != nil {
@@ -286,9 +324,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		}
 		if p.now.After(time.Unix(n, 0)) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendCert(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
@@ -299,20 +337,24 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		}
 		certID := common.SHA256Hash32Bytes(rawBytes)
 		cert, err := ctx509.ParseCertificate(rawBytes)
-		if err != nil {
-			return err
+		// Accept the same certificates as CT logs, as the HTTP fetcher does.
+		if ctx509.IsFatal(err) {
+			return fmt.Errorf("at line %d: %w", lineNo, err)
 		}
 
 		if p.now.After(cert.NotAfter) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendCert(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
 		// The certificate chain is a list of base64 strings separated by semicolon (;).
-		strs := strings.Split(fields[CertChainColumn], ";")
+		var strs []string
+		if fields[CertChainColumn] != "" {
+			strs = strings.Split(fields[CertChainColumn], ";")
+		}
 		chain := make([]*ctx509.Certificate, len(strs))
 		chainIDs := make([]*common.SHA256Output, len(strs))
 		for i, s := range strs {
@@ -324,17 +366,17 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			id := common.SHA256Hash32Bytes(rawBytes)
 			// Not seen before, push it to the DB.
 			chain[i], err = ctx509.ParseCertificate(rawBytes)
-			if err != nil {
+			if ctx509.IsFatal(err) {
 				return fmt.Errorf("at line %d: %s\n%s", lineNo, err, fields[CertChainColumn])
 			}
 			chainIDs[i] = &id
 		}
-		p.certWithChainChan <- &CertWithChainData{
+		p.sendCert(&CertWithChainData{
 			Cert:          *cert,
 			CertID:        &certID,
 			ChainPayloads: chain,
 			ChainIDs:      chainIDs,
-		}
+		})
 		return nil
 	}
 
@@ -342,6 +384,10 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		lineNo int
 		fields []string
 	}
+	records, err := reader.ReadAll()
+	if err != nil {
+		return err
+	}
 	recordsChan := make(chan *lineAndFields)
 
 	wg := sync.WaitGroup{}
@@ -350,16 +396,15 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		go func() {
 			defer wg.Done()
 			for x := range recordsChan {
+				if p.fetchCtx.Err() != nil {
+					continue // Requested to stop.
+				}
 				if err := parseFunction(x.fields, x.lineNo); err != nil {
-					panic(err)
+					p.errorCh <- err
 				}
 			}
 		}()
 	}
-	records, err := reader.ReadAll()
-	if err != nil {
-		return err
-	}
 	for lineNo, fields := range records {
 		if len(fields) == 0 { // there exist empty lines (e.g. at the end of the gz files)
 			continue
@@ -402,8 +447,16 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 		for r := 0; r < NumFileReaders; r++ {
 			go func() {
 				defer wg.Done()
-				for f := range l.incomingFileCh {
-					l.processFile(f)
+				for {
+					select {
+					case f, ok := <-l.incomingFileCh:
+						if !ok {
+							return
+						}
+						l.processFile(f)
+					case <-l.fetchCtx.Done():
+						return
+					}
 				}
 			}()
 		}
@@ -414,6 +467,13 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 		close(l.certWithChainChan)
 	}()
 
+	// Collect the errors of the stages before. The channel is buffered, not to block the collector.
+	collectedErr := make(chan error, 1)
+	go func() {
+		// Print errors and return error if there was any error printed:
+		collectedErr <- l.processErrorChannel()
+	}()
+
 	// Process the parsed content into the DB, and from DB into SMT:
 	go func() {
 		var currentSize int64 = 0
@@ -427,42 +487,43 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 				r.chains = append(r.chains, data.ChainPayloads)
 			}
 			if currentSize >= l.processBatchSize {
-				l.chanResults <- r
+				l.sendResult(r)
 				currentSize = 0
 				r = &result{}
 			}
 		}
 		if currentSize > 0 {
-			l.chanResults <- r
+			l.sendResult(r)
 			currentSize = 0
 			r = &result{}
 		}
-		close(l.chanResults)
-
 		// There is no more processing to do, close the errors channel and allow the
 		// error processor to finish.
 		close(l.errorCh)
-	}()
 
-	go func() {
-		// Print errors and return error if there was any error printed:
-		l.processErrorChannel()
+		// Not all certificates were processed if there was an error, report it.
+		if err := <-collectedErr; err != nil {
+			l.sendResult(&result{err: err})
+		}
+		close(l.chanResults)
 	}()
 }
 
 // processErrorChannel outputs the errors it encounters in the errors channel.
 // Returns with error if any is found, or nil if no error.
 func (p *LocalLogFetcher) processErrorChannel() error {
-	var errorsFound bool
+	var firstError error
 	for err := range p.errorCh {
 		if err == nil {
 			continue
 		}
-		errorsFound = true
+		if firstError == nil {
+			firstError = err
+		}
 		fmt.Fprintf(os.Stderr, "%s\n", err)
 	}
-	if errorsFound {
-		return fmt.Errorf("errors found while processing. See above")
+	if firstError != nil {
+		return fmt.Errorf("errors found while processing: %w", firstError)
 	}
 	return nil
 }
@@ -493,6 +554,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 			if err != nil {
 				return nil, err
 			}
+			if start < 0 || end < start {
+				return nil, fmt.Errorf("file %s has an invalid range", path)
+			}
 			return &CsvFileInfo{
 				path:      path,
 				isGzipped: isGzipped,
@@ -507,6 +571,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 // listFiles recursively finds all .csv and .gz files located in the given folder (or any subfolder)
 func listFiles(dir string) (gzFiles, csvFiles []*CsvFileInfo, err error) {
 	err = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
 		if !d.IsDir() {
 			gzFile, err := getFileInfo(path, d.Name(), true)
 			if err != nil {
-- 
2.43.0


From 2cc1219c594799dc0bea3259ac0e6da14765f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:08 +0000
Subject: [PATCH 16/60] fix: a chain certificate with non fatal parsing errors
 does not block its CT log forever

---
 pkg/mapserver/logfetcher/httplogfetcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index e626192..a346272 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -257,7 +257,7 @@ func (f *HttpLogFetcher) fetch() {
 			chainEntries[i] = make([]*ctx509.Certificate, len(raw.Chain))
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
-				if err != nil {
+				if ctx509.IsFatal(err) {
 					f.sendResult(&result{
 						err: err,
 					})
-- 
2.43.0


From 91d5507d7c1c2c41932b907c763626d99f50d325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 17/60] fix: the map server stops listening when its context is
 done

After a SIGTERM nothing stopped the HTTP listener, so the process always ended
with the panic of ContextWithCancelOnSignal. Shutdown returned before the
requests in progress were answered, and a failed listen left a routine behind
that swallowed the next shutdown request.
---
 pkg/mapserver/mapserver.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index 506734d..389c400 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -177,11 +177,25 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 	}
 	// chanErr will hold the error from the Listen call.
 	chanErr := make(chan error)
+	serveEnded := make(chan struct{})
+	shutdownEnded := make(chan struct{})
 	go func() {
-		// Spawn a goroutine to shutdown the HTTP server.
+		// Spawn a goroutine to shutdown the HTTP server, when requested or when ctx is done.
 		go func() {
-			<-s.apiStopServerChan
-			server.Shutdown(ctx)
+			defer close(shutdownEnded)
+			select {
+			case <-s.apiStopServerChan:
+			case <-ctx.Done():
+			case <-serveEnded:
+				return
+			}
+			// Allow the requests in progress to finish, but not forever. Don't use ctx for this,
+			// as it is possibly done.
+			shutdownCtx, cancelF := context.WithTimeout(context.Background(), s.WriteTimeout)
+			defer cancelF()
+			if err := server.Shutdown(shutdownCtx); err != nil {
+				server.Close()
+			}
 		}()
 		// This call blocks
 		fmt.Printf("Listening on %d\n", s.HttpAPIPort)
@@ -195,7 +209,11 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 	// If the error happened because we stopped the server, ignore it.
 	if err == http.ErrServerClosed {
 		err = nil
+	} else {
+		close(serveEnded)
 	}
+	// The server finishes as soon as the shutdown starts: wait for the requests in progress.
+	<-shutdownEnded
 
 	if err != nil {
 		return fmt.Errorf("error serving API: %w", err)
-- 
2.43.0


From 527b4c96462b7df3b673761b85493ddf07dccbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:43 +0000
Subject: [PATCH 18/60] fix: RunWhen does not run the function after its
 context is cancelled

---
 pkg/util/ticker.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/util/ticker.go b/pkg/util/ticker.go
index 1c5f4d4..c8154f8 100644
--- a/pkg/util/ticker.go
+++ b/pkg/util/ticker.go
@@ -20,9 +20,18 @@ func RunWhen(
 	go func() {
 		waiting := time.Until(when)
 		timer := time.NewTimer(waiting)
-		<-timer.C
+		select {
+		case <-timer.C:
+		case <-ctx.Done():
+			timer.Stop()
+			return
+		}
 		ticker := time.NewTicker(repeat)
 		for {
+			if ctx.Err() != nil {
+				ticker.Stop()
+				return
+			}
 			whenTick(ctx)
 			select {
 			case <-ticker.C:
-- 
2.43.0


From 2b316e0fc4c8ba109de4c61ee4288a8d5e249d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 19/60] fix: NextTimeOfDay is wrong when the local date is not
 the UTC date

---
 pkg/util/time_wrap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/util/time_wrap.go b/pkg/util/time_wrap.go
index 48e2ff4..4c5cfe3 100644
--- a/pkg/util/time_wrap.go
+++ b/pkg/util/time_wrap.go
@@ -89,7 +89,8 @@ func (t TimeOfDayWrap) String() string {
 // NextTimeOfDay returns the next possible time that keeps the same hour minute and second as this
 // TimeOfDayWrap. The returned time is never Before time.Now() and at most 1 day in the future.
 func (t TimeOfDayWrap) NextTimeOfDay() time.Time {
-	now := time.Now()
+	// The time of day is in UTC, and thus also the current date has to be.
+	now := time.Now().UTC()
 
 	// The actual time in the present or future?
 	if !t.Time.Before(now) {
-- 
2.43.0


From b542f372eb6c4c49976dccbd41c53b17da6a749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:57 +0000
Subject: [PATCH 20/60] fix: a map server response without domain entry is
 rejected instead of crashing the client

---
 pkg/mapserver/prover/prover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mapserver/prover/prover.go b/pkg/mapserver/prover/prover.go
index 44902f7..7694807 100644
--- a/pkg/mapserver/prover/prover.go
+++ b/pkg/mapserver/prover/prover.go
@@ -12,6 +12,9 @@ import (
 // VerifyProofByDomain verifies the MapServerResponse (received from map server),
 // and returns the type of proof, and proofing result.
 func VerifyProofByDomain(response *mapCommon.MapServerResponse) (mapCommon.ProofType, bool, error) {
+	if response == nil || response.DomainEntry == nil {
+		return 0, false, fmt.Errorf("malformed response without domain entry")
+	}
 	if response.PoI.ProofType == mapCommon.PoP {
 		if !bytes.Equal(response.DomainEntry.DomainValue[:], response.PoI.ProofValue) {
 			return 0, false, fmt.Errorf("different hash for value %s != %s",
-- 
2.43.0


From 522e833f0982584a8b0ae392b2884bf199297b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 21/60] fix: store the domains of a CA certificate first seen
 in a chain

---
 pkg/mapserver/updater/updater.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index d66e4d2..67b4515 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -383,6 +383,14 @@ func UpdateWithKeepExisting(
 		return err
 	}
 
+	// A CA certificate may be present in the DB only as part of the chain of another certificate, i.e.
+	// without its own domains. Process it again if it now comes with them.
+	for i, names := range domainNames {
+		if len(names) > 0 && (certs[i].IsCA || !certs[i].BasicConstraintsValid) {
+			maskCerts[i] = false
+		}
+	}
+
 	// For all those certificates not already present in the DB, prepare three slices: IDs,
 	// names, payloads, and parentIDs.
 	payloads := make([][]byte, 0, len(certs))
-- 
2.43.0


From 819c94d2a5e906eafdd3c7d85eaaa171f5bd1028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 22/60] fix: pruning removes the certificates from their
 domains as well

---
 tools/create_schema.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index 37fad87..db4a8e1 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -425,6 +425,10 @@ BEGIN
 	REPLACE INTO dirty(domain_id, coalesced)
 	SELECT DISTINCT domain_id, FALSE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
+	-- Remove the expired certificates from their domains. Otherwise they would come back to the domain
+	-- if they are stored again, just as part of the chain of another certificate.
+	DELETE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
+
 	-- Remove expired certificates
 	DELETE FROM certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
-- 
2.43.0


From 9da85e31514ba0f042d50e833669bc12451780c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 23/60] fix: do not answer queries with entries newer than the
 tree they are proven against

---
 pkg/mapserver/responder/responder.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index c55127f..c148a2d 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -1,6 +1,7 @@
 package responder
 
 import (
+	"bytes"
 	"context"
 	"crypto/rsa"
 	"fmt"
@@ -122,6 +123,10 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			v := common.SortIDsAndGlue(allIDs)
 			vID := common.SHA256Hash32Bytes(v)
 			de.DomainValue = vID
+			if !bytes.Equal(vID[:], proofValue) {
+				// The payloads in the DB are newer than the SMT: no client would accept them.
+				return nil, fmt.Errorf("the entry of %s is being updated", domainPart)
+			}
 
 			// TODO(juagargi) the sorting and concatenation should happen inside the DB.
 		}
-- 
2.43.0


From 050502500d92133c7b5687ba561e11b524357445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 24/60] fix: link a domain to all the certificates ingested for
 it

---
 pkg/mapserver/updater/certsWorker.go | 46 ++++++++++++++--------------
 pkg/mapserver/updater/manager.go     |  6 ++--
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 3a2024a..2f8bbab 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -75,23 +75,23 @@ func newCertBatcher(
 // domainExtractor receives one certificate and outputs to N domain batchers.
 type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
-	hasher        common.Hasher
-	domains       ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
-	domainIdCache cache.Cache            // Keep track of the already seen domains.
+	hasher      common.Hasher
+	domains     ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
+	certIdCache cache.Cache            // Keep track of the certificates whose domains were sent.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
-	domainIdCache cache.Cache,
+	certIdCache cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
-		hasher:        *common.NewHasher(),
-		domainIdCache: domainIdCache,
-		domains:       newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
+		hasher:      *common.NewHasher(),
+		certIdCache: certIdCache,
+		domains:     newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -101,24 +101,24 @@ func newDomainExtractor(
 		pip.WithProcessFunction(func(in Certificate) ([]DirtyDomain, []int, error) {
 			outChannels = outChannels[:0] // reuse index slice.
 			w.domains.rotate()
+			// The same domain appears in many certificates, and has to be linked to all of them.
+			// Only the domains of a certificate that was already seen can be skipped.
+			if len(in.Names) == 0 || w.certIdCache.Contains(&in.CertID) {
+				return nil, nil, nil
+			}
+			w.certIdCache.AddIDs(&in.CertID)
 			for _, name := range in.Names {
-				id := w.hasher.HashStringCopy(name)
-				if !w.domainIdCache.Contains(&id) {
-					// Add it to the cache.
-					w.domainIdCache.AddIDs(&id)
-
-					// Send it to next stages.
-					d := DirtyDomain{
-						DomainID: id,
-						CertID:   in.CertID,
-						Name:     name,
-					}
-					w.domains.addElem(d)
-					outChannels = append(
-						outChannels,
-						int(m.ShardFuncDomain(&d.DomainID)),
-					)
+				// Send it to next stages.
+				d := DirtyDomain{
+					DomainID: w.hasher.HashStringCopy(name),
+					CertID:   in.CertID,
+					Name:     name,
 				}
+				w.domains.addElem(d)
+				outChannels = append(
+					outChannels,
+					int(m.ShardFuncDomain(&d.DomainID)),
+				)
 			}
 			return w.domains.current(), outChannels, nil
 		}),
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 104f85e..a6babc9 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -12,7 +12,7 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
-const domainIdCacheSize = 10000
+const certIdCacheSize = 10000
 
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
@@ -145,12 +145,12 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
-	domainCache := cache.NewLruCache(domainIdCacheSize)
+	certCache := cache.NewLruCache(certIdCacheSize)
 
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
 	for i := range domainExtractors {
-		domainExtractors[i] = newDomainExtractor(i, m, workerCount, domainCache)
+		domainExtractors[i] = newDomainExtractor(i, m, workerCount, certCache)
 		domainExtractorStages[i] = domainExtractors[i].Stage
 	}
 
-- 
2.43.0


From 85e5ae928b5dacd4d75b3219537af96fd4d3d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 25/60] fix: ingest root certificates, which have an empty
 chain

---
 cmd/ingest/toChainWorker.go | 4 ++++
 pkg/util/certificate.go     | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 8d3b2ae..ce9fcee 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -166,7 +166,11 @@ func getExpiration(field []byte) (int64, error) {
 }
 
 // splitSemicolonField returns subslices for each semicolon-delimited chain payload.
+// The empty field is the empty chain, that of a root certificate.
 func splitSemicolonField(field []byte) [][]byte {
+	if len(field) == 0 {
+		return nil
+	}
 	// Keep subslices pointing into the original row buffer to avoid allocating per chain element.
 	count := 1
 	for _, b := range field {
diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 32e4c24..f98c3f8 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -142,8 +142,13 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	// Always add the leaf certificate.
 	certs = append(certs, *leafCert)
 	certIDs = append(certIDs, certID)
-	parentIDs = append(parentIDs, chainIDs[0])
 	names = append(names, ExtractCertDomains(leafCert))
+	if len(chainIDs) == 0 {
+		// No trust chain, this is a root certificate: it has no parent.
+		parentIDs = append(parentIDs, nil)
+		return
+	}
+	parentIDs = append(parentIDs, chainIDs[0])
 	// Add the intermediate certs iff their payload is not nil.
 	i := 0
 	for ; i < len(chain)-1; i++ {
-- 
2.43.0


From 46432eede8d6638aa23be80a034eed0e14c0b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 26/60] fix: use only existing workers when their number is not
 a power of two

---
 pkg/mapserver/updater/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index a6babc9..3492807 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -45,8 +45,9 @@ func NewManager(
 	// Compute how many bits we need to cover N partitions (i.e. log2(N).
 	nBits := int(util.Log2(uint(workerCount)))
 
+	// With N not a power of two, the partition is wrapped around, as there are only N workers.
 	selectPartition := func(id *common.SHA256Output) uint {
-		return mysql.PartitionByIdMSB(id, nBits)
+		return mysql.PartitionByIdMSB(id, nBits) % uint(workerCount)
 	}
 
 	// Create the Manager structure.
-- 
2.43.0


From 6c9bbaa012df7a52f7c105c5797481bbc3f14a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 27/60] fix: report the errors found while streaming the output
 of a stage

---
 pkg/pipeline/stage.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 1cdb6f6..e041270 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -504,6 +504,13 @@ readIncoming:
 					break
 				}
 				err = s.streamFunc(&outs, &outChIndxs)
+				switch err {
+				case nil, StreamOutput, NoMoreData: // The stream continues, or it just stopped.
+				default:
+					// Streaming failed, break immediately.
+					foundError = err
+					break readIncoming
+				}
 			}
 		} // end of select
 	} // end of for-loop readIncoming
-- 
2.43.0


From 1547ace4847a62293f7589c56b43a1b9affe6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:49 +0000
Subject: [PATCH 28/60] fix: keep the error of a next stage when another one
 finishes without any

---
 pkg/pipeline/stage.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index e041270..aa25bef 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -549,7 +549,7 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 			DebugPrintf("[%s] ERROR while sending at channel %d the value %v, error: %v\n",
 				s.Name, outChIndex, out, err)
 			// We received an error from next stage while trying to write to it.
-			*foundError = err
+			*foundError = keepError(*foundError, err)
 			*shouldBreakReadingIncoming = true
 			failedIndices = append(failedIndices, i)
 		case <-s.StopCh:
@@ -603,7 +603,7 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 					s.Name, outChIndex, out, err)
 				// We received an error from next stage while trying to write to it.
 				muShouldBreakReadingIncoming.Lock()
-				*foundError = err
+				*foundError = keepError(*foundError, err)
 				*shouldBreakReadingIncoming = true
 				failedIndices = append(failedIndices, i)
 				muShouldBreakReadingIncoming.Unlock()
@@ -663,7 +663,7 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 						s.Name, outChIndex, out, err)
 				}
 				// We received an error from next stage while trying to write to it.
-				*foundError = err
+				*foundError = keepError(*foundError, err)
 				shouldStopSending = true
 				failedIndices = append(failedIndices, i)
 				break eachOutput
@@ -693,6 +693,18 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 	return failedIndices
 }
 
+// keepError adds the possibly nil error err to those already found. Reading from the error channel
+// of a next stage that has already finished yields nil, which must not hide a previous error.
+func keepError(found, err error) error {
+	if err == nil {
+		return found
+	}
+	if found == nil {
+		return err
+	}
+	return util.ErrorsCoalesce(found, err)
+}
+
 func (s *Stage[IN, OUT]) aggregateNextErrChannels() chan error {
 	if len(s.NextErrChs) == 1 {
 		DebugPrintf("[%s] aggregated next error channel is first next error channel: %s\n",
-- 
2.43.0


From 9b5d22868e1c78599e20c67f4fd8dc3244f6e826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:25 +0000
Subject: [PATCH 29/60] fix: a failing stage stops all the stages of the
 pipeline

---
 pkg/pipeline/pipeline.go |  4 ++--
 pkg/pipeline/source.go   |  6 ++++++
 pkg/pipeline/stage.go    | 35 ++++++++++++++++++++++++-----------
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index a436a26..f9f1876 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -33,8 +33,8 @@ import (
 // 5. If the error originated in this stage:
 // 5.1. This stage must stop processing data and writing to the outgoing channel.
 // 5.2. This stage closes the outgoing channel.
-// 5.3. This stage waits for the error signal from the next stage. It can aggregate it to its own.
-// 5.4. This stage sends the (maybe aggregated) error to the previous stage.
+// 5.3. This stage sends the error to the previous stage, and discards any further incoming data.
+// 5.4. This stage waits for the next stage to finish. If there is an error, it sends it as well.
 // 5.5. This stage closes the error channel.
 // 5.6. This stage finishes all routines.
 //
diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index 5db963a..07adde6 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -2,6 +2,8 @@ package pipeline
 
 import (
 	"context"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 type SourceLike interface {
@@ -176,6 +178,10 @@ func (s *Source[OUT]) Prepare(ctx context.Context) {
 				// Close incoming.
 				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(s.IncomingChs[0]))
 				close(s.IncomingChs[0])
+				// The pipeline is finished only when the error channel is closed.
+				for nextErr := range errCh {
+					err = util.ErrorsCoalesce(err, nextErr)
+				}
 				if err != nil {
 					s.TopErrCh <- err // might block, but this goroutine is done anyways.
 				}
diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index aa25bef..6f637cc 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -360,22 +360,35 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		s.closeOutChannel(i)
 	}
 
-	// Read its status:
-	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	err := <-s.NextStagesAggregatedErrCh
-	DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+	if initialErr != nil {
+		// Until all the previous stages know about this error, they will still send data.
+		// Discard it, as otherwise they would remain blocked sending.
+		go func(incomingCh chan IN) {
+			for range incomingCh {
+			}
+		}(s.AggregatedIncomeCh)
 
-	// Coalesce with any error at this stage.
-	initialErr = util.ErrorsCoalesce(initialErr, err)
+		// Propagate error backwards. Do it before waiting for the next stages: those with several
+		// inputs finish only after all of their previous stages do so.
+		DebugPrintf("[%s] propagating error backwards on channel %s\n", s.Name, chanPtr(s.ErrCh))
+		s.ErrCh <- initialErr
+	}
 
-	// Propagate error backwards.
-	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
-		s.Name, chanPtr(s.ErrCh))
-	if initialErr != nil {
+	// Wait for all the next stages to finish: each one of them could have found an error.
+	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
+	var nextErr error
+	for err := range s.NextStagesAggregatedErrCh {
+		DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+		nextErr = keepError(nextErr, err)
+	}
+	if nextErr != nil {
 		// Propagate error backwards.
-		s.ErrCh <- initialErr
+		s.ErrCh <- nextErr
 	}
 
+	// Coalesce with any error at this stage.
+	initialErr = util.ErrorsCoalesce(initialErr, nextErr)
+
 	// Close our own error channel.
 	DebugPrintf("[%s] closed main error channel %s\n", s.Name, chanPtr(s.ErrCh))
 	close(s.ErrCh)
-- 
2.43.0


From 15968c40aadfea3419101529edb7baa555c49216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:48 +0000
Subject: [PATCH 30/60] fix: store the names that contain CSV delimiters as
 they are

---
 pkg/db/mysql/mysql.go        |  3 ++-
 pkg/mapserver/updater/csv.go | 10 +++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 27f3183..51529f4 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -122,7 +122,8 @@ func (c *mysqlDB) updateDomainsCSV(
 	for i := 0; i < len(ids); i++ {
 		records[i] = make([]string, 2)
 		records[i][0] = base64.StdEncoding.EncodeToString(ids[i][:])
-		records[i][1] = domainNames[i]
+		// The backslash is the escape character of the DB when loading the file.
+		records[i][1] = strings.ReplaceAll(domainNames[i], `\`, `\\`)
 	}
 
 	// Create temporary file.
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..ad19e97 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -248,7 +248,15 @@ func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = t.AppendFormat(*storage, time.DateTime)
 }
 
+// stringToStorage writes the string such that loading the CSV file yields the same string, by
+// escaping those characters that would otherwise delimit fields or lines.
 func stringToStorage(storage *[]byte, s string) {
 	*storage = (*storage)[:0]
-	*storage = append(*storage, []byte(s)...)
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '\\', '"', ',', '\n':
+			*storage = append(*storage, '\\')
+		}
+		*storage = append(*storage, s[i])
+	}
 }
-- 
2.43.0


From 98f0542c43e44fd7a30db2e59b15b0247cfccf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:06 +0000
Subject: [PATCH 31/60] fix: ingest the leaves that were seen before as parents

---
 cmd/ingest/toChainPtrWorker.go | 7 ++-----
 cmd/ingest/toChainWorker.go    | 8 ++------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/cmd/ingest/toChainPtrWorker.go b/cmd/ingest/toChainPtrWorker.go
index 3b77e84..511750e 100644
--- a/cmd/ingest/toChainPtrWorker.go
+++ b/cmd/ingest/toChainPtrWorker.go
@@ -68,12 +68,9 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 	p.Manager.Stats.ReadCerts.Add(1)
 	p.Manager.Stats.UncachedCerts.Add(1)
 
-	// Get the leaf certificate ID.
+	// Get the leaf certificate ID. The cache contains only parents, that are emitted without their
+	// names: a leaf is always processed, even if it was seen as the parent of another certificate.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so skip duplicate work and output.
-		return nil, nil
-	}
 	cert, err := ctx509.ParseCertificate(rawBytes)
 	if err != nil {
 		return nil, err
diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index ce9fcee..07e3022 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -92,13 +92,9 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 	// Update bytes read.
 	p.Manager.Stats.ReadBytes.Add(int64(len(rawBytes)))
 
-	// Get the leaf certificate ID.
+	// Get the leaf certificate ID. The cache contains only parents, that are emitted without their
+	// names: a leaf is always processed, even if it was seen as the parent of another certificate.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so avoid reparsing and reinserting it.
-		return nil, nil
-	}
-
 	p.Manager.Stats.UncachedCerts.Add(1)
 
 	cert, err := ctx509.ParseCertificate(rawBytes)
-- 
2.43.0


From bb7e312d066f07bddcd1448b28de6ab539aa9aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 32/60] fix: reading a file does not close the channels of the
 next one

---
 cmd/ingest/csvSplitWorker.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/ingest/csvSplitWorker.go b/cmd/ingest/csvSplitWorker.go
index 4dd0e3c..6f2d7fe 100644
--- a/cmd/ingest/csvSplitWorker.go
+++ b/cmd/ingest/csvSplitWorker.go
@@ -87,8 +87,12 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 	}
 
 	r := bufio.NewReader(fileReader)
-	w.lines = make(chan line, cap(w.lines))
-	w.done = make(chan error, 1)
+	// The goroutine below works only with the channels of this file: as soon as it signals that it
+	// is done, the next file will create new ones.
+	lines := make(chan line, cap(w.lines))
+	done := make(chan error, 1)
+	w.lines = lines
+	w.done = done
 	go func() {
 		var finalErr error
 		for lineNo := 1; ; lineNo++ {
@@ -122,7 +126,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 					break
 				}
 				// Forward only the compact, ingest-relevant fields to the next stage.
-				w.lines <- line{
+				lines <- line{
 					certField:       parsed.CertField,
 					chainField:      parsed.ChainField,
 					expirationField: parsed.ExpirationField,
@@ -134,7 +138,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				break
 			}
 		}
-		close(w.lines)
+		close(lines)
 		if err := f.Close(); err != nil {
 			if finalErr != nil {
 				finalErr = errors.Join(finalErr, err)
@@ -142,8 +146,8 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				finalErr = err
 			}
 		}
-		w.done <- finalErr
-		close(w.done)
+		done <- finalErr
+		close(done)
 	}()
 
 	return nil
-- 
2.43.0


From 426742d12645f595325ec73aa1358b75e61748c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:32 +0000
Subject: [PATCH 33/60] fix: ingest certificates that have only non fatal
 errors

---
 cmd/ingest/toChainPtrWorker.go | 5 +++--
 cmd/ingest/toChainWorker.go    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/cmd/ingest/toChainPtrWorker.go b/cmd/ingest/toChainPtrWorker.go
index 511750e..b6e35bf 100644
--- a/cmd/ingest/toChainPtrWorker.go
+++ b/cmd/ingest/toChainPtrWorker.go
@@ -71,8 +71,9 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 	// Get the leaf certificate ID. The cache contains only parents, that are emitted without their
 	// names: a leaf is always processed, even if it was seen as the parent of another certificate.
 	certID := common.SHA256Hash32Bytes(rawBytes)
+	// CT logs accept certificates with non fatal errors.
 	cert, err := ctx509.ParseCertificate(rawBytes)
-	if err != nil {
+	if ctx509.IsFatal(err) {
 		return nil, err
 	}
 
@@ -100,7 +101,7 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 		if !w.cache.Contains(&id) {
 			// Keep only the parent payloads that have not already been observed by this worker.
 			chain[i], err = ctx509.ParseCertificate(rawBytes)
-			if err != nil {
+			if ctx509.IsFatal(err) {
 				return nil, fmt.Errorf("at line %d: %s\n%s",
 					line.number, err, string(line.chainField))
 			}
diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 07e3022..d84bdc5 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -97,8 +97,9 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 	certID := common.SHA256Hash32Bytes(rawBytes)
 	p.Manager.Stats.UncachedCerts.Add(1)
 
+	// CT logs accept certificates with non fatal errors.
 	cert, err := ctx509.ParseCertificate(rawBytes)
-	if err != nil {
+	if ctx509.IsFatal(err) {
 		return nil, err
 	}
 
@@ -127,7 +128,7 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 		if !w.cache.Contains(&id) {
 			// Only parse and keep parent payloads that still need to be unfolded into DB rows.
 			chain[i], err = ctx509.ParseCertificate(rawBytes)
-			if err != nil {
+			if ctx509.IsFatal(err) {
 				return nil, fmt.Errorf("at line %d: %s\n%s",
 					line.number, err, string(line.chainField))
 			}
-- 
2.43.0


From af13d3a097e3d197c8607a0dc6bd842559eeb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 34/60] fix: list the bundles of a directory with several
 subdirectories

The list of the files of "bundled" replaced the files that were found in the
subdirectories listed before it: they were never ingested.
---
 cmd/ingest/journal/list_files.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index a87da22..1673069 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -22,14 +22,17 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
 			d := filepath.Join(dir, e.Name())
-			gzFiles, err = filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := filepath.Glob(fmt.Sprintf("%s/*.gz", d))
 			if err != nil {
 				return nil, nil, err
 			}
-			csvFiles, err = filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
 			if err != nil {
 				return nil, nil, err
 			}
+			// Keep the files found in the siblings of this directory.
+			gzFiles = append(gzFiles, gzs...)
+			csvFiles = append(csvFiles, csvs...)
 		} else {
 			gzs, csvs, err := ListCsvFiles(filepath.Join(dir, e.Name()))
 			if err != nil {
-- 
2.43.0


From 095c32c46970c187668dc0d06c36657198e5bc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 35/60] fix: do not record a CT log size that includes entries
 never ingested

If the first entries of the log were not ingested, the size of the ingested set
is zero and not the end of the first interval.
---
 cmd/ingest/run.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..51764c3 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,10 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("the first completed interval %s of ingest directory %q does not start at 0",
+			intervals[0], ingestDirBase)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From 2da381123b59b9e5927eb0aca8fe94ae60685e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 36/60] fix: publish what a previous run ingested without
 publishing it

The default strategy did nothing and ended successfully if all files had been
ingested before, even if the ingested certificates were never coalesced nor
added to the tree.
---
 cmd/ingest/run.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 51764c3..d41d576 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -156,7 +156,23 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 		defer stats.Stop()
 	}
 
-	return ingestFilesInBatches(
+	// publish runs the follow-up phases and commits the progress of the journal.
+	publish := func(files []string) error {
+		if jobCfg.Coalesce {
+			if err := coalesce(); err != nil {
+				return err
+			}
+		}
+		if jobCfg.UpdateSMT {
+			if err := updateSMT(); err != nil {
+				return err
+			}
+		}
+		return j.CommitProgress(files, jobCfg.Coalesce, jobCfg.UpdateSMT)
+	}
+
+	published := false
+	if err := ingestFilesInBatches(
 		ctx,
 		j,
 		stats,
@@ -167,19 +183,18 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 			if err := deps.RunBatch(stats, files); err != nil {
 				return err
 			}
-			if jobCfg.Coalesce {
-				if err := coalesce(); err != nil {
-					return err
-				}
-			}
-			if jobCfg.UpdateSMT {
-				if err := updateSMT(); err != nil {
-					return err
-				}
-			}
-			return j.CommitProgress(files, jobCfg.Coalesce, jobCfg.UpdateSMT)
+			published = true
+			return publish(files)
 		},
-	)
+	); err != nil {
+		return err
+	}
+	// The files could have been ingested by a previous run that did not publish them.
+	job := j.Jobs[len(j.Jobs)-1]
+	if !published && jobCfg.UpdateSMT && !job.UpdatedSMT && len(job.CompletedIndices) > 0 {
+		return publish(nil)
+	}
+	return nil
 }
 
 func ingestFilesInBatches(
-- 
2.43.0


From 75ca8cdb7a870d3a8a2e3a9f203f5cb3960a05de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 37/60] fix: report the directories that cannot be read when
 listing bundles

filepath.Glob ignores the errors reading a directory: the command ended
successfully without having ingested the files in it.
---
 cmd/ingest/journal/list_files.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index 1673069..96f6c6b 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -1,7 +1,6 @@
 package journal
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
 
@@ -21,12 +20,11 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 		}
 		if e.Name() == "bundled" {
 			// Use all *.gz in this directory.
-			d := filepath.Join(dir, e.Name())
-			gzs, err := filepath.Glob(fmt.Sprintf("%s/*.gz", d))
+			gzs, err := listFilesWithExt(filepath.Join(dir, e.Name()), ".gz")
 			if err != nil {
 				return nil, nil, err
 			}
-			csvs, err := filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			csvs, err := listFilesWithExt(dir, ".csv")
 			if err != nil {
 				return nil, nil, err
 			}
@@ -49,3 +47,19 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 
 	return
 }
+
+// listFilesWithExt returns the files of a directory with that extension. Unlike filepath.Glob, it
+// fails if the directory cannot be read.
+func listFilesWithExt(dir, ext string) ([]string, error) {
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+	var files []string
+	for _, e := range entries {
+		if filepath.Ext(e.Name()) == ext {
+			files = append(files, filepath.Join(dir, e.Name()))
+		}
+	}
+	return files, nil
+}
-- 
2.43.0


From 161b3d6e8024cc5a08dca3d804da29c9e1664360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 38/60] fix: store all the issuers of a chain that shares some
 with a stored one

The issuers of an already stored certificate were assumed to be stored as well,
but it may have been stored as part of a different chain.
---
 pkg/util/certificate.go | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index f98c3f8..f6881b6 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -123,8 +123,8 @@ func UnfoldCerts(leafCerts []ctx509.Certificate, chains [][]*ctx509.Certificate,
 // UnfoldCert takes a certificate with its trust chain and returns a ready-to-insert-in-DB
 // collection of IDs and payloads for the certificate and its ancestry.
 // Additionally, if the payload of any of the ancestors of the certificate is nil, this function
-// interprets it as the ancestor is already present in the DB, and thus will omit returning it
-// and any posterior ancestors.
+// interprets it as the ancestor is already present in the DB, and thus will omit returning it.
+// Its own ancestors in this chain are still returned, as it could have been inserted with others.
 func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	chain []*ctx509.Certificate, chainIDs []*common.SHA256Output,
 ) (
@@ -149,25 +149,20 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 		return
 	}
 	parentIDs = append(parentIDs, chainIDs[0])
-	// Add the intermediate certs iff their payload is not nil.
-	i := 0
-	for ; i < len(chain)-1; i++ {
+	// Add the ancestors iff their payload is not nil. A nil one has been inserted already in DB, but
+	// maybe with a different chain: its parent in this one could still be missing.
+	for i := range chain {
 		if chain[i] == nil {
-			// This parent has been inserted already in DB. This implies that its own parent,
-			// the grandparent of the leaf, must have been inserted as well; and so on.
-			// There are no more parents to insert.
-			return
+			continue
 		}
 		certs = append(certs, *chain[i])
 		certIDs = append(certIDs, *chainIDs[i])
-		parentIDs = append(parentIDs, chainIDs[i+1])
-		names = append(names, nil)
-	}
-	// Add the root certificate (no parent) iff we haven't inserted it yet.
-	if chain[i] != nil {
-		certs = append(certs, *chain[i])
-		certIDs = append(certIDs, *chainIDs[i])
-		parentIDs = append(parentIDs, nil)
+		if i < len(chain)-1 {
+			parentIDs = append(parentIDs, chainIDs[i+1])
+		} else {
+			// The root certificate has no parent.
+			parentIDs = append(parentIDs, nil)
+		}
 		names = append(names, nil)
 	}
 	return
-- 
2.43.0


From 56720ab7d831fb8f249ae5932aaf0369cc93efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 39/60] fix: the manager links a domain to all its certificates
 only when ingesting

The previous fix changed it for every user of the manager.
---
 cmd/ingest/processor.go              |  1 +
 pkg/mapserver/updater/certsWorker.go | 36 ++++++++++++++++++----------
 pkg/mapserver/updater/manager.go     | 24 ++++++++++++++++---
 3 files changed, 45 insertions(+), 16 deletions(-)

diff --git a/cmd/ingest/processor.go b/cmd/ingest/processor.go
index 40b80da..e8b6367 100644
--- a/cmd/ingest/processor.go
+++ b/cmd/ingest/processor.go
@@ -66,6 +66,7 @@ func NewProcessor(
 		conn,
 		multiInsertSize,
 		stats,
+		updater.WithAllCertificatesLinked(),
 	)
 	if err != nil {
 		return nil, err
diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 2f8bbab..93c7ea9 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -75,23 +75,23 @@ func newCertBatcher(
 // domainExtractor receives one certificate and outputs to N domain batchers.
 type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
-	hasher      common.Hasher
-	domains     ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
-	certIdCache cache.Cache            // Keep track of the certificates whose domains were sent.
+	hasher    common.Hasher
+	domains   ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
+	seenCache cache.Cache            // Keep track of the already seen domains or certificates.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
-	certIdCache cache.Cache,
+	seenCache cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
-		hasher:      *common.NewHasher(),
-		certIdCache: certIdCache,
-		domains:     newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
+		hasher:    *common.NewHasher(),
+		seenCache: seenCache,
+		domains:   newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -101,16 +101,26 @@ func newDomainExtractor(
 		pip.WithProcessFunction(func(in Certificate) ([]DirtyDomain, []int, error) {
 			outChannels = outChannels[:0] // reuse index slice.
 			w.domains.rotate()
-			// The same domain appears in many certificates, and has to be linked to all of them.
-			// Only the domains of a certificate that was already seen can be skipped.
-			if len(in.Names) == 0 || w.certIdCache.Contains(&in.CertID) {
-				return nil, nil, nil
+			if m.linkAllCerts && len(in.Names) > 0 {
+				// Only the domains of a certificate that was already seen can be skipped.
+				if w.seenCache.Contains(&in.CertID) {
+					return nil, nil, nil
+				}
+				w.seenCache.AddIDs(&in.CertID)
 			}
-			w.certIdCache.AddIDs(&in.CertID)
 			for _, name := range in.Names {
+				id := w.hasher.HashStringCopy(name)
+				if !m.linkAllCerts {
+					if w.seenCache.Contains(&id) {
+						continue
+					}
+					// Add it to the cache.
+					w.seenCache.AddIDs(&id)
+				}
+
 				// Send it to next stages.
 				d := DirtyDomain{
-					DomainID: w.hasher.HashStringCopy(name),
+					DomainID: id,
 					CertID:   in.CertID,
 					Name:     name,
 				}
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 3492807..b2bc544 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -12,7 +12,7 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
-const certIdCacheSize = 10000
+const seenCacheSize = 10000
 
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
@@ -29,6 +29,19 @@ type Manager struct {
 	IncomingCertChan    chan Certificate  // Certificates arrive from this channel.
 	IncomingCertPtrChan chan *Certificate // Only one of the incoming channels is enabled.
 	Pipeline            *pip.Pipeline
+
+	linkAllCerts bool // link a domain to all its certificates, not only to the first one.
+}
+
+// ManagerOption modifies the default behavior of the manager.
+type ManagerOption func(*Manager)
+
+// WithAllCertificatesLinked makes the manager link each domain with all the certificates that
+// contain it. Without it, a domain is linked only with the first certificate processed for it.
+func WithAllCertificatesLinked() ManagerOption {
+	return func(m *Manager) {
+		m.linkAllCerts = true
+	}
 }
 
 // NewManager creates a new manager and its workers.
@@ -41,6 +54,7 @@ func NewManager(
 	conn db.Conn,
 	multiInsertSize int,
 	stats *statistics.Stats,
+	options ...ManagerOption,
 ) (*Manager, error) {
 	// Compute how many bits we need to cover N partitions (i.e. log2(N).
 	nBits := int(util.Log2(uint(workerCount)))
@@ -61,6 +75,10 @@ func NewManager(
 		// IncomingCertPtrChan: make(chan *Certificate),
 	}
 
+	for _, opt := range options {
+		opt(m)
+	}
+
 	// Create the pipeline and return the manager with the pipeline, and the error.
 	return m, m.createPipeline(workerCount)
 }
@@ -146,12 +164,12 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
-	certCache := cache.NewLruCache(certIdCacheSize)
+	seenCache := cache.NewLruCache(seenCacheSize)
 
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
 	for i := range domainExtractors {
-		domainExtractors[i] = newDomainExtractor(i, m, workerCount, certCache)
+		domainExtractors[i] = newDomainExtractor(i, m, workerCount, seenCache)
 		domainExtractorStages[i] = domainExtractors[i].Stage
 	}
 
-- 
2.43.0


From fe6998a33d1080f1d7202c6121f464582c86059b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 40/60] fix: AddLeaves reports a failed leaf when none failed

The list of failed leaves started with an empty leaf, so that it was always one longer than the list
of errors, and QueueRPCs reported a leaf that it was never given.
---
 pkg/policylog/client/concurrentfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 3f7dfb2..44a3d1d 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -97,7 +97,7 @@ func (c *LogClient) AddLeaves(ctx context.Context, data [][]byte) *addLeavesResu
 	// init result
 	result := &addLeavesResult{
 		Errs:         []error{},
-		FailedLeaves: [][]byte{{}},
+		FailedLeaves: [][]byte{},
 	}
 
 	// channels to workers
-- 
2.43.0


From 11911ab171c8fe07cb6ecccd5e1219e2a31bebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 41/60] fix: AddLeaves and FetchInclusions panic without leaves

QueueRPCs with an empty exchange folder ended the process.
---
 pkg/policylog/client/concurrentfunc.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 44a3d1d..543d3f8 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -100,6 +100,11 @@ func (c *LogClient) AddLeaves(ctx context.Context, data [][]byte) *addLeavesResu
 		FailedLeaves: [][]byte{},
 	}
 
+	// without leaves there is nothing to distribute
+	if len(data) == 0 {
+		return result
+	}
+
 	// channels to workers
 	workChan := make(chan string)
 
@@ -249,6 +254,11 @@ func (c *LogClient) FetchInclusions(ctx context.Context, leavesData [][]byte) *f
 	fetchInclusionResult := new(fetchInclusionResult)
 	fetchInclusionResult.PoIs = make(map[string]*PoIAndSTH)
 
+	// without leaves there is nothing to distribute
+	if len(leavesData) == 0 {
+		return fetchInclusionResult
+	}
+
 	workChan := make(chan string)
 	resultChan := make(chan fetchInclusionResultFromWorker)
 
-- 
2.43.0


From 0b6ff56432638babfdeafe2177a3899d7cfe453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:00 +0000
Subject: [PATCH 42/60] fix: FetchInclusions asks forever when the log returns
 no proof

An answer without proofs was neither an error nor a result: the worker sent the request again at once,
forever. Report the leaf as failed.
---
 pkg/policylog/client/concurrentfunc.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 543d3f8..d156e96 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	base64 "encoding/base64"
+	"fmt"
 	"time"
 
 	"github.com/google/trillian"
@@ -220,9 +221,13 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 				workerResult.err = err
 				resultChan <- *workerResult
 				break workerQueryLoop
-
-				// normally, proof will > 0, except for when there is only one leaf in the log; ignore this situation
-			} else if len(resp.Proof) > 0 {
+			} else if len(resp.GetProof()) == 0 {
+				// the log answers NotFound when it has no proof; do not ask again and again without a pause
+				workerResult.failedLeafData = []byte(leafData)
+				workerResult.err = fmt.Errorf("the log returned no proof for leaf %s", leafName)
+				resultChan <- *workerResult
+				break workerQueryLoop
+			} else {
 				// init poiAndSTH
 				poiAndSTH := new(PoIAndSTH)
 				// when query succeeds
-- 
2.43.0


From 8c1f7e78213fad41e2d4598b9cd5be3f6aad645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 43/60] fix: FetchInclusions returns proofs with a tree head
 they do not verify against

The proofs are for the tree size of the last UpdateTreeSize, but the log root in the response of the
log is its latest one. When the log grew in between, because of another client or of leaves that were
integrated later, the tree head did not match the proof. Return the tree head the proof was requested
for.
---
 pkg/policylog/client/concurrentfunc.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index d156e96..217ba56 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -170,7 +170,7 @@ send_receive_loop:
 
 // func for a worker to fetch the inclusion
 func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClient, workChan <-chan string,
-	resultChan chan<- fetchInclusionResultFromWorker, treeId int64, treeSize int64) {
+	resultChan chan<- fetchInclusionResultFromWorker, treeId int64, treeSize int64, sth types.LogRootV1) {
 	for {
 		// receive data from channel
 		leafData, ok := <-workChan
@@ -233,13 +233,9 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 				// when query succeeds
 				poiAndSTH.PoIs = resp.Proof
 
-				// marshall the log root (Signed Tree Head)
-				if err := poiAndSTH.STH.UnmarshalBinary(resp.SignedLogRoot.LogRoot); err != nil {
-					workerResult.err = err
-					workerResult.failedLeafData = []byte(leafData)
-					resultChan <- *workerResult
-					break workerQueryLoop
-				}
+				// the proof is for the tree of the requested size; the log root in the response is that of the
+				// latest tree, which may have grown in the meantime
+				poiAndSTH.STH = sth
 
 				workerResult.PoI = poiAndSTH
 				workerResult.err = nil
@@ -267,8 +263,16 @@ func (c *LogClient) FetchInclusions(ctx context.Context, leavesData [][]byte) *f
 	workChan := make(chan string)
 	resultChan := make(chan fetchInclusionResultFromWorker)
 
+	// the tree head that the proofs are for
+	sth := types.LogRootV1{}
+	c.logRootLock.Lock()
+	if c.logRoot != nil {
+		sth = *c.logRoot
+	}
+	c.logRootLock.Unlock()
+
 	for i := 0; i < len(c.worker); i++ {
-		go worker_fetchInclusion(ctx, c.worker[i], workChan, resultChan, c.treeId, c.currentTreeSize)
+		go worker_fetchInclusion(ctx, c.worker[i], workChan, resultChan, c.treeId, int64(sth.TreeSize), sth)
 	}
 
 	dataSize := len(leavesData)
-- 
2.43.0


From 3344bf9ba16df908456708f19961eee5031f485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:01 +0000
Subject: [PATCH 44/60] fix: an incomplete answer of the policy log ends the
 client

A log replica that lags behind answers a request for a consistency proof with its own root and no
proof, which the client dereferenced; likewise an answer without a signed log root.
---
 pkg/policylog/client/logclient.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 94a6fe2..bea32a1 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -106,7 +106,7 @@ func (c *LogClient) GetCurrentLogRoot(ctx context.Context) (*types.LogRootV1, er
 	}
 
 	var root types.LogRootV1
-	if err := root.UnmarshalBinary(logRootResp.SignedLogRoot.LogRoot); err != nil {
+	if err := root.UnmarshalBinary(logRootResp.GetSignedLogRoot().GetLogRoot()); err != nil {
 		return nil, fmt.Errorf("GetCurrentLogRoot | UnmarshalBinary: %w", err)
 	}
 	return &root, nil
@@ -137,6 +137,12 @@ func (c *LogClient) GetConsistencyProof(ctx context.Context, trusted *types.LogR
 		return nil, fmt.Errorf("GetConsistencyProof | %w", err)
 	}
 
+	// the log leaves out the proof if it does not know the newer tree (yet)
+	if resp.GetProof() == nil {
+		return nil, fmt.Errorf("GetConsistencyProof | the log returned no proof between tree sizes %d and %d",
+			trusted.TreeSize, newRoot.TreeSize)
+	}
+
 	return resp.Proof.Hashes, nil
 }
 
-- 
2.43.0


From be5d7949a9cf8a1aa306194549351c6f63db2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 45/60] fix: QueueRPCs loses documents that the log does not
 accept

The files in the exchange folder were deleted while they were read. When a later file could not be
parsed, the log did not accept the leaf, or the process ended before that, the document was gone. Delete
the files only of leaves that the log accepted, and report why the others were not.
---
 pkg/policylog/client/logclient.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index bea32a1..0947c2d 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -157,7 +157,7 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	queueRPCResult := &QueueRPCResult{}
 
 	// read RPC from files
-	data, err := c.readRPCFromFileToBytes()
+	data, filePaths, err := c.readRPCFromFileToBytes()
 	if err != nil {
 		return nil, fmt.Errorf("QueueRPCs | readRPCFromFileToBytes: %w", err)
 	}
@@ -172,6 +172,18 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	// process the errors from AddLeaves()
 	queueRPCResult.NumOfSucceedAddedLeaves = leafNum - len(addLeavesErrors.Errs)
 	queueRPCResult.FailToAddLeaves = addLeavesErrors.FailedLeaves
+	queueRPCResult.AddLeavesErrs = addLeavesErrors.Errs
+
+	// delete the rpcs that the log accepted; the others stay in the folder and are queued again by the next call
+	failed := make(map[string]struct{})
+	for _, leaf := range addLeavesErrors.FailedLeaves {
+		failed[string(leaf)] = struct{}{}
+	}
+	for i, leaf := range data {
+		if _, ok := failed[string(leaf)]; !ok {
+			os.Remove(filePaths[i])
+		}
+	}
 
 	// calculate time
 	elapsed := time.Since(start)
@@ -212,13 +224,14 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	return queueRPCResult, nil
 }
 
-// file -> RPC -> bytes
-func (c *LogClient) readRPCFromFileToBytes() ([][]byte, error) {
+// file -> RPC -> bytes; returns the leaves and the paths of their files
+func (c *LogClient) readRPCFromFileToBytes() ([][]byte, []string, error) {
 	data := [][]byte{}
+	filePaths := []string{}
 
 	fileNames, err := ioutil.ReadDir(c.config.PolicyLogExchangePath + "/rpc")
 	if err != nil {
-		return nil, fmt.Errorf("readRPCFromFileToBytes | ReadDir | %w", err)
+		return nil, nil, fmt.Errorf("readRPCFromFileToBytes | ReadDir | %w", err)
 	}
 
 	// read SPT from "fileTransfer" folder
@@ -228,21 +241,19 @@ func (c *LogClient) readRPCFromFileToBytes() ([][]byte, error) {
 		// read RPC from file
 		rpc, err := common.JsonFileToPolicyCert(filaPath)
 		if err != nil {
-			return nil, fmt.Errorf("readRPCFromFileToBytes | JsonFileToRPC %w", err)
+			return nil, nil, fmt.Errorf("readRPCFromFileToBytes | JsonFileToRPC %w", err)
 		}
 
 		// serialize rpc
 		bytes, err := common.ToJSON(rpc)
 		if err != nil {
-			return nil, fmt.Errorf("readRPCFromFileToBytes | ToJSON: %w", err)
+			return nil, nil, fmt.Errorf("readRPCFromFileToBytes | ToJSON: %w", err)
 		}
 
 		data = append(data, bytes)
-
-		// delete rpc
-		os.Remove(filaPath)
+		filePaths = append(filePaths, filaPath)
 	}
-	return data, nil
+	return data, filePaths, nil
 }
 
 // BuildLeaf runs the leaf hasher over data and builds a leaf.
-- 
2.43.0


From b1022961a4b8fdbec5b0a220db35eea2bb9d0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 46/60] fix: QueueRPCs waits forever for a tree of exactly the
 expected size

It waited until the tree was as large as it was for this client before plus the number of added leaves.
It never is when one of the leaves is in the log already (the log does not add it twice), when
somebody else adds leaves, or when the client was just started and had not read the size of the tree.
Wait for the leaves themselves instead: fetch the proofs until none of them is missing.
---
 pkg/policylog/client/logclient.go | 56 ++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 23 deletions(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 0947c2d..a7a2748 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -12,12 +12,10 @@ import (
 	"github.com/google/trillian/types"
 	common "github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/transparency-dev/merkle/rfc6962"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
-// TODO(yongzhe, CRITICAL): Around line 183, the func will wait forever, if one identical leaf is added to the trillian
-// Possible cause: Trillian will update the identical leaf, rather than add a new one... So the tree size will not grow
-// To Be Solved Later...
-
 // what will a LogCLient do?
 // 1. Add leaves to the log
 // 2. Get the inclusion proof for one leaf
@@ -179,8 +177,10 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	for _, leaf := range addLeavesErrors.FailedLeaves {
 		failed[string(leaf)] = struct{}{}
 	}
+	accepted := [][]byte{}
 	for i, leaf := range data {
 		if _, ok := failed[string(leaf)]; !ok {
+			accepted = append(accepted, leaf)
 			os.Remove(filePaths[i])
 		}
 	}
@@ -190,32 +190,42 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	fmt.Println("queue leaves succeed!")
 	fmt.Println(elapsed)
 
-	// record previous tree size
-	prevTreeSize := c.currentTreeSize
+	start = time.Now()
 
-	// wait for the leaves to be added to the log (BUG FOUND!!!!!!)
-	for {
+	// wait for the leaves to be added to the log, and fetch the inclusion. The size of the tree does not tell
+	// whether they are: a leaf that the log has already does not make it grow, and others make it grow too.
+	missing := accepted
+	for len(missing) > 0 {
 		err = c.UpdateTreeSize(ctx)
 		if err != nil {
 			return queueRPCResult, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
 		}
-		if c.currentTreeSize == prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
-			break
-		}
-		// wait 50 ms before next query
-		time.Sleep(50 * time.Millisecond)
-	}
 
-	start = time.Now()
-
-	// fetch the inclusion
-	fetchInclusionResult := c.FetchInclusions(ctx, data)
+		// in an empty tree there is nothing to fetch
+		if c.currentTreeSize > 0 {
+			fetchInclusionResult := c.FetchInclusions(ctx, missing)
+			queueRPCResult.NumOfRetrievedLeaves += len(fetchInclusionResult.PoIs)
+
+			// process fetch inclusion errors; leaves that are not (yet) in the tree are fetched again
+			missing = nil
+			for i, err := range fetchInclusionResult.Errs {
+				if status.Code(err) == codes.NotFound {
+					missing = append(missing, fetchInclusionResult.FailedLeaves[i])
+					continue
+				}
+				queueRPCResult.FailToRetrievedLeaves = append(queueRPCResult.FailToRetrievedLeaves,
+					fetchInclusionResult.FailedLeaves[i])
+				queueRPCResult.FailToRetrieveLeavesName = append(queueRPCResult.FailToRetrieveLeavesName,
+					fetchInclusionResult.FailedLeavesName[i])
+				queueRPCResult.RetrieveLeavesErrs = append(queueRPCResult.RetrieveLeavesErrs, err)
+			}
+		}
 
-	// precess fetch inclusion errors
-	queueRPCResult.NumOfRetrievedLeaves = len(fetchInclusionResult.PoIs)
-	queueRPCResult.FailToRetrievedLeaves = fetchInclusionResult.FailedLeaves
-	queueRPCResult.FailToRetrieveLeavesName = fetchInclusionResult.FailedLeavesName
-	queueRPCResult.RetrieveLeavesErrs = fetchInclusionResult.Errs
+		if len(missing) > 0 {
+			// wait 50 ms before next query
+			time.Sleep(50 * time.Millisecond)
+		}
+	}
 
 	elapsed = time.Since(start)
 	fmt.Println("fetch proofs succeed!")
-- 
2.43.0


From 4d02cb666f784b2b5b9bee7e33daa5039b7b8067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 47/60] fix: a stage that resumes automatically loses its new
 stop channel

---
 pkg/pipeline/stage.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 6f637cc..36b769c 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -389,14 +389,15 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 	// Coalesce with any error at this stage.
 	initialErr = util.ErrorsCoalesce(initialErr, nextErr)
 
+	// Close the stop channel indicator. As soon as the error channel is closed, the stage can be
+	// resumed with new channels, so this must happen before.
+	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
+	close(s.StopCh)
+
 	// Close our own error channel.
 	DebugPrintf("[%s] closed main error channel %s\n", s.Name, chanPtr(s.ErrCh))
 	close(s.ErrCh)
 
-	// Close the stop channel indicator.
-	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
-	close(s.StopCh)
-
 	DebugPrintf("[%s] all done, stage is stopped\n", s.Name)
 	return initialErr
 }
-- 
2.43.0


From 97a29d7478c95222b27d1c8eac7b273661da6495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 48/60] fix: a slice source leaves a goroutine behind when the
 pipeline fails

---
 pkg/pipeline/source.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index 07adde6..c24aeed 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -114,15 +114,15 @@ func WithSourceSlice[OUT any](
 	return newSourceOption(
 		func(s *Source[OUT]) {
 			s.onResume = func() {
-				s.sourceIncomingCh = make(chan OUT)
+				// The channel has room for all the values: if the pipeline finishes before reading
+				// them all, nobody is left blocked sending the rest.
+				s.sourceIncomingCh = make(chan OUT, len(*incomingValues))
 				DebugPrintf("[%s] WithSourceSlice restoring source channel to %s\n",
 					s.Name, chanPtr(s.sourceIncomingCh))
-				go func() {
-					for _, in := range *incomingValues {
-						s.sourceIncomingCh <- in
-					}
-					close(s.sourceIncomingCh)
-				}()
+				for _, in := range *incomingValues {
+					s.sourceIncomingCh <- in
+				}
+				close(s.sourceIncomingCh)
 			}
 
 			processFunction := processFunction // Local copy of the processing function.
-- 
2.43.0


From c33260c07b22d7fdca711151c44d376b08d707a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:36 +0000
Subject: [PATCH 49/60] fix: sequential inputs are read out of order once one
 of them is closed

---
 pkg/pipeline/stage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 36b769c..12e6df4 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -847,7 +847,7 @@ func (s *Stage[IN, OUT]) readIncomingSequentially() chan IN {
 				DebugPrintf("[%s] aggregated input: channel index %d: %s closed\n",
 					s.Name, debugIndex, chanPtr(inChannels[i]))
 				// This incoming channel was closed.
-				util.RemoveElemFromSlice(&inChannels, i)
+				inChannels = append(inChannels[:i], inChannels[i+1:]...) // Keep the order of the rest.
 				if len(inChannels) == 0 { // no more open channels, break out of loop.
 					break
 				}
-- 
2.43.0


From 73a54c64d2d9b79438a56b7f155949a91529f77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:21 +0000
Subject: [PATCH 50/60] fix: data sent to a stage that finished because of its
 next stages blocks goroutines forever

---
 pkg/pipeline/stage.go        | 26 ++++++++++++++++++++------
 pkg/pipeline/stall_resume.go |  1 +
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 12e6df4..f1c979d 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -41,6 +41,7 @@ type StageBase struct {
 	onProcessed               func()          // Callback after process.
 	onSent                    func()          // Callback after sent to outgoing.
 	onErrorSending            func(error, []int)
+	autoResumes               bool // The stage can be resumed with the data it did not process.
 }
 
 func newStageBase(name string) StageBase {
@@ -361,12 +362,7 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 	}
 
 	if initialErr != nil {
-		// Until all the previous stages know about this error, they will still send data.
-		// Discard it, as otherwise they would remain blocked sending.
-		go func(incomingCh chan IN) {
-			for range incomingCh {
-			}
-		}(s.AggregatedIncomeCh)
+		s.discardIncoming()
 
 		// Propagate error backwards. Do it before waiting for the next stages: those with several
 		// inputs finish only after all of their previous stages do so.
@@ -402,11 +398,22 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 	return initialErr
 }
 
+// discardIncoming discards the data that the previous stages still send until they all know that
+// this stage finished. Otherwise they, or the goroutines aggregating the incoming channels, would
+// remain blocked sending.
+func (s *Stage[IN, OUT]) discardIncoming() {
+	go func(incomingCh chan IN) {
+		for range incomingCh {
+		}
+	}(s.AggregatedIncomeCh)
+}
+
 func (s *Stage[IN, OUT]) processThisStage() {
 	var foundError error
 	var shouldReturn bool
 	var shouldBreakReadingIncoming bool
 	var sendingError bool
+	var nextFinished bool
 
 	// deleteme decide if we want a service per "operation" (processing, sending, etc), or per
 	// stage instance (domain_batcher_01, etc), or a mix.
@@ -438,6 +445,7 @@ readIncoming:
 		case err := <-s.NextStagesAggregatedErrCh:
 			DebugPrintf("[%s] got ERROR while reading incoming from next stage\n", s.Name)
 			foundError = err
+			nextFinished = true
 			break readIncoming
 
 		case in, ok := <-s.AggregatedIncomeCh:
@@ -529,6 +537,12 @@ readIncoming:
 		} // end of select
 	} // end of for-loop readIncoming
 
+	if foundError == nil && (nextFinished || sendingError) && !s.autoResumes {
+		// A next stage finished without telling an error to this stage, maybe because it told it to
+		// another one. There is no use for any other data.
+		s.discardIncoming()
+	}
+
 	// Stop pipeline.
 	s.breakPipelineAndWait(foundError)
 }
diff --git a/pkg/pipeline/stall_resume.go b/pkg/pipeline/stall_resume.go
index 0b56a1d..d84326e 100644
--- a/pkg/pipeline/stall_resume.go
+++ b/pkg/pipeline/stall_resume.go
@@ -30,6 +30,7 @@ func WithAutoResumeAtStage(
 
 			// Tag the target stage.
 			target := p.Stages[targetStage]
+			target.Base().autoResumes = true
 
 			// Replace the salient error channel of the target stage.
 			origErrCh := target.Base().ErrCh
-- 
2.43.0


From 638807c4c491f23326825c681afc5ff888460d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:51 +0000
Subject: [PATCH 51/60] fix: StopAndWait closes channels while the stage is
 still sending

---
 pkg/pipeline/stage.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index f1c979d..405f5f3 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -41,7 +41,8 @@ type StageBase struct {
 	onProcessed               func()          // Callback after process.
 	onSent                    func()          // Callback after sent to outgoing.
 	onErrorSending            func(error, []int)
-	autoResumes               bool // The stage can be resumed with the data it did not process.
+	processingDone            chan None // Closed when the goroutine of this stage finishes.
+	autoResumes               bool      // The stage can be resumed with the data it did not process.
 }
 
 func newStageBase(name string) StageBase {
@@ -331,7 +332,12 @@ func (s *Stage[IN, OUT]) Resume(ctx context.Context) {
 	// All the nextStageErrCh are created and linked from other stages at this point.
 	s.NextStagesAggregatedErrCh = s.aggregateNextErrChannels()
 
-	go s.processThisStage()
+	processingDone := make(chan None)
+	s.processingDone = processingDone
+	go func() {
+		defer close(processingDone)
+		s.processThisStage()
+	}()
 }
 
 // StopAndWait stops this and following stages by closing this stage's outgoing channel.
@@ -344,6 +350,9 @@ func (s *Stage[IN, OUT]) StopAndWait() error {
 	// not to read any state from the next stage. We will do that here.
 	s.StopCh <- None{}
 
+	// Wait until this stage is not sending data anymore, before closing the outgoing channels.
+	<-s.processingDone
+
 	return s.breakPipelineAndWait(nil)
 }
 
@@ -584,6 +593,7 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 			// We have been instructed to stop, without reading any other channel.
 			DebugPrintf("[%s] instructed to stop\n", s.Name)
 			*shouldReturn = true
+			return failedIndices
 		}
 	}
 
@@ -861,7 +871,8 @@ func (s *Stage[IN, OUT]) readIncomingSequentially() chan IN {
 				DebugPrintf("[%s] aggregated input: channel index %d: %s closed\n",
 					s.Name, debugIndex, chanPtr(inChannels[i]))
 				// This incoming channel was closed.
-				inChannels = append(inChannels[:i], inChannels[i+1:]...) // Keep the order of the rest.
+				// Remove it, keeping the order of the rest.
+				inChannels = append(inChannels[:i], inChannels[i+1:]...)
 				if len(inChannels) == 0 { // no more open channels, break out of loop.
 					break
 				}
-- 
2.43.0


From 2ee124ddaf806fee06badd22d64bd389d805a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 52/60] fix: verify the owner signature of requests whose owner
 certificate the PCA issued

The DB is indexed by the hash of the public key, whereas requests name their
owner by its hash as signer: no certificate issued by the PCA was ever found,
and any signature naming it was accepted.
---
 pkg/pca/pca.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pkg/pca/pca.go b/pkg/pca/pca.go
index 0648e10..7c097c5 100644
--- a/pkg/pca/pca.go
+++ b/pkg/pca/pca.go
@@ -27,6 +27,8 @@ type PCA struct {
 	LogServerRequester LogServerRequester                     // not set
 	DB                 map[[32]byte]*common.PolicyCertificate // per hash of public key
 	SerialNumber       int                                    // unique serial number per pol cert
+
+	issuedBySignerHash map[[32]byte]*common.PolicyCertificate // per hash as signer (owner hash)
 }
 
 // LogServerRequester is implemented by objects that can talk to CT log servers.
@@ -86,6 +88,8 @@ func NewPCA(configPath string) (*PCA, error) {
 		CtLogServers:   logServers,
 		DB:             make(map[[32]byte]*common.PolicyCertificate),
 		SerialNumber:   0,
+
+		issuedBySignerHash: make(map[[32]byte]*common.PolicyCertificate),
 	}, nil
 }
 
@@ -179,7 +183,12 @@ func (pca *PCA) SignAndLogRequest(
 		return nil, err
 	}
 
+	signerHash, err := crypto.ComputeHashAsSigner(pc)
+	if err != nil {
+		return nil, err
+	}
 	pca.storeInDb(pc)
+	pca.issuedBySignerHash[*(*[32]byte)(signerHash)] = pc
 
 	return pc, nil
 }
@@ -201,6 +210,11 @@ func (pca *PCA) canSkipCoolOffPeriod(req *common.PolicyCertificateSigningRequest
 	// Cast it to array and check the DB.
 	key := (*[32]byte)(req.OwnerHash)
 	stored, ok := pca.DB[*key]
+	if !ok {
+		// The certificates issued by this PCA are in the DB by the hash of their public key, but
+		// the owner is identified by its hash as a signer.
+		stored, ok = pca.issuedBySignerHash[*key]
+	}
 	if !ok {
 		// No such certificate, cannot skip cool off period.
 		return false, nil
-- 
2.43.0


From 4706fd4a75ab7c899b257aad15e1e5ebe8d3fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 53/60] fix: do not accept the owner signature of a certificate
 that cannot own

SignAsOwner refuses to sign with a certificate that has CanOwn unset, but the
verification accepted such signatures.
---
 pkg/common/crypto/crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..c373d14 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -114,6 +114,9 @@ func VerifyOwnerSignatureInPolicyCertificate(
 	c *common.PolicyCertificate,
 ) error {
 
+	if !ownerPolCert.CanOwn {
+		return fmt.Errorf("the owner certificate cannot sign as owner")
+	}
 	// Check owner identification.
 	ownerHash, err := ComputeHashAsSigner(ownerPolCert)
 	if err != nil {
-- 
2.43.0


From e2fe2e42c0e0e5353d648e73d36ec83ae68a4836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 54/60] fix: keep the tree nodes that could not be stored or
 deleted

---
 pkg/mapserver/trie/trie_cache.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index 814fbb6..18ddf64 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -8,6 +8,7 @@ package trie
 import (
 	"context"
 	"fmt"
+	"maps"
 	"sync"
 
 	_ "github.com/go-sql-driver/mysql"
@@ -66,6 +67,7 @@ func (cacheDB *CacheDB) storeUpdatedNodes(ctx context.Context) error {
 	for k, v := range cacheDB.updatedNodes {
 		updatesToDB = append(updatesToDB, &db.TreeNodeRecord{Key: k, Value: serializeBatch(v)})
 	}
+	updatedNodes := cacheDB.updatedNodes
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
 	cacheDB.updatedMux.Unlock()
 
@@ -75,6 +77,10 @@ func (cacheDB *CacheDB) storeUpdatedNodes(ctx context.Context) error {
 
 	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
 	if err != nil {
+		// keep the nodes: they are still to be stored
+		cacheDB.updatedMux.Lock()
+		maps.Copy(cacheDB.updatedNodes, updatedNodes)
+		cacheDB.updatedMux.Unlock()
 		return fmt.Errorf("storeUpdatedNodes | UpdateKeyValuePairBatches | %w", err)
 	}
 	return nil
@@ -104,6 +110,10 @@ func (cacheDB *CacheDB) deleteRemovedNodes(ctx context.Context) error {
 		n := min(chunkSize, len(keysToDelete))
 		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete[:n])
 		if err != nil {
+			// keep the nodes: they are still to be deleted
+			for _, k := range keysToDelete {
+				cacheDB.addRemoveNode(k)
+			}
 			return fmt.Errorf("deleteRemovedNodes | DeleteKeyValuePairBatches | %w", err)
 		}
 		keysToDelete = keysToDelete[n:]
-- 
2.43.0


From 0a5fe45e9ab60c3078b1556c016de31513fe1bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:52 +0000
Subject: [PATCH 55/60] fix: delete the tree nodes of removed entries from the
 database

---
 pkg/mapserver/trie/trie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 985447f..5e09a36 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -372,7 +372,9 @@ func (s *Trie) deleteOldNode(root []byte, height int, movingUp bool) {
 		// don't delete old nodes with atomic updated except when
 		// moving up a shortcut, we don't record every single move
 		s.db.deleteUpdatedNodes(node)
-
+		if len(root) != 0 {
+			s.db.addRemoveNode(node)
+		}
 	}
 	if height >= s.CacheHeightLimit {
 		s.db.deleteLiveCache(node)
-- 
2.43.0


From 4423b0cc2c27381df2e73d9ebf04fa5aa96629c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 56/60] fix: report missing tree nodes when loading the cache

---
 pkg/mapserver/trie/trie_tools.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index 7b727a3..11d2893 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -38,6 +38,10 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 			ch <- fmt.Errorf("the trie node %x is unavailable in the disk db, db may be corrupted | %w", root, err)
 			return
 		}
+		if len(value) == 0 {
+			ch <- fmt.Errorf("the trie node %x is unavailable in the disk db, db may be corrupted", root)
+			return
+		}
 		batch = parseBatch(value)
 
 		//Store node in cache.
@@ -64,15 +68,12 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 		rch := make(chan error, 1)
 		go s.loadCache(ctx, lnode, batch, 2*iBatch+1, height-1, lch)
 		go s.loadCache(ctx, rnode, batch, 2*iBatch+2, height-1, rch)
-		if err := <-lch; err != nil {
-			ch <- err
+		lErr, rErr := <-lch, <-rch
+		if lErr != nil {
+			ch <- lErr
 			return
 		}
-		if err := <-rch; err != nil {
-			ch <- err
-			return
-		}
-		ch <- nil
+		ch <- rErr
 	}
 }
 
-- 
2.43.0


From 4131c14d3d3e14438791f0124986646cbcbdea31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:08 +0000
Subject: [PATCH 57/60] fix: store expirations with a time zone in UTC

---
 pkg/mapserver/updater/csv.go     | 2 +-
 pkg/mapserver/updater/updater.go | 2 +-
 pkg/util/certificate.go          | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index ad19e97..65812f1 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -245,7 +245,7 @@ func bytesToBase64WithStorage(storage *[]byte, b []byte) {
 
 func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = (*storage)[:0]
-	*storage = t.AppendFormat(*storage, time.DateTime)
+	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
 }
 
 // stringToStorage writes the string such that loading the CSV file yields the same string, by
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 67b4515..1c72e67 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -208,7 +208,7 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
+		expirations = append(expirations, cert.NotAfter.UTC())
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index f6881b6..c7431bb 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -19,11 +19,12 @@ func ExtractNames(certs []ctx509.Certificate) [][]string {
 	return names
 }
 
-// ExtractExpirations returns all expiration times in order.
+// ExtractExpirations returns all expiration times in order. They are in UTC, regardless of the
+// time zone that a certificate may specify.
 func ExtractExpirations(certs []ctx509.Certificate) []time.Time {
 	expirations := make([]time.Time, len(certs))
 	for i, c := range certs {
-		expirations[i] = c.NotAfter
+		expirations[i] = c.NotAfter.UTC()
 	}
 	return expirations
 }
-- 
2.43.0


From 76b0600d975521a74ebcd755d8a8a197cc0ac0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 58/60] fix: stop the fetch when fetching all certificates
 fails

---
 pkg/mapserver/logfetcher/httplogfetcher.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a346272..dc38298 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -187,6 +187,7 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 ) {
 
 	f.StartFetching(start, end)
+	defer f.StopFetching()
 	certs = make([]ctx509.Certificate, 0, end-start+1)
 	chains = make([][]*ctx509.Certificate, 0, end-start+1)
 	for f.NextBatch(ctx) {
@@ -202,7 +203,6 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 		chains = append(chains, bChains...)
 		excluded += uint64(bExcluded)
 	}
-	f.StopFetching()
 	return
 }
 
-- 
2.43.0


From fee5318613e98fded51e4c58214a722f2720c108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 59/60] fix: give each unfolded certificate its expiration when
 updating locally

---
 pkg/mapserver/updater/updater.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 1c72e67..5d3c812 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -199,7 +199,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -208,7 +207,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter.UTC())
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -220,6 +218,8 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
+	// The certificates include now those of the chains.
+	expirations := util.ExtractExpirations(certs)
 	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
 }
 
-- 
2.43.0


From 0be1196d6c46cccc3e1ee25a5187d8ded48b32bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:50 +0000
Subject: [PATCH 60/60] fix: let repeated requests to stop the API return

---
 pkg/mapserver/mapserver.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index 389c400..c80a4fe 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -222,7 +222,11 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 }
 
 func (s *MapServer) Shutdown(ctx context.Context) {
-	s.apiStopServerChan <- struct{}{}
+	select {
+	case s.apiStopServerChan <- struct{}{}:
+	default:
+		// The server was already requested to stop.
+	}
 }
 
 // PruneAndUpdateIfPossible tries to trigger an update if no update is currently running.
-- 
2.43.0

