From 4abc9aa1e15c3a28e6e5acb5ff8b98bfc9d9428d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:35 +0000
Subject: [PATCH 01/25] fix: check vector lengths before allocating

The length of an opaque vector comes from the peer. Allocating that many
bytes before comparing it with the remaining input let a message of a few
bytes cause a 1 GiB allocation.
---
 mls.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mls.go b/mls.go
index adfc8c8..c2533c2 100644
--- a/mls.go
+++ b/mls.go
@@ -57,6 +57,11 @@ func readOpaqueVec(s *cryptobyte.String, out *[]byte) bool {
 		return false
 	}
 
+	// The length is not trustworthy: don't allocate before checking it
+	if uint64(n) > uint64(len(*s)) {
+		return false
+	}
+
 	b := make([]byte, n)
 	if !s.CopyBytes(b) {
 		return false
-- 
2.43.0


From 021b92b71576a1b59fa2435ee4149bce218c7e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:39 +0000
Subject: [PATCH 02/25] fix: reject truncated key packages and group infos

A missing signature field was reported with a nil error, so that truncated
input was decoded as a key package or group info without error.
---
 group.go       | 2 +-
 key_package.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/group.go b/group.go
index d91fb76..4f7cb39 100644
--- a/group.go
+++ b/group.go
@@ -913,7 +913,7 @@ func (info *groupInfo) unmarshal(s *cryptobyte.String) error {
 	info.extensions = exts
 
 	if !readOpaqueVec(s, &info.confirmationTag) || !s.ReadUint32((*uint32)(&info.signer)) || !readOpaqueVec(s, &info.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
diff --git a/key_package.go b/key_package.go
index 389dba9..ad62959 100644
--- a/key_package.go
+++ b/key_package.go
@@ -72,7 +72,7 @@ func (pkg *KeyPackage) unmarshal(s *cryptobyte.String) error {
 	pkg.extensions = exts
 
 	if !readOpaqueVec(s, &pkg.signature) {
-		return err
+		return io.ErrUnexpectedEOF
 	}
 
 	return nil
-- 
2.43.0


From 39a4958d8b6329fbd8d496e6b62df9ac81205a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:21 +0000
Subject: [PATCH 03/25] fix: don't panic on unknown cipher suites from peers

A Welcome, group info or key package may name any cipher suite. Check it
before using it to look up primitives: joining compares it with the suite
of the own key package, and computing the reference of a key package with
an unknown suite returns an error.
---
 group.go       | 11 +++++++----
 key_package.go |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/group.go b/group.go
index 4f7cb39..095e154 100644
--- a/group.go
+++ b/group.go
@@ -99,6 +99,10 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 
 // GroupFromWelcome creates a new group from a welcome message.
 func GroupFromWelcome(welcome *Welcome, keyPairPkg *KeyPairPackage) (*Group, error) {
+	if welcome.cipherSuite != keyPairPkg.Public.cipherSuite {
+		return nil, fmt.Errorf("mls: welcome cipher suite doesn't match key package")
+	}
+
 	keyPkgRef, err := keyPairPkg.Public.GenerateRef()
 	if err != nil {
 		return nil, fmt.Errorf("failed to generate key package ref: %v", err)
@@ -140,6 +144,9 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if err != nil {
 		return nil, fmt.Errorf("failed to decrypt group info: %v", err)
 	}
+	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
+		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
+	}
 
 	rawTree := options.rawTree
 	if rawTree == nil {
@@ -163,10 +170,6 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	if !groupInfo.verifyConfirmationTag(groupSecrets.joinerSecret, pskSecret) {
 		return nil, fmt.Errorf("mls: failed to verify confirmation tag")
 	}
-	if groupInfo.groupContext.cipherSuite != welcome.cipherSuite {
-		return nil, fmt.Errorf("mls: group info cipher suite doesn't match key package")
-	}
-
 	if err := tree.verifyIntegrity(&groupInfo.groupContext, options.now); err != nil {
 		return nil, fmt.Errorf("failed to verify ratchet tree integrity: %v", err)
 	}
diff --git a/key_package.go b/key_package.go
index ad62959..a65b97e 100644
--- a/key_package.go
+++ b/key_package.go
@@ -141,6 +141,10 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 
 // GenerateRef generates this key package's reference.
 func (pkg *KeyPackage) GenerateRef() (KeyPackageRef, error) {
+	if _, ok := cipherSuiteDescriptions[pkg.cipherSuite]; !ok {
+		return nil, fmt.Errorf("mls: invalid cipher suite %d", pkg.cipherSuite)
+	}
+
 	var b cryptobyte.Builder
 	pkg.marshal(&b)
 	raw, err := b.Bytes()
-- 
2.43.0


From da8c69ff17d3598f97a7627f09a1dab0ff52c854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:42 +0000
Subject: [PATCH 04/25] fix: don't panic on malformed ECDSA public keys

Signature verification with a public key that isn't a valid curve point
now fails instead of dereferencing nil coordinates.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index c2edb39..d0ef625 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -365,6 +365,9 @@ func (scheme ecdsaSignatureScheme) Sign(signKey, message []byte) ([]byte, error)
 
 func (scheme ecdsaSignatureScheme) Verify(publicKey, message, sig []byte) bool {
 	x, y := elliptic.Unmarshal(scheme.curve, publicKey)
+	if x == nil {
+		return false
+	}
 	pub := &ecdsa.PublicKey{Curve: scheme.curve, X: x, Y: y}
 	return ecdsa.VerifyASN1(pub, scheme.hashSum(message), sig)
 }
-- 
2.43.0


From 51f464f2e8f90312d752d29ab0f9bbd649332a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:08 +0000
Subject: [PATCH 05/25] fix: don't modify the current tree when adding leaves
 to a copy

Copies of a ratchet tree share their nodes. Adding a leaf to a copy, for
instance to build an invitation or to process a commit that turns out to
be invalid, appended to the unmerged leaves of the group's own tree.
---
 tree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index a0eefbe..debdea5 100644
--- a/tree.go
+++ b/tree.go
@@ -1042,9 +1042,16 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		if !ok {
 			break
 		}
-		node := tree.get(p)
-		if node != nil {
-			node.parentNode.unmergedLeaves = append(node.parentNode.unmergedLeaves, li)
+		n := tree.get(p)
+		if n != nil {
+			// The node may be shared with other copies of the tree
+			parent := *n.parentNode
+			parent.unmergedLeaves = append([]leafIndex(nil), parent.unmergedLeaves...)
+			parent.unmergedLeaves = append(parent.unmergedLeaves, li)
+			tree.set(p, &node{
+				nodeType:   nodeTypeParent,
+				parentNode: &parent,
+			})
 		}
 	}
 
-- 
2.43.0


From af682cea7a3b1347bb9a487c695a871ef1acf125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:12 +0000
Subject: [PATCH 06/25] fix: verify the confirmation tag of commits

Without this check a member could accept a commit that leads it to a
different epoch secret than everybody else.
---
 group.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/group.go b/group.go
index 095e154..3693230 100644
--- a/group.go
+++ b/group.go
@@ -544,6 +544,13 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		return fmt.Errorf("failed to extract epoch secret: %v", err)
 	}
 
+	confirmationKey, err := cs.deriveSecret(newEpochSecret, secretLabelConfirm)
+	if err != nil {
+		return fmt.Errorf("failed to derive confirmation key: %v", err)
+	} else if !authContent.auth.verifyConfirmationTag(cs, confirmationKey, newGroupCtx.confirmedTranscriptHash) {
+		return fmt.Errorf("mls: failed to verify commit confirmation tag")
+	}
+
 	newInitSecret, err := cs.deriveSecret(newEpochSecret, secretLabelInit)
 	if err != nil {
 		return fmt.Errorf("failed to erive init secret: %v", err)
-- 
2.43.0


From 69135a4220f2af7130781dc6f7b7c0d5fcda78a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:27 +0000
Subject: [PATCH 07/25] fix: derive all path secrets when joining through a
 Welcome

The path secret of each node is derived from the one below it, not from
the secret received in the Welcome, and blank ancestors are skipped. A
client joining below the top two levels failed to join or panicked.
---
 group.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index 3693230..9a520e9 100644
--- a/group.go
+++ b/group.go
@@ -223,6 +223,10 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 }
 
 func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateKey, pathSecret []byte, nodeIndex nodeIndex) error {
+	if tree.get(nodeIndex) == nil {
+		return fmt.Errorf("mls: path secret provided for blank node %v", nodeIndex)
+	}
+
 	nodePriv, err := nodePrivFromPathSecret(cs, pathSecret, tree.get(nodeIndex).encryptionKey())
 	if err != nil {
 		return fmt.Errorf("failed to derive node %v private key from path secret: %v", nodeIndex, err)
@@ -236,7 +240,13 @@ func processPathSecret(cs CipherSuite, tree ratchetTree, privTree []hpkePrivateK
 			break
 		}
 
-		pathSecret, err := cs.deriveSecret(pathSecret, []byte("path"))
+		// Blank nodes aren't part of the filtered direct path of the
+		// committer
+		if tree.get(nodeIndex) == nil {
+			continue
+		}
+
+		pathSecret, err = cs.deriveSecret(pathSecret, []byte("path"))
 		if err != nil {
 			return fmt.Errorf("failed to derive path secret: %v", err)
 		}
-- 
2.43.0


From 67eff60c620631ea8342f20b17ea9862fa0c4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:48:39 +0000
Subject: [PATCH 08/25] fix: check the structure of received ratchet trees

A tree that is empty, ends with a blank node, or has a leaf in the place
of a parent or the reverse is malformed. Such trees caused panics.
---
 tree.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tree.go b/tree.go
index debdea5..8fea7d0 100644
--- a/tree.go
+++ b/tree.go
@@ -638,6 +638,17 @@ func (tree *ratchetTree) unmarshal(s *cryptobyte.String) error {
 		return err
 	}
 
+	if len(*tree) == 0 {
+		return fmt.Errorf("mls: ratchet tree is empty")
+	} else if (*tree)[len(*tree)-1] == nil {
+		return fmt.Errorf("mls: ratchet tree ends with a blank node")
+	}
+	for i, n := range *tree {
+		if n != nil && (n.nodeType == nodeTypeLeaf) != nodeIndex(i).isLeaf() {
+			return fmt.Errorf("mls: unexpected node type %d at index %v in ratchet tree", n.nodeType, i)
+		}
+	}
+
 	// The raw tree doesn't include blank nodes at the end, fill it until next
 	// power of 2
 	for !isPowerOf2(uint32(len(*tree) + 1)) {
-- 
2.43.0


From 6cacc3215f3c3d5bc873fc38312127cc082b3e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:21 +0000
Subject: [PATCH 09/25] fix: reject leaf indices outside of the tree and blank
 leaves

Leaf indices in messages, group infos and remove proposals come from the
peer. Indices out of range caused panics, and removing a leaf that isn't
in the tree was accepted.
---
 group.go | 15 ++++++++-------
 tree.go  |  6 ++++++
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/group.go b/group.go
index 9a520e9..6aa7ca5 100644
--- a/group.go
+++ b/group.go
@@ -315,7 +315,6 @@ func (group *Group) verifyPublicMessage(pubMsg *publicMessage) (*authenticatedCo
 		return nil, fmt.Errorf("mls: unsupported sender type: %v", pubMsg.content.sender.senderType)
 	}
 	senderLeafIndex := pubMsg.content.sender.leafIndex
-	// TODO: check tree length
 	senderNode := group.tree.getLeaf(senderLeafIndex)
 	if senderNode == nil {
 		return nil, fmt.Errorf("mls: blank leaf node for sender")
@@ -356,6 +355,11 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt sender data: %v", err)
 	}
 
+	signerNode := group.tree.getLeaf(senderData.leafIndex)
+	if signerNode == nil {
+		return nil, fmt.Errorf("mls: signer node is blank")
+	}
+
 	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
 	if err != nil {
 		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
@@ -386,11 +390,6 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to decrypt private message content: %v", err)
 	}
 
-	signerNode := group.tree.getLeaf(senderData.leafIndex)
-	if signerNode == nil {
-		return nil, fmt.Errorf("mls: signer node is blank")
-	}
-
 	authContent := privMsg.authenticatedContent(senderData, privContent)
 	if !authContent.verifySignature(signerNode.signatureKey, &group.groupContext) {
 		return nil, fmt.Errorf("failed to verify private message content signature: %v", err)
@@ -452,6 +451,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 				return fmt.Errorf("failed to verify add proposal: %v", err)
 			}
 		}
+		if prop.proposalType == proposalTypeRemove && group.tree.getLeaf(prop.remove.removed) == nil {
+			return fmt.Errorf("mls: remove proposal removes blank leaf node %v", prop.remove.removed)
+		}
 	}
 
 	// TODO: additional proposal list checks
@@ -480,7 +482,6 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("mls: commit path leaf node source must be commit")
 		}
 
-		// TODO: check tree length
 		senderNode := newTree.getLeaf(senderLeafIndex)
 
 		// The same signature key can be re-used, but the encryption key
diff --git a/tree.go b/tree.go
index 8fea7d0..edf3bc9 100644
--- a/tree.go
+++ b/tree.go
@@ -690,7 +690,13 @@ func (tree ratchetTree) set(i nodeIndex, node *node) {
 	tree[int(i)] = node
 }
 
+// getLeaf returns the leaf node at the provided index.
+//
+// nil is returned for blank leaves and for indices which are out of range.
 func (tree ratchetTree) getLeaf(li leafIndex) *leafNode {
+	if li >= leafIndex(tree.numLeaves()) {
+		return nil
+	}
 	node := tree.get(li.nodeIndex())
 	if node == nil {
 		return nil
-- 
2.43.0


From a7aea53e687dc5208f77e7b2918f292b71c0815c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:50 +0000
Subject: [PATCH 10/25] fix: check unmerged leaves of received ratchet trees

Unmerged leaves must be non-blank leaves of the tree, listed in order.
Entries out of range caused panics or endless loops.
---
 tree.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tree.go b/tree.go
index edf3bc9..c5f9366 100644
--- a/tree.go
+++ b/tree.go
@@ -783,6 +783,20 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 		return fmt.Errorf("mls: tree hash verification failed")
 	}
 
+	for i, node := range tree {
+		if node == nil || node.nodeType != nodeTypeParent {
+			continue
+		}
+		for j, li := range node.parentNode.unmergedLeaves {
+			if tree.getLeaf(li) == nil {
+				return fmt.Errorf("mls: unmerged leaf %v of the parent node at index %v is blank", li, i)
+			}
+			if j > 0 && li <= node.parentNode.unmergedLeaves[j-1] {
+				return fmt.Errorf("mls: unmerged leaves of the parent node at index %v aren't sorted", i)
+			}
+		}
+	}
+
 	if !tree.verifyParentHashes(cs) {
 		return fmt.Errorf("mls: parent hashes verification failed")
 	}
-- 
2.43.0


From 3b01aedc0d679449e2e469e2858ad727002b9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:49:54 +0000
Subject: [PATCH 11/25] fix: check that the resolution below a parent node
 matches its unmerged leaves

RFC 9420 section 7.9.2 requires that the node which carries the parent
hash is the only node in the resolution of the child besides the unmerged
leaves of the parent. Without it a dishonest inviter could hide nodes.
---
 tree.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/tree.go b/tree.go
index c5f9366..210b3f1 100644
--- a/tree.go
+++ b/tree.go
@@ -990,8 +990,8 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 			return false
 		}
 
-		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash)
-		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash)
+		isLeftDescendant := tree.findParentHash(tree.resolve(l), leftParentHash, exclude)
+		isRightDescendant := tree.findParentHash(tree.resolve(r), rightParentHash, exclude)
 		if isLeftDescendant == isRightDescendant {
 			return false
 		}
@@ -999,24 +999,40 @@ func (tree ratchetTree) verifyParentHashes(cs CipherSuite) bool {
 	return true
 }
 
-func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte) bool {
+// findParentHash checks that exactly one node of a resolution isn't unmerged
+// at the parent, and that it carries the parent hash.
+func (tree ratchetTree) findParentHash(nodeIndices []nodeIndex, parentHash []byte, unmerged map[leafIndex]struct{}) bool {
+	found := false
 	for _, x := range nodeIndices {
+		if li, ok := x.leafIndex(); ok {
+			if _, ok := unmerged[li]; ok {
+				continue
+			}
+		}
 		node := tree.get(x)
 		if node == nil {
 			continue
 		}
+		if found {
+			return false
+		}
+		found = true
+
 		var h []byte
 		switch node.nodeType {
 		case nodeTypeLeaf:
+			if node.leafNode.leafNodeSource != leafNodeSourceCommit {
+				return false
+			}
 			h = node.leafNode.parentHash
 		case nodeTypeParent:
 			h = node.parentNode.parentHash
 		}
-		if bytes.Equal(h, parentHash) {
-			return true
+		if !bytes.Equal(h, parentHash) {
+			return false
 		}
 	}
-	return false
+	return found
 }
 
 func (tree ratchetTree) numLeaves() numLeaves {
-- 
2.43.0


From 46bf0a9ee2a001afeb055e601c5c119d74149ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:50:26 +0000
Subject: [PATCH 12/25] fix: leave members added by a commit out of its path
 secrets

The path secrets of a commit aren't encrypted to the leaves it adds. Valid
commits that contain both adds and an update path were rejected. The
number of ciphertexts is now checked for all nodes of the path.
---
 group.go |  4 ++--
 tree.go  | 44 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/group.go b/group.go
index 6aa7ca5..40d74e0 100644
--- a/group.go
+++ b/group.go
@@ -466,7 +466,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, senders)
+	added := newTree.apply(proposals, senders)
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
@@ -518,7 +518,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		// TODO: update group context extensions
 
-		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree)
+		commitSecret, err = newTree.decryptPathSecrets(cs, &newGroupCtx, senderLeafIndex, group.myLeafIndex, commit.path, newPrivTree, added)
 		if err != nil {
 			return fmt.Errorf("failed to decrypt path secrets: %v", err)
 		}
diff --git a/tree.go b/tree.go
index 210b3f1..091e714 100644
--- a/tree.go
+++ b/tree.go
@@ -727,6 +727,20 @@ func (tree ratchetTree) resolve(x nodeIndex) []nodeIndex {
 	}
 }
 
+// resolveWithout computes the resolution of a node, leaving out some leaves.
+func (tree ratchetTree) resolveWithout(x nodeIndex, exclude map[leafIndex]struct{}) []nodeIndex {
+	var res []nodeIndex
+	for _, ni := range tree.resolve(x) {
+		if li, ok := ni.leafIndex(); ok {
+			if _, ok := exclude[li]; ok {
+				continue
+			}
+		}
+		res = append(res, ni)
+	}
+	return res
+}
+
 func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 	numMembers := 0
 	supportedCredsCount := make(map[credentialType]int)
@@ -1059,7 +1073,8 @@ func (tree ratchetTree) findLeaf(node *leafNode) (leafIndex, bool) {
 	return 0, false
 }
 
-func (tree *ratchetTree) add(leafNode *leafNode) {
+// add inserts a new leaf node and returns its index.
+func (tree *ratchetTree) add(leafNode *leafNode) leafIndex {
 	li := leafIndex(0)
 	var ni nodeIndex
 	found := false
@@ -1106,6 +1121,7 @@ func (tree *ratchetTree) add(leafNode *leafNode) {
 		nodeType: nodeTypeLeaf,
 		leafNode: leafNode,
 	})
+	return li
 }
 
 func (tree ratchetTree) update(li leafIndex, leafNode *leafNode) {
@@ -1262,7 +1278,7 @@ func (tree ratchetTree) mergeUpdatePath(cs CipherSuite, senderLeafIndex leafInde
 	return nil
 }
 
-func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey) ([]byte, error) {
+func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContext, senderLeafIndex, recipientLeafIndex leafIndex, path *updatePath, privTree []hpkePrivateKey, added map[leafIndex]struct{}) ([]byte, error) {
 	senderNodeIndex := senderLeafIndex.nodeIndex()
 	recipientNodeIndex := recipientLeafIndex.nodeIndex()
 
@@ -1301,9 +1317,19 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 		panic("unreachable")
 	}
 
-	copathResolution := tree.resolve(copathNode)
-	if len(updatePathNode.encryptedPathSecret) != len(copathResolution) {
-		return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
+	copathResolution := tree.resolveWithout(copathNode, added)
+	for i, ni := range senderFilteredDirectPath {
+		l, r, ok := ni.children()
+		if !ok {
+			panic("unreachable")
+		}
+		x := r
+		if senderNodeIndex > ni {
+			x = l
+		}
+		if len(path.nodes[i].encryptedPathSecret) != len(tree.resolveWithout(x, added)) {
+			return nil, fmt.Errorf("mls: invalid UpdatePathNode.encrypted_path_secret length")
+		}
 	}
 
 	// Identify a node in the resolution of the copath node for which we have
@@ -1356,7 +1382,9 @@ func (tree ratchetTree) decryptPathSecrets(cs CipherSuite, groupCtx *groupContex
 	return commitSecret, nil
 }
 
-func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
+// apply applies proposals to the tree, and returns the set of leaves which
+// have been added.
+func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) map[leafIndex]struct{} {
 	// Apply all update proposals
 	for i, prop := range proposals {
 		if prop.proposalType == proposalTypeUpdate {
@@ -1372,9 +1400,11 @@ func (tree *ratchetTree) apply(proposals []proposal, senders []leafIndex) {
 	}
 
 	// Apply all add proposals
+	added := make(map[leafIndex]struct{})
 	for _, prop := range proposals {
 		if prop.proposalType == proposalTypeAdd {
-			tree.add(&prop.add.keyPackage.leafNode)
+			added[tree.add(&prop.add.keyPackage.leafNode)] = struct{}{}
 		}
 	}
+	return added
 }
-- 
2.43.0


From 308f6354e0a3a1dab206bb171385eca5ff534d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:51:55 +0000
Subject: [PATCH 13/25] fix: verify the leaf nodes of add and update proposals

Only the key packages of add proposals were checked, and not the leaf node
inside: its signature, credential, extensions and the uniqueness of its
keys. Leaf nodes of update proposals weren't checked at all. Verify both
against the tree that results from the commit.
---
 group.go | 65 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 tree.go  |  5 +++++
 2 files changed, 70 insertions(+)

diff --git a/group.go b/group.go
index 40d74e0..58f8da0 100644
--- a/group.go
+++ b/group.go
@@ -1,6 +1,7 @@
 package mls
 
 import (
+	"bytes"
 	"crypto/rand"
 	"fmt"
 	"io"
@@ -467,6 +468,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 	newTree := group.tree.copy()
 	added := newTree.apply(proposals, senders)
+	if err := group.verifyNewLeaves(newTree, proposals, senders, added); err != nil {
+		return fmt.Errorf("failed to verify proposals: %v", err)
+	}
 
 	newPrivTree := make([]hpkePrivateKey, len(newTree))
 	for i := range group.tree {
@@ -578,6 +582,67 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	return nil
 }
 
+// verifyNewLeaves verifies the leaf nodes which have been added or updated by
+// proposals, relative to the ratchet tree after applying these proposals.
+//
+// Lifetimes are not checked.
+func (group *Group) verifyNewLeaves(newTree ratchetTree, proposals []proposal, senders []leafIndex, added map[leafIndex]struct{}) error {
+	newLeaves := make(map[leafIndex]struct{})
+	for li := range added {
+		newLeaves[li] = struct{}{}
+	}
+	for i, prop := range proposals {
+		if prop.proposalType != proposalTypeUpdate {
+			continue
+		}
+		if prop.update.leafNode.leafNodeSource != leafNodeSourceUpdate {
+			return fmt.Errorf("mls: update proposal contains a leaf node with an invalid source")
+		}
+		oldNode := group.tree.getLeaf(senders[i])
+		if oldNode == nil || bytes.Equal(oldNode.encryptionKey, prop.update.leafNode.encryptionKey) {
+			return fmt.Errorf("mls: update proposal doesn't change the encryption key")
+		}
+		newLeaves[senders[i]] = struct{}{}
+	}
+
+	oldLeaves := newTree.copy()
+	for li := range newLeaves {
+		oldLeaves.set(li.nodeIndex(), nil)
+	}
+	signatureKeys, encryptionKeys := oldLeaves.keys()
+	supportedCreds := newTree.supportedCreds()
+	for li := leafIndex(0); li < leafIndex(newTree.numLeaves()); li++ {
+		node := newTree.getLeaf(li)
+		if node == nil {
+			continue
+		}
+		if _, ok := supportedCreds[node.credential.credentialType]; !ok {
+			return fmt.Errorf("mls: credential type %v not supported by all members", node.credential.credentialType)
+		}
+		if _, ok := newLeaves[li]; !ok {
+			continue
+		}
+
+		err := node.verify(&leafNodeVerifyOptions{
+			cipherSuite:    group.groupContext.cipherSuite,
+			groupID:        group.groupContext.groupID,
+			leafIndex:      li,
+			supportedCreds: supportedCreds,
+			signatureKeys:  signatureKeys,
+			encryptionKeys: encryptionKeys,
+			now:            func() time.Time { return time.Time{} },
+		})
+		if err != nil {
+			return fmt.Errorf("leaf node at index %v: %v", li, err)
+		}
+
+		signatureKeys[string(node.signatureKey)] = struct{}{}
+		encryptionKeys[string(node.encryptionKey)] = struct{}{}
+	}
+
+	return nil
+}
+
 func resolveProposals(proposalOrRefs []proposalOrRef, senderLeafIndex leafIndex, pendingProposals []pendingProposal) ([]proposal, []leafIndex, error) {
 	var (
 		proposals []proposal
diff --git a/tree.go b/tree.go
index 091e714..c027929 100644
--- a/tree.go
+++ b/tree.go
@@ -777,6 +777,11 @@ func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{
 		signatureKeys[string(node.signatureKey)] = struct{}{}
 		encryptionKeys[string(node.encryptionKey)] = struct{}{}
 	}
+	for _, node := range tree {
+		if node != nil && node.nodeType == nodeTypeParent {
+			encryptionKeys[string(node.parentNode.encryptionKey)] = struct{}{}
+		}
+	}
 	return signatureKeys, encryptionKeys
 }
 
-- 
2.43.0


From da52fcb913526e1a904c9c69e58b41b1457e9ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:00 +0000
Subject: [PATCH 14/25] fix: reject update paths that use an encryption key
 twice

The keys of the path nodes must differ from each other and from the key
of the new leaf node.
---
 group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/group.go b/group.go
index 58f8da0..1e2e9d9 100644
--- a/group.go
+++ b/group.go
@@ -505,10 +505,12 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 			return fmt.Errorf("failed to verify leaf node: %v", err)
 		}
 
+		encryptionKeys[string(commit.path.leafNode.encryptionKey)] = struct{}{}
 		for _, updateNode := range commit.path.nodes {
 			if _, dup := encryptionKeys[string(updateNode.encryptionKey)]; dup {
 				return fmt.Errorf("mls: encryption key in update path already used in ratchet tree")
 			}
+			encryptionKeys[string(updateNode.encryptionKey)] = struct{}{}
 		}
 
 		if err := newTree.mergeUpdatePath(cs, senderLeafIndex, commit.path); err != nil {
-- 
2.43.0


From 6f8833d6ba459e8ca1b7f4c3141f1bb0eae8835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:20 +0000
Subject: [PATCH 15/25] fix: reject malformed HPKE public keys

A malformed encryption key in a key package, leaf node, update path or
ratchet tree makes later commits and invitations impossible, so check the
keys when they are received.
---
 ciphersuite.go | 10 ++++++++++
 group.go       |  3 +++
 key_package.go |  3 +++
 tree.go        |  6 ++++++
 4 files changed, 22 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index d0ef625..753aa85 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -256,6 +256,16 @@ func (cs CipherSuite) decryptWithLabel(privateKey hpkePrivateKey, label, context
 	return opener.Open(ciphertext, nil)
 }
 
+// verifyEncryptionKey checks that an HPKE public key is well-formed.
+func (cs CipherSuite) verifyEncryptionKey(publicKey hpkePublicKey) error {
+	kem, _, _ := cs.hpke().Params()
+	if len(publicKey) != kem.Scheme().PublicKeySize() {
+		return fmt.Errorf("mls: invalid HPKE public key size")
+	}
+	_, err := kem.Scheme().UnmarshalBinaryPublicKey(publicKey)
+	return err
+}
+
 func (cs CipherSuite) generateEncryptionKeyPair() (hpkePublicKey, hpkePrivateKey, error) {
 	kem, _, _ := cs.hpke().Params()
 	pub, priv, err := kem.Scheme().GenerateKeyPair()
diff --git a/group.go b/group.go
index 1e2e9d9..2145501 100644
--- a/group.go
+++ b/group.go
@@ -507,6 +507,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 		encryptionKeys[string(commit.path.leafNode.encryptionKey)] = struct{}{}
 		for _, updateNode := range commit.path.nodes {
+			if err := cs.verifyEncryptionKey(updateNode.encryptionKey); err != nil {
+				return fmt.Errorf("mls: invalid encryption key in update path: %v", err)
+			}
 			if _, dup := encryptionKeys[string(updateNode.encryptionKey)]; dup {
 				return fmt.Errorf("mls: encryption key in update path already used in ratchet tree")
 			}
diff --git a/key_package.go b/key_package.go
index a65b97e..3a58776 100644
--- a/key_package.go
+++ b/key_package.go
@@ -133,6 +133,9 @@ func (pkg *KeyPackage) verify(ctx *groupContext) error {
 	if !pkg.verifySignature() {
 		return fmt.Errorf("mls: invalid key package signature")
 	}
+	if err := pkg.cipherSuite.verifyEncryptionKey(pkg.initKey); err != nil {
+		return fmt.Errorf("mls: invalid key package init key: %v", err)
+	}
 	if bytes.Equal(pkg.leafNode.encryptionKey, pkg.initKey) {
 		return fmt.Errorf("mls: key package encryption key and init key are identical")
 	}
diff --git a/tree.go b/tree.go
index c027929..cf51fbc 100644
--- a/tree.go
+++ b/tree.go
@@ -408,6 +408,9 @@ func (node *leafNode) verify(options *leafNodeVerifyOptions) error {
 	if !node.verifySignature(options.cipherSuite, options.groupID, li) {
 		return fmt.Errorf("mls: leaf node signature verification failed")
 	}
+	if err := options.cipherSuite.verifyEncryptionKey(node.encryptionKey); err != nil {
+		return fmt.Errorf("mls: invalid leaf node encryption key: %v", err)
+	}
 
 	// TODO: check required_capabilities group extension
 
@@ -868,6 +871,9 @@ func (tree ratchetTree) verifyIntegrity(ctx *groupContext, now func() time.Time)
 			}
 		}
 
+		if err := cs.verifyEncryptionKey(node.parentNode.encryptionKey); err != nil {
+			return fmt.Errorf("mls: invalid encryption key of the parent node at index %v: %v", p, err)
+		}
 		if _, dup := encryptionKeys[string(node.parentNode.encryptionKey)]; dup {
 			return fmt.Errorf("mls: duplicate encryption key in ratchet tree")
 		}
-- 
2.43.0


From 84e990e8c4f85fd74f112e857c0c6ad53467046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:44 +0000
Subject: [PATCH 16/25] fix: verify key packages before inviting their owners

An invitation for an invalid or expired key package, or for keys that are
already used in the group, is rejected by the other members. Refuse to
create it.
---
 group.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/group.go b/group.go
index 2145501..e7170a0 100644
--- a/group.go
+++ b/group.go
@@ -468,7 +468,8 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 	newTree := group.tree.copy()
 	added := newTree.apply(proposals, senders)
-	if err := group.verifyNewLeaves(newTree, proposals, senders, added); err != nil {
+	disableLifetimeCheck := func() time.Time { return time.Time{} }
+	if err := group.verifyNewLeaves(newTree, proposals, senders, added, disableLifetimeCheck); err != nil {
 		return fmt.Errorf("failed to verify proposals: %v", err)
 	}
 
@@ -589,9 +590,7 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 
 // verifyNewLeaves verifies the leaf nodes which have been added or updated by
 // proposals, relative to the ratchet tree after applying these proposals.
-//
-// Lifetimes are not checked.
-func (group *Group) verifyNewLeaves(newTree ratchetTree, proposals []proposal, senders []leafIndex, added map[leafIndex]struct{}) error {
+func (group *Group) verifyNewLeaves(newTree ratchetTree, proposals []proposal, senders []leafIndex, added map[leafIndex]struct{}, now func() time.Time) error {
 	newLeaves := make(map[leafIndex]struct{})
 	for li := range added {
 		newLeaves[li] = struct{}{}
@@ -635,7 +634,7 @@ func (group *Group) verifyNewLeaves(newTree ratchetTree, proposals []proposal, s
 			supportedCreds: supportedCreds,
 			signatureKeys:  signatureKeys,
 			encryptionKeys: encryptionKeys,
-			now:            func() time.Time { return time.Time{} },
+			now:            now,
 		})
 		if err != nil {
 			return fmt.Errorf("leaf node at index %v: %v", li, err)
@@ -704,14 +703,24 @@ func (group *Group) CreateWelcome(keyPkgs []KeyPackage) (*Welcome, []byte, error
 		}
 	}
 
-	// TODO: check proposal list validity per section 12.2
+	senders := make([]leafIndex, len(proposals))
+	for i, keyPkg := range keyPkgs {
+		if err := keyPkg.verify(&group.groupContext); err != nil {
+			return nil, nil, fmt.Errorf("failed to verify key package: %v", err)
+		}
+		senders[i] = group.myLeafIndex
+	}
+
 	commit := commit{proposals: proposalOrRefs}
 
 	newGroupCtx := group.groupContext
 	newGroupCtx.epoch++
 
 	newTree := group.tree.copy()
-	newTree.apply(proposals, []leafIndex{group.myLeafIndex})
+	added := newTree.apply(proposals, senders)
+	if err := group.verifyNewLeaves(newTree, proposals, senders, added, time.Now); err != nil {
+		return nil, nil, fmt.Errorf("failed to verify key packages: %v", err)
+	}
 
 	// TODO: only recompute parts of the tree affected by proposals
 	var err error
-- 
2.43.0


From ff5af3750fbec660f2481755c5f4ca9cbd84a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:52:57 +0000
Subject: [PATCH 17/25] fix: reject commits with proposals that can't be
 applied

PSK, reinit and group context extensions proposals were silently ignored
when processing a commit, leaving the member in another state than what
the commit asks for.
---
 group.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/group.go b/group.go
index e7170a0..c31c7f1 100644
--- a/group.go
+++ b/group.go
@@ -457,6 +457,20 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		}
 	}
 
+	numPSKs := 0
+	for _, prop := range proposals {
+		switch prop.proposalType {
+		case proposalTypeReinit, proposalTypeGroupContextExtensions:
+			// TODO: support these proposals
+			return fmt.Errorf("mls: unsupported proposal type: %v", prop.proposalType)
+		case proposalTypePSK:
+			numPSKs++
+		}
+	}
+	if numPSKs != len(pskIDs) {
+		return fmt.Errorf("mls: commit has %v PSK proposals, but %v PSKs are available", numPSKs, len(pskIDs))
+	}
+
 	// TODO: additional proposal list checks
 
 	if proposalListNeedsPath(proposals) && commit.path == nil {
-- 
2.43.0


From a45b0490ce02f2a9b984307aeb5f8e4fdcf35030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:33 +0000
Subject: [PATCH 18/25] fix: use each message key once, and accept each private
 message once

Private messages were always encrypted with generation 0 of the ratchet,
so that all messages of an epoch used the same key. Receivers accepted
repeated messages and derived any number of generations on request. Keep
the ratchets of the current epoch: senders advance for each message, and
receivers remember which generations have been used and refuse to skip
too many at once. A message that fails to be processed uses no generation.
---
 group.go       | 101 +++++++++++++++++++++++++++++++++----------------
 secret_tree.go |  55 +++++++++++++++++++++++++++
 2 files changed, 123 insertions(+), 33 deletions(-)

diff --git a/group.go b/group.go
index c31c7f1..fceec0d 100644
--- a/group.go
+++ b/group.go
@@ -31,6 +31,10 @@ type Group struct {
 	signaturePriv signaturePrivateKey
 
 	pendingProposals []pendingProposal
+
+	// Ratchets of the current epoch, created when first needed
+	sendRatchets    map[string]*messageRatchet
+	receiveRatchets map[leafIndex]map[string]*messageRatchet
 }
 
 // CreateGroup creates a new group with a single member.
@@ -361,29 +365,23 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("mls: signer node is blank")
 	}
 
-	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
-	if err != nil {
-		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
+	ratchets := group.receiveRatchets[senderData.leafIndex]
+	if ratchets == nil {
+		ratchets = make(map[string]*messageRatchet)
+		if group.receiveRatchets == nil {
+			group.receiveRatchets = make(map[leafIndex]map[string]*messageRatchet)
+		}
+		group.receiveRatchets[senderData.leafIndex] = ratchets
 	}
-
-	secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+	ratchet, err := group.messageRatchet(ratchets, senderData.leafIndex, privMsg.contentType)
 	if err != nil {
-		return nil, fmt.Errorf("failed to erive secret tree: %v", err)
+		return nil, err
 	}
 
-	label := ratchetLabelFromContentType(privMsg.contentType)
-	secret, err := secretTree.deriveRatchetRoot(cs, senderData.leafIndex.nodeIndex(), label)
+	// TODO: erase the secrets of skipped generations at some point
+	secret, use, err := ratchet.get(cs, senderData.generation)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
-	}
-
-	// TODO: limit number of iterations
-	// TODO: erase knowledge about used generations to ensure forward secrecy
-	for secret.generation != senderData.generation {
-		secret, err = secret.deriveNext(cs)
-		if err != nil {
-			return nil, fmt.Errorf("failed to derive next ratchet secret: %v", err)
-		}
+		return nil, fmt.Errorf("failed to get ratchet secret: %v", err)
 	}
 
 	privContent, err := privMsg.decryptContent(cs, secret, senderData.reuseGuard)
@@ -396,17 +394,54 @@ func (group *Group) processPrivateMessage(privMsg *privateMessage) ([]byte, erro
 		return nil, fmt.Errorf("failed to verify private message content signature: %v", err)
 	}
 
+	var data []byte
 	switch authContent.content.contentType {
 	case contentTypeProposal:
-		return nil, group.processProposal(authContent)
+		err = group.processProposal(authContent)
 	case contentTypeCommit:
-		return nil, group.processCommit(authContent, nil, nil, nil)
+		err = group.processCommit(authContent, nil, nil, nil)
 	case contentTypeApplication:
-		return authContent.content.applicationData, nil
+		data = authContent.content.applicationData
 	default:
 		// TODO: support other content types
-		return nil, fmt.Errorf("mls: unsupported content type: %v", authContent.content.contentType)
+		err = fmt.Errorf("mls: unsupported content type: %v", authContent.content.contentType)
+	}
+	if err != nil {
+		return nil, err
 	}
+
+	use()
+	return data, nil
+}
+
+// messageRatchet returns the ratchet for the messages of a member in the
+// current epoch, and stores it in ratchets.
+func (group *Group) messageRatchet(ratchets map[string]*messageRatchet, li leafIndex, ct contentType) (*messageRatchet, error) {
+	cs := group.groupContext.cipherSuite
+
+	label := ratchetLabelFromContentType(ct)
+	if ratchet, ok := ratchets[string(label)]; ok {
+		return ratchet, nil
+	}
+
+	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
+	if err != nil {
+		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
+	}
+
+	secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+	if err != nil {
+		return nil, fmt.Errorf("failed to derive secret tree: %v", err)
+	}
+
+	secret, err := secretTree.deriveRatchetRoot(cs, li.nodeIndex(), label)
+	if err != nil {
+		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+	}
+
+	ratchet := &messageRatchet{head: secret}
+	ratchets[string(label)] = ratchet
+	return ratchet, nil
 }
 
 func (group *Group) processProposal(authContent *authenticatedContent) error {
@@ -598,6 +633,8 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 	group.pskSecret = newPSKSecret
 	group.epochSecret = newEpochSecret
 	group.initSecret = newInitSecret
+	group.sendRatchets = nil
+	group.receiveRatchets = nil
 	group.pendingProposals = nil // TODO: only clear proposals we've consumed
 	return nil
 }
@@ -896,25 +933,22 @@ func (group *Group) CreateApplicationMessage(data []byte) ([]byte, error) {
 func (group *Group) encryptPrivateMessage(framedContent *framedContent, privContent *privateMessageContent) ([]byte, error) {
 	cs := group.groupContext.cipherSuite
 
-	senderData, err := newSenderData(group.myLeafIndex, 0) // TODO: set generation > 0
-	if err != nil {
-		return nil, fmt.Errorf("failed to create sender data: %v", err)
+	if group.sendRatchets == nil {
+		group.sendRatchets = make(map[string]*messageRatchet)
 	}
-
-	encryptionSecret, err := cs.deriveSecret(group.epochSecret, secretLabelEncryption)
+	ratchet, err := group.messageRatchet(group.sendRatchets, group.myLeafIndex, framedContent.contentType)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive encryption secret: %v", err)
+		return nil, err
 	}
 
-	secretTree, err := deriveSecretTree(cs, group.tree.numLeaves(), encryptionSecret)
+	secret, use, err := ratchet.get(cs, ratchet.head.generation)
 	if err != nil {
-		return nil, fmt.Errorf("failed to erive secret tree: %v", err)
+		return nil, fmt.Errorf("failed to get ratchet secret: %v", err)
 	}
 
-	label := ratchetLabelFromContentType(framedContent.contentType)
-	secret, err := secretTree.deriveRatchetRoot(cs, group.myLeafIndex.nodeIndex(), label)
+	senderData, err := newSenderData(group.myLeafIndex, secret.generation)
 	if err != nil {
-		return nil, fmt.Errorf("failed to derive secret ratchet tree root: %v", err)
+		return nil, fmt.Errorf("failed to create sender data: %v", err)
 	}
 
 	senderDataSecret, err := cs.deriveSecret(group.epochSecret, secretLabelSenderData)
@@ -936,6 +970,7 @@ func (group *Group) encryptPrivateMessage(framedContent *framedContent, privCont
 		return nil, fmt.Errorf("failed to marshal private message: %v", err)
 	}
 
+	use()
 	return rawMsg, nil
 }
 
diff --git a/secret_tree.go b/secret_tree.go
index e8e7494..50a54be 100644
--- a/secret_tree.go
+++ b/secret_tree.go
@@ -1,6 +1,9 @@
 package mls
 
 import (
+	"fmt"
+	"math"
+
 	"golang.org/x/crypto/cryptobyte"
 )
 
@@ -108,6 +111,58 @@ func (secret ratchetSecret) deriveNext(cs CipherSuite) (ratchetSecret, error) {
 	return ratchetSecret{next, secret.generation + 1}, err
 }
 
+// maxRatchetSkip is the maximum number of generations a received message may
+// be ahead of the messages received before.
+const maxRatchetSkip = 1024
+
+// messageRatchet tracks which generations of a ratchet have been used.
+type messageRatchet struct {
+	head    ratchetSecret            // first generation which hasn't been reached
+	skipped map[uint32]ratchetSecret // unused generations before head
+}
+
+// get returns the secret for a generation which hasn't been used yet. The
+// caller must call use to mark the generation as used.
+func (ratchet *messageRatchet) get(cs CipherSuite, generation uint32) (secret ratchetSecret, use func(), err error) {
+	if generation < ratchet.head.generation {
+		secret, ok := ratchet.skipped[generation]
+		if !ok {
+			return ratchetSecret{}, nil, fmt.Errorf("mls: generation %v has already been used", generation)
+		}
+		return secret, func() {
+			delete(ratchet.skipped, generation)
+		}, nil
+	}
+
+	if generation-ratchet.head.generation > maxRatchetSkip || generation == math.MaxUint32 {
+		return ratchetSecret{}, nil, fmt.Errorf("mls: generation %v is too far ahead", generation)
+	}
+
+	var skipped []ratchetSecret
+	secret = ratchet.head
+	for secret.generation != generation {
+		skipped = append(skipped, secret)
+		secret, err = secret.deriveNext(cs)
+		if err != nil {
+			return ratchetSecret{}, nil, err
+		}
+	}
+	next, err := secret.deriveNext(cs)
+	if err != nil {
+		return ratchetSecret{}, nil, err
+	}
+
+	return secret, func() {
+		if ratchet.skipped == nil {
+			ratchet.skipped = make(map[uint32]ratchetSecret)
+		}
+		for _, s := range skipped {
+			ratchet.skipped[s.generation] = s
+		}
+		ratchet.head = next
+	}, nil
+}
+
 func deriveTreeSecret(cs CipherSuite, secret, label []byte, generation uint32, length uint16) ([]byte, error) {
 	var b cryptobyte.Builder
 	b.AddUint32(generation)
-- 
2.43.0


From 290763b075f771c78b65a6ab1e2bb78d978132b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:27 +0000
Subject: [PATCH 19/25] fix: check the committer still supports the credentials
 in use

The new leaf node of an update path was checked against the capabilities
of the leaf node it replaces. Check all credential types in use against
the new ones.
---
 group.go |  9 ++++++---
 tree.go  | 15 +++++++++++++++
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/group.go b/group.go
index fceec0d..a7bdb41 100644
--- a/group.go
+++ b/group.go
@@ -569,6 +569,9 @@ func (group *Group) processCommit(authContent *authenticatedContent, pskIDs []pr
 		if err := newTree.mergeUpdatePath(cs, senderLeafIndex, commit.path); err != nil {
 			return fmt.Errorf("failed to merge update path in ratchet tree: %v", err)
 		}
+		if err := newTree.verifyCreds(); err != nil {
+			return err
+		}
 
 		newGroupCtx.treeHash, err = newTree.computeRootTreeHash(cs)
 		if err != nil {
@@ -666,14 +669,14 @@ func (group *Group) verifyNewLeaves(newTree ratchetTree, proposals []proposal, s
 	}
 	signatureKeys, encryptionKeys := oldLeaves.keys()
 	supportedCreds := newTree.supportedCreds()
+	if err := newTree.verifyCreds(); err != nil {
+		return err
+	}
 	for li := leafIndex(0); li < leafIndex(newTree.numLeaves()); li++ {
 		node := newTree.getLeaf(li)
 		if node == nil {
 			continue
 		}
-		if _, ok := supportedCreds[node.credential.credentialType]; !ok {
-			return fmt.Errorf("mls: credential type %v not supported by all members", node.credential.credentialType)
-		}
 		if _, ok := newLeaves[li]; !ok {
 			continue
 		}
diff --git a/tree.go b/tree.go
index cf51fbc..4ab11a0 100644
--- a/tree.go
+++ b/tree.go
@@ -769,6 +769,21 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 	return supportedCreds
 }
 
+// verifyCreds checks that all members support the credential types in use.
+func (tree ratchetTree) verifyCreds() error {
+	supportedCreds := tree.supportedCreds()
+	for li := leafIndex(0); li < leafIndex(tree.numLeaves()); li++ {
+		node := tree.getLeaf(li)
+		if node == nil {
+			continue
+		}
+		if _, ok := supportedCreds[node.credential.credentialType]; !ok {
+			return fmt.Errorf("mls: credential type %v not supported by all members", node.credential.credentialType)
+		}
+	}
+	return nil
+}
+
 func (tree ratchetTree) keys() (signatureKeys, encryptionKeys map[string]struct{}) {
 	signatureKeys = make(map[string]struct{})
 	encryptionKeys = make(map[string]struct{})
-- 
2.43.0


From e2bfa7769fa8b6c29d3683b290deef38036af3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:39 +0000
Subject: [PATCH 20/25] fix: count a credential type listed twice by a member
 only once

A member listing a credential type several times made up for members
which don't support it.
---
 tree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 4ab11a0..4e351d2 100644
--- a/tree.go
+++ b/tree.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"slices"
 	"time"
 
 	"golang.org/x/crypto/cryptobyte"
@@ -754,8 +755,10 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
-		for _, ct := range node.capabilities.credentials {
-			supportedCredsCount[ct]++
+		for i, ct := range node.capabilities.credentials {
+			if !slices.Contains(node.capabilities.credentials[:i], ct) {
+				supportedCredsCount[ct]++
+			}
 		}
 	}
 
-- 
2.43.0


From 74312add28b889692dfa9be9414631f4c1b4e3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:13:43 +0000
Subject: [PATCH 21/25] fix: reject secrets of the wrong length

A path secret shorter than the output of the KDF caused a panic, and the
end of a longer one was ignored.
---
 ciphersuite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciphersuite.go b/ciphersuite.go
index 753aa85..8afa809 100644
--- a/ciphersuite.go
+++ b/ciphersuite.go
@@ -177,6 +177,9 @@ func (cs CipherSuite) expandWithLabel(secret, label, context []byte, length uint
 	}
 
 	_, kdf, _ := cs.hpke().Params()
+	if len(secret) != kdf.ExtractSize() {
+		return nil, fmt.Errorf("mls: invalid secret length")
+	}
 	return kdf.Expand(secret, kdfLabel, uint(length)), nil
 }
 
-- 
2.43.0


From f76f6b99cb1431e1399dbd36b01366307b0fc3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:14:25 +0000
Subject: [PATCH 22/25] fix: don't keep references to the caller's buffers

Groups and credentials used the slices passed in by the application, and
NewMembers returned slices in use by the welcome message. Copy them, so
that the application can reuse its buffers.
---
 crypto.go |  3 ++-
 group.go  | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/crypto.go b/crypto.go
index 2aae887..6b0b36c 100644
--- a/crypto.go
+++ b/crypto.go
@@ -1,6 +1,7 @@
 package mls
 
 import (
+	"bytes"
 	"fmt"
 	"io"
 
@@ -34,7 +35,7 @@ type Credential struct {
 func NewBasicCredential(identity []byte) *Credential {
 	return &Credential{
 		credentialType: credentialTypeBasic,
-		identity:       identity,
+		identity:       bytes.Clone(identity),
 	}
 }
 
diff --git a/group.go b/group.go
index a7bdb41..a864d95 100644
--- a/group.go
+++ b/group.go
@@ -45,7 +45,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	tree.add(&keyPairPkg.Public.leafNode)
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[0] = keyPairPkg.Private.EncryptionKey
+	privTree[0] = bytes.Clone(keyPairPkg.Private.EncryptionKey)
 
 	treeHash, err := tree.computeRootTreeHash(cs)
 	if err != nil {
@@ -63,7 +63,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	groupCtx := groupContext{
 		version:                 keyPairPkg.Public.version,
 		cipherSuite:             keyPairPkg.Public.cipherSuite,
-		groupID:                 groupID,
+		groupID:                 bytes.Clone(groupID),
 		epoch:                   0,
 		treeHash:                treeHash,
 		confirmedTranscriptHash: confirmedTranscriptHash,
@@ -93,7 +93,7 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 		tree:                  tree,
 		privTree:              privTree,
 		myLeafIndex:           0,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         bytes.Clone(keyPairPkg.Private.SignatureKey),
 		groupContext:          groupCtx,
 		interimTranscriptHash: interimTranscriptHash,
 		pskSecret:             pskSecret,
@@ -204,7 +204,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 	}
 
 	privTree := make([]hpkePrivateKey, len(tree))
-	privTree[int(myLeafIndex.nodeIndex())] = keyPairPkg.Private.EncryptionKey
+	privTree[int(myLeafIndex.nodeIndex())] = bytes.Clone(keyPairPkg.Private.EncryptionKey)
 
 	if groupSecrets.pathSecret != nil {
 		nodeIndex := commonAncestor(myLeafIndex.nodeIndex(), groupInfo.signer.nodeIndex())
@@ -223,7 +223,7 @@ func groupFromSecrets(welcome *Welcome, keyPairPkg *KeyPairPackage, groupSecrets
 		initSecret:            initSecret,
 		myLeafIndex:           myLeafIndex,
 		privTree:              privTree,
-		signaturePriv:         keyPairPkg.Private.SignatureKey,
+		signaturePriv:         bytes.Clone(keyPairPkg.Private.SignatureKey),
 	}, nil
 }
 
@@ -1300,7 +1300,7 @@ func (w *Welcome) marshal(b *cryptobyte.Builder) {
 func (w *Welcome) NewMembers() []KeyPackageRef {
 	refs := make([]KeyPackageRef, len(w.secrets))
 	for i, sec := range w.secrets {
-		refs[i] = sec.newMember
+		refs[i] = bytes.Clone(sec.newMember)
 	}
 	return refs
 }
-- 
2.43.0


From 2446e0f2e508bc9df5c602561023a008613b9638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:15:46 +0000
Subject: [PATCH 23/25] fix: copy the leaf node when creating a group

The group kept a pointer to the leaf node inside of the application's key
package, and changed with it.
---
 group.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/group.go b/group.go
index a864d95..d39970a 100644
--- a/group.go
+++ b/group.go
@@ -42,7 +42,8 @@ func CreateGroup(groupID GroupID, keyPairPkg *KeyPairPackage) (*Group, error) {
 	cs := keyPairPkg.Public.cipherSuite
 
 	tree := make(ratchetTree, 1)
-	tree.add(&keyPairPkg.Public.leafNode)
+	leafNode := keyPairPkg.Public.leafNode
+	tree.add(&leafNode)
 
 	privTree := make([]hpkePrivateKey, len(tree))
 	privTree[0] = bytes.Clone(keyPairPkg.Private.EncryptionKey)
-- 
2.43.0


From 2749749524cc199e00fce154101e2710aa7afb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:56 +0000
Subject: [PATCH 24/25] fix: count the credential types of a leaf in linear
 time

The list of credential types comes from a peer. Looking for each entry among
all earlier ones takes many seconds for a list of a few megabytes.
---
 tree.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tree.go b/tree.go
index 4e351d2..fefd188 100644
--- a/tree.go
+++ b/tree.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"slices"
 	"time"
 
 	"golang.org/x/crypto/cryptobyte"
@@ -755,8 +754,10 @@ func (tree ratchetTree) supportedCreds() map[credentialType]struct{} {
 		}
 
 		numMembers++
-		for i, ct := range node.capabilities.credentials {
-			if !slices.Contains(node.capabilities.credentials[:i], ct) {
+		seen := make(map[credentialType]struct{})
+		for _, ct := range node.capabilities.credentials {
+			if _, dup := seen[ct]; !dup {
+				seen[ct] = struct{}{}
 				supportedCredsCount[ct]++
 			}
 		}
-- 
2.43.0


From f4b59c378607044b0c4eb8388db75b34675aba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:09 +0000
Subject: [PATCH 25/25] fix: resolve proposal references in linear time

Pending proposals and references come from peers. Searching all pending
proposals for each reference takes many seconds if there are many of both.
---
 group.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/group.go b/group.go
index d39970a..cf1a599 100644
--- a/group.go
+++ b/group.go
@@ -707,24 +707,22 @@ func resolveProposals(proposalOrRefs []proposalOrRef, senderLeafIndex leafIndex,
 		proposals []proposal
 		senders   []leafIndex
 	)
+	byRef := make(map[string]*pendingProposal, len(pendingProposals))
+	for i, pp := range pendingProposals {
+		byRef[string(pp.ref)] = &pendingProposals[i]
+	}
 	for _, propOrRef := range proposalOrRefs {
 		switch propOrRef.typ {
 		case proposalOrRefTypeProposal:
 			proposals = append(proposals, *propOrRef.proposal)
 			senders = append(senders, senderLeafIndex)
 		case proposalOrRefTypeReference:
-			var found bool
-			for _, pp := range pendingProposals {
-				if pp.ref.Equal(propOrRef.reference) {
-					found = true
-					proposals = append(proposals, *pp.proposal)
-					senders = append(senders, pp.sender)
-					break
-				}
-			}
-			if !found {
+			pp, ok := byRef[string(propOrRef.reference)]
+			if !ok {
 				return nil, nil, fmt.Errorf("mls: cannot find proposal reference: %v", propOrRef.reference)
 			}
+			proposals = append(proposals, *pp.proposal)
+			senders = append(senders, pp.sender)
 		}
 	}
 
-- 
2.43.0

