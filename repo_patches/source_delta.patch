From b65699a5dd0374fe9ac4a47cc0bca156cb898358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 01/10] fix: bind commitrx into the challenge of the
 non-negativity argument

The challenge left out commitrx, so a prover could choose it after learning
the challenge and make the value-opening equation hold for any commitment.
---
 primitive/fujiokam/FujiOkamCommitment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..4d81061 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -458,9 +458,10 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
 	commitrx, rrx := base.Commit(rx)
-	// e = hash(commitx, C, Cr)
+	// e = hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
@@ -496,9 +497,10 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
-	// e := hash(commitx, C, Cr)
+	// e := hash(commitx, commitrx, C, Cr)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
 	eBuf := h.Sum(nil)
-- 
2.43.0


From dcb3187aa1f4cc3d65b035744c23899563293d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:37 +0000
Subject: [PATCH 02/10] fix: bind both commitments into the challenge of the
 equality argument

The challenge covered only the first messages, so a prover could pick the
Fujisaki-Okamoto commitment after learning the challenge and have two
commitments to different values accepted as equal.
---
 primitive/pedersen_fujiokam/equality.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c20c8a6..a92a559 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -51,8 +51,11 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	T2 := fujiokamBase.CommitWithR(t1Raw, t3Raw)
 	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
+	// c := hash(PComm || FOComm || T1 || T2)
+	bytePComm, _ := PComm.MarshalBinary()
 	hash := suite.Hash()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
 	hash.Write(byteT1)
 	hash.Write(byteT2)
 	cBuf := hash.Sum(nil)
@@ -99,8 +102,11 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	T2.Mul(T2, tmp2)
 	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
+	// c := hash(PComm || FOComm || T1 || T2)
+	bytePComm, _ := PComm.MarshalBinary()
 	hash := pedersenBase.Suite.Hash()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
 	hash.Write(byteT1)
 	hash.Write(byteT2)
 	RSideBuf := hash.Sum(nil)
-- 
2.43.0


From ebbed9f557dd3cf3901eebf252c5ba2042729ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 03/10] fix: draw the one-time secret of every node signature
 from the secure random source

Suite.Cipher of a constant string yields the same nonce for every signature, which reveals the private key
---
 cmd/client/ClientLauncher.go    | 9 +++------
 cmd/coordinator/Coordinator.go  | 4 ++--
 cmd/server/AnonServerHandler.go | 3 +--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..335a2e4 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -76,8 +76,7 @@ func postBridge(bridgeAddr string) {
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
 	byteMsg = append([]byte(bridgeAddr), byteNym...)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	event := &proto.Event{EventType:proto.POST_BRIDGE, Params:params}
@@ -136,8 +135,7 @@ func requestBridges(ind int) {
 
 	// sign message
 	byteMsg := bridge.MessageOfRequestBridges(params)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	// send to coordinator
@@ -224,8 +222,7 @@ func sendVote(msgID, feedback int) {
 	}
 	msg := bridge.MessageOfVote(params)
 	// sign this message
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, msg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, msg, dissentClient.PrivateKey, dissentClient.G)
 
 	// send to coordinator
 	params["signature"] = sig
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..d89db6f 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -10,6 +10,7 @@ import (
 	"zRep/util"
 
 	"github.com/dedis/crypto/abstract"
+	"github.com/dedis/crypto/random"
 )
 
 type ClientTuple struct {
@@ -131,8 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	rand := c.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, c.Suite.Point())
 	return sig
 }
 
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..9ce8d6b 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,8 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		rand := anonServer.Suite.Cipher([]byte("example"))
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 87265a5267a6ad0e27a81e867946591e40fe3b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 04/10] fix: sign and verify under long-term keys with the
 suite generator, not the zero element

With base Suite().Point() (the residue 0) every recomputed commitment is 0, so anyone can forge these signatures
---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 2 +-
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..deef8e6 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -247,7 +247,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index d89db6f..eb68874 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -132,7 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..384f8a7 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -523,14 +523,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], nil)
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 9ce8d6b..cb49568 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,7 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 838f27a1820369804165778d1118c49bb362dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 05/10] fix: sign the feedback of a vote including its sign

big.Int.Bytes drops the sign, so the signature of a +1 vote was also valid for -1
---
 cmd/bridge/bridge.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..f38531c 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -119,8 +119,7 @@ func MessageOfVote(params map[string]interface{}) (msg []byte) {
 	msg = append(msg, params["assignment"].([]byte)...)
 	msg = append(msg, params["signatures"].([]byte)...)
 	feedback := params["feedback"].(int)
-	byteFeedback := big.NewInt(int64(feedback)).Bytes()
-	msg = append(msg, byteFeedback...)
+	msg = append(msg, util.IntToByte(feedback)...)
 	return
 }
 
-- 
2.43.0


From 713afc257d31b15f727a2a355af17f404d32119f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:29 +0000
Subject: [PATCH 06/10] fix: count a vote only when its feedback is 1 or -1

---
 cmd/coordinator/CoordinatorHandler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 384f8a7..a2fac0d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -540,6 +540,10 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	// record feedback
 	targetNym := assignment.Nym
 	feedback := params["feedback"].(int)
+	if feedback != 1 && feedback != -1 {
+		fmt.Println("[note] Feedback must be 1 or -1")
+		return
+	}
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
-- 
2.43.0


From 5ff4d16bac81242947ee02eacd07e304363147f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:32 +0000
Subject: [PATCH 07/10] fix: count the signature of a server for an assignment
 only once

A server that answered twice completed the signature list although another position was still empty
---
 cmd/coordinator/Coordinator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index eb68874..c9b3255 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -154,6 +154,10 @@ func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
 func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, sig []byte) {
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
+	if len(sig) == 0 || len(assignmentSigs[serverIndex]) != 0 {
+		// nothing to add, or this position has been counted already
+		return
+	}
 	assignmentSigs[serverIndex] = sig
 	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
-- 
2.43.0


From 0442e773b1a7b2eb8c915cd30b19ae8a17c2a2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:35 +0000
Subject: [PATCH 08/10] fix: deliver every assignment to its own requester

The requester of the first assignment of a reply was used for all of them
---
 cmd/coordinator/CoordinatorHandler.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index a2fac0d..d0601a5 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -375,8 +375,6 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
-	nymR := assignments[0].NymR
-	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
 
 	for i,assignment := range assignments {
 		sig := sigs[i]
@@ -403,6 +401,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			byteSig := anonCoordinator.SignMessage(msg)
 			pm["signature"] = byteSig
 			// send
+			requesterIP := anonCoordinator.RequesterAddrs[assignment.NymR.String()]
 			event := &proto.Event{EventType:proto.GOT_SIGNS, Params:pm}
 			util.SendEvent(anonCoordinator.LocalAddr, requesterIP, event)
 		}
-- 
2.43.0


From 7794fa6f153eec35728c8f1a5d878f197d38d896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 09/10] fix: reject ring signatures without exactly one
 response and one challenge per ring member

An extra challenge enters the sum but no commitment, so anyone can forge a signature for any ring
---
 primitive/lrs/LinkableRingSignature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 86397b6..b2cf589 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -189,6 +189,11 @@ func (base *LRSBase) Verify(m []byte, n int, pi int, sig *Signature, y []abstrac
 }
 
 func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*big.Int) bool {
+	// one response and one challenge per ring member, otherwise the sum below covers challenges that no commitment covers
+	if len(y) != n || len(sig.S) != n || len(sig.C) != n {
+		return false
+	}
+
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From d3670b4c9aab4af4f18134b3c8e1023673490209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:31 +0000
Subject: [PATCH 10/10] fix: shuffle verifier checks the vectors of the
 embedded simple shuffle

---
 util/shuffle/pair.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..6522771 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -275,6 +275,18 @@ func (ps *PairShuffle) Verify(
 		return err
 	}
 
+	// The simple shuffle must be a proof about the vectors R, S
+	// derived from the commitments above, not about any others.
+	for i := 0; i < k; i++ {
+		R := grp.Point().Mul(B[i], v4.Zlambda)
+		R.Add(p1.A[i], R)
+		S := grp.Point().Mul(p3.D[i], v4.Zlambda)
+		S.Add(p1.C[i], S)
+		if !R.Equal(ps.pv6.p0.X[i]) || !S.Equal(ps.pv6.p0.Y[i]) {
+			return errors.New("invalid PairShuffleProof")
+		}
+	}
+
 	// V step 7
 	Phi1 := grp.Point().Null()
 	Phi2 := grp.Point().Null()
-- 
2.43.0

