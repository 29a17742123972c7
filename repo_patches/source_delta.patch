From e45f2e954758402475448462cd1791411acd5704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 01/47] fix: make decryption independent of earlier decryptions

The lookup table is extended on its negative side from where that side
stopped, an unsigned decryption no longer answers a negative value found in
the table, and the mutex is released on every path.
---
 lib/crypto.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 9b85049..57c690f 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -23,6 +23,7 @@ const MaxHomomorphicInt int64 = 100000
 var PointToInt = concurrent.NewConcurrentMap()
 var currentGreatestM kyber.Point
 var currentGreatestInt int64
+var currentGreatestNegInt int64
 var mutex = sync.Mutex{}
 
 // PublishedSimpleAdditionProof contains the two added ciphervectors and the resulting ciphervector
@@ -324,9 +325,13 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 
 	//check if the point is already in the table
 	mutex.Lock()
+	defer mutex.Unlock()
 	decrypted, ok := PointToInt.Get(P.String())
 	if ok == nil && decrypted != nil {
-		mutex.Unlock()
+		if decrypted.(int64) < 0 && !checkNeg {
+			log.Error("out of bound encryption, negative value")
+			return 0, nil
+		}
 		return decrypted.(int64), nil
 	}
 
@@ -339,6 +344,11 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 	foundNeg := false
 	guess := currentGreatestM
 	guessInt := currentGreatestInt
+	// the negative side of the table may be behind the positive one
+	if checkNeg && currentGreatestNegInt < guessInt {
+		guessInt = currentGreatestNegInt
+		guess = SuiTe.Point().Mul(SuiTe.Scalar().SetInt64(guessInt), B)
+	}
 	guessNeg := SuiTe.Point().Null()
 	guessIntMinus := int64(0)
 
@@ -369,9 +379,13 @@ func discreteLog(P kyber.Point, checkNeg bool) (int64, error) {
 			foundPos = true
 		}
 	}
-	currentGreatestM = guess
-	currentGreatestInt = guessInt
-	mutex.Unlock()
+	if guessInt >= currentGreatestInt {
+		currentGreatestM = guess
+		currentGreatestInt = guessInt
+	}
+	if checkNeg {
+		currentGreatestNegInt = guessInt
+	}
 
 	if !foundPos && !foundNeg {
 		log.Error("out of bound encryption, bound is ", MaxHomomorphicInt)
-- 
2.43.0


From c1708019cc7b0492bb191435b48a1ddbbf79295e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 02/47] fix: SplitScalar leaves the caller's scalar unchanged

---
 lib/crypto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 57c690f..299744c 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -116,11 +116,12 @@ func GenKeys(n int) (kyber.Point, []kyber.Scalar, []kyber.Point) {
 // The sum of the returned slice of scalars equals the given `rootScalar`
 func SplitScalar(rootScalar kyber.Scalar, nbrSplits int) []kyber.Scalar {
 	allScalars := make([]kyber.Scalar, nbrSplits)
+	rest := rootScalar.Clone()
 	for i := range allScalars {
 		allScalars[i] = RandomScalarSlice(1)[0]
-		rootScalar = rootScalar.Sub(rootScalar, allScalars[i])
+		rest.Sub(rest, allScalars[i])
 	}
-	allScalars = append(allScalars, rootScalar)
+	allScalars = append(allScalars, rest)
 
 	return allScalars
 }
-- 
2.43.0


From 77d5b88e22fd014f3c902606296d45c736af5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:30 +0000
Subject: [PATCH 03/47] fix: Acum accepts empty vectors and never shares its
 operand's points

---
 lib/crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index 299744c..fb7b632 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -475,8 +475,8 @@ func (cv *CipherVector) Equal(cv2 *CipherVector) bool {
 
 // Acum adds all elements in a ciphervector
 func (cv *CipherVector) Acum() CipherText {
-	acum := (*cv)[0]
-	for i := 1; i < len(*cv); i++ {
+	acum := *NewCipherText()
+	for i := range *cv {
 		acum.Add(acum, (*cv)[i])
 	}
 	return acum
-- 
2.43.0


From a30c610e946b97a3a28b6bd0d2f98d21f7e175c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:03 +0000
Subject: [PATCH 04/47] fix: report malformed bytes with an error instead of a
 panic

---
 lib/crypto.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/lib/crypto.go b/lib/crypto.go
index fb7b632..5e6e966 100644
--- a/lib/crypto.go
+++ b/lib/crypto.go
@@ -595,8 +595,11 @@ func (cv *CipherVector) ToBytes() ([]byte, int, error) {
 
 // FromBytes converts a byte array to a CipherVector. Note that you need to create the (empty) object beforehand.
 func (cv *CipherVector) FromBytes(data []byte, length int) error {
+	cipherLength := CipherTextByteSize()
+	if length < 0 || len(data) != length*cipherLength {
+		return fmt.Errorf("invalid ciphervector: %d bytes for %d ciphertexts", len(data), length)
+	}
 	*cv = make(CipherVector, length)
-	cipherLength := 2 * SuiTe.PointLen()
 	for i, pos := 0, 0; i < length*cipherLength; i, pos = i+cipherLength, pos+1 {
 		ct := CipherText{}
 		if err := ct.FromBytes(data[i : i+cipherLength]); err != nil {
@@ -624,6 +627,9 @@ func (c *CipherText) ToBytes() ([]byte, error) {
 
 // FromBytes converts a byte array to a CipherText. Note that you need to create the (empty) object beforehand.
 func (c *CipherText) FromBytes(data []byte) error {
+	if len(data) != CipherTextByteSize() {
+		return fmt.Errorf("invalid ciphertext: %d bytes instead of %d", len(data), CipherTextByteSize())
+	}
 	(*c).K = SuiTe.Point()
 	(*c).C = SuiTe.Point()
 	pointLength := SuiTe.PointLen()
@@ -731,6 +737,9 @@ func FromBytesToAbstractPoints(target []byte) ([]kyber.Point, error) {
 	var err error
 	aps := make([]kyber.Point, 0)
 	pointLength := SuiTe.PointLen()
+	if len(target)%pointLength != 0 {
+		return nil, fmt.Errorf("invalid list of points: %d bytes is not a multiple of %d", len(target), pointLength)
+	}
 	for i := 0; i < len(target); i += pointLength {
 		ap := SuiTe.Point()
 		if err = ap.UnmarshalBinary(target[i : i+pointLength]); err != nil {
@@ -784,9 +793,22 @@ func ArrayCipherVectorToBytes(data []CipherVector) ([]byte, []byte, error) {
 
 // FromBytesToArrayCipherVector converts bytes to an array of CipherVector
 func FromBytesToArrayCipherVector(data []byte, cvLengthsByte []byte) ([]CipherVector, error) {
+	if len(cvLengthsByte)%4 != 0 {
+		return nil, fmt.Errorf("invalid lengths: %d bytes is not a multiple of 4", len(cvLengthsByte))
+	}
 	cvLengths := libunlynxtools.UnsafeCastBytesToInts(cvLengthsByte)
 	dataConverted := make([]CipherVector, len(cvLengths))
 	elementSize := CipherTextByteSize()
+	total := 0
+	for _, l := range cvLengths {
+		total += l * elementSize
+		if total > len(data) {
+			return nil, fmt.Errorf("invalid array of ciphervectors: %d bytes are too few", len(data))
+		}
+	}
+	if total != len(data) {
+		return nil, fmt.Errorf("invalid array of ciphervectors: %d bytes instead of %d", len(data), total)
+	}
 
 	var err error
 	mutex := sync.Mutex{}
-- 
2.43.0


From df767faad1ef8001e17d8cb5c236eb21acf2788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 05/47] fix: UnKey returns whole numbers

---
 lib/structs.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 0e1a733..4cdb28e 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -208,19 +208,17 @@ func Key(ga []int64) GroupingKey {
 // UnKey permits to go from a tag non-encrypted grouping attributes to grouping attributes
 func UnKey(gk GroupingKey) ([]int64, error) {
 	tab := make([]int64, 0)
-	count := 0
-	nbrString := make([]string, 1)
+	nbrString := ""
 	for _, a := range gk {
 		if a != ',' {
-			nbrString[0] = string(a)
+			nbrString += string(a)
 		} else {
-			key, err := strconv.Atoi(strings.Join(nbrString, ""))
+			key, err := strconv.ParseInt(nbrString, 10, 64)
 			if err != nil {
 				return nil, err
 			}
-			tab = append(tab, int64(key))
-			nbrString = make([]string, 1)
-			count++
+			tab = append(tab, key)
+			nbrString = ""
 		}
 	}
 	return tab, nil
-- 
2.43.0


From 5e382c852f3e9ee67db6fb7ddd17bdcacfb78937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 06/47] fix: decode the where tags of a ProcessResponseDet from
 their own bytes

---
 lib/structs.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/structs.go b/lib/structs.go
index 4cdb28e..9f62f76 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -410,12 +410,14 @@ func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pga
 	aab := data[gacbByteLength : gacbByteLength+aabByteLength]
 	pgaeb := data[gacbByteLength+aabByteLength : gacbByteLength+aabByteLength+pgaebByteLength]
 	dtbgb := data[gacbByteLength+aabByteLength+pgaebByteLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength]
-	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbgbLength+dtbwLength]
+	dtbw := data[gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength : gacbByteLength+aabByteLength+pgaebByteLength+dtbgbLength+dtbwLength]
 
 	(*crd).DetTagGroupBy = GroupingKey(string(dtbgb))
 	(*crd).DetTagWhere = make([]GroupingKey, 0)
-	for _, key := range strings.Split(string(dtbw), SEPARATOR) {
-		(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+	if len(dtbw) > 0 {
+		for _, key := range strings.Split(string(dtbw), SEPARATOR) {
+			(*crd).DetTagWhere = append((*crd).DetTagWhere, GroupingKey(key))
+		}
 	}
 	err := (*crd).PR.AggregatingAttributes.FromBytes(aab, aabLength)
 	if err != nil {
-- 
2.43.0


From d8d0b1f7fec6f35ccf3d1429fda219c0ef70f5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 07/47] fix: prove every tag addition of a list, not the first
 of each batch

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 09bea34..12f414d 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -209,10 +209,10 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 	var wg sync.WaitGroup
 	for i := 0; i < nbrProofsToCreate; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
-		go func(i int, c1 kyber.Point, s kyber.Scalar, c2 kyber.Point, r kyber.Point) {
+		go func(i int) {
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < nbrProofsToCreate); j++ {
-				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1, s, c2, r)
+				proofAux, tmpErr := DeterministicTagAdditionProofCreation(c1List[i+j], sList[i+j], c2List[i+j], rList[i+j])
 				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
@@ -221,7 +221,7 @@ func DeterministicTagAdditionListProofCreation(c1List []kyber.Point, sList []kyb
 				}
 				listProofs.List[i+j] = proofAux
 			}
-		}(i, c1List[i], sList[i], c2List[i], rList[i])
+		}(i)
 
 	}
 	wg.Wait()
-- 
2.43.0


From 3cec9b5f845ca140d11a7448603867bc763cf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 08/47] fix: compare points of a tag addition proof as group
 elements

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 12f414d..4066f81 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -3,7 +3,6 @@ package libunlynxdetertag
 import (
 	"fmt"
 	"math"
-	"reflect"
 	"sync"
 
 	"github.com/ldsec/unlynx/lib"
@@ -248,7 +247,7 @@ func DeterministicTagAdditionProofVerification(psap PublishedDDTAdditionProof) b
 	partProof = true
 
 	cv := libunlynx.SuiTe.Point().Add(psap.C1, psap.C2)
-	return partProof && reflect.DeepEqual(cv, psap.R)
+	return partProof && cv.Equal(psap.R)
 }
 
 // DeterministicTagAdditionListProofVerification verifies multiple deterministic tag addition proofs
-- 
2.43.0


From 7dd8d91685ce91062497754303808b47923814d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 09/47] fix: report errors of tagging proof creation

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 4066f81..5a0262b 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -101,7 +101,7 @@ func DeterministicTagCrListProofCreation(vBef, vAft libunlynx.CipherVector, K ky
 			defer wg.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(vBef)); j++ {
 				proofAux, tmpErr := DeterministicTagCrProofCreation(vBef[i+j], vAft[i+j], K, k, s)
-				if err != nil {
+				if tmpErr != nil {
 					mutex.Lock()
 					err = tmpErr
 					mutex.Unlock()
-- 
2.43.0


From 4755e2cbe6bfb337535290e79058b59a70cd6146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 10/47] fix: check the auxiliary point of a tagging proof

---
 lib/deterministic_tag/deterministic_tag_proofs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/deterministic_tag/deterministic_tag_proofs.go b/lib/deterministic_tag/deterministic_tag_proofs.go
index 5a0262b..064e061 100644
--- a/lib/deterministic_tag/deterministic_tag_proofs.go
+++ b/lib/deterministic_tag/deterministic_tag_proofs.go
@@ -133,6 +133,11 @@ func DeterministicTagCrProofVerification(prf PublishedDDTCreationProof, K, SB ky
 	ci2 := prf.CTaft.C
 	ciminus12 := prf.CTbef.C
 
+	// ciminus11Si has to be -s*ciminus11, and ci1 is proved to be s*ciminus11
+	if !prf.Ciminus11Si.Equal(libunlynx.SuiTe.Point().Neg(ci1)) {
+		return false
+	}
+
 	pval := map[string]kyber.Point{"B": B, "K": K, "ciminus11Si": prf.Ciminus11Si, "ciminus12": ciminus12, "ciminus11": ciminus11, "ci2": ci2, "ci1": ci1, "SB": SB}
 	verifier := predicate.Verifier(libunlynx.SuiTe, pval)
 	if err := proof.HashVerify(libunlynx.SuiTe, "proofTest", verifier, prf.Proof); err != nil {
-- 
2.43.0


From 65711c454635d49600903e5f602ef7dc366a99d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 11/47] fix: verify the announced share of add/remove proofs

---
 lib/add_rm/add_rm_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 817cafd..681b766 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -133,11 +133,11 @@ func AddRmListProofVerification(parp PublishedAddRmListProof, percent float64) b
 	results := make([]bool, nbrProofsToVerify)
 
 	var wg sync.WaitGroup
-	for i := 0; i < len(parp.List); i += libunlynx.VPARALLELIZE {
+	for i := 0; i < nbrProofsToVerify; i += libunlynx.VPARALLELIZE {
 		wg.Add(1)
 		go func(i int, krm kyber.Point, toadd bool) {
 			defer wg.Done()
-			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < len(parp.List); j++ {
+			for j := 0; j < libunlynx.VPARALLELIZE && (i+j) < nbrProofsToVerify; j++ {
 				results[i+j] = AddRmProofVerification(parp.List[i+j], krm, toadd)
 			}
 		}(i, parp.Krm, parp.ToAdd)
-- 
2.43.0


From fcfa649816f80ecf2eecc3149e4aa4920ecbcc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 12/47] fix: check the left components of an add/remove proof

---
 lib/add_rm/add_rm_proofs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/add_rm/add_rm_proofs.go b/lib/add_rm/add_rm_proofs.go
index 681b766..23dd29e 100644
--- a/lib/add_rm/add_rm_proofs.go
+++ b/lib/add_rm/add_rm_proofs.go
@@ -108,6 +108,11 @@ func AddRmListProofCreation(vBef, vAft libunlynx.CipherVector, K kyber.Point, k
 
 // AddRmProofVerification verifies an add/rm proof
 func AddRmProofVerification(cp PublishedAddRmProof, K kyber.Point, toAdd bool) bool {
+	// the left component stays the same
+	if !cp.CtAft.K.Equal(cp.CtBef.K) || !cp.RB.Equal(cp.CtBef.K) {
+		return false
+	}
+
 	predicate := createPredicateAddRm()
 	B := libunlynx.SuiTe.Point().Base()
 	c2 := libunlynx.SuiTe.Point()
-- 
2.43.0


From 01a2a022ad1540056c0692ad12d2a8811d1965fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 13/47] fix: a failing key switch proof no longer blocks the
 list proof creation

---
 lib/key_switch/key_switch_proofs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index ff5ae54..213dd40 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -82,10 +82,10 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg1.Add(1)
 		go func(i int) {
+			defer wg1.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				viBs[i+j] = libunlynx.SuiTe.Point().Mul(vis[i+j], libunlynx.SuiTe.Point().Base())
 			}
-			defer wg1.Done()
 		}(i)
 
 	}
@@ -100,6 +100,7 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 	for i := 0; i < len(viBs); i += libunlynx.VPARALLELIZE {
 		wg2.Add(1)
 		go func(i int, Q kyber.Point, k kyber.Scalar) {
+			defer wg2.Done()
 			for j := 0; j < libunlynx.VPARALLELIZE && (j+i < len(viBs)); j++ {
 				proofAux, tmpErr := KeySwitchProofCreation(K, Q, k, viBs[i+j], ks2s[i+j], rBNegs[i+j], vis[i+j])
 				if tmpErr != nil {
@@ -110,7 +111,6 @@ func KeySwitchListProofCreation(K, Q kyber.Point, k kyber.Scalar, ks2s, rBNegs [
 				}
 				plop.List[i+j] = proofAux
 			}
-			defer wg2.Done()
 		}(i, Q, k)
 
 	}
-- 
2.43.0


From 4f978f435b24bdf2a55699b696293c51052ed884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 14/47] fix: shuffle an empty list

---
 lib/shuffle/shuffle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index 2044f7a..99c8d54 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -18,6 +18,10 @@ func ShuffleSequence(inputList []libunlynx.CipherVector, g, h kyber.Point, preco
 	maxUint := ^uint(0)
 	maxInt := int(maxUint >> 1)
 
+	if len(inputList) == 0 {
+		return []libunlynx.CipherVector{}, []int{}, [][]kyber.Scalar{}
+	}
+
 	// number of elgamal pairs
 	NQ := len(inputList[0])
 	k := len(inputList) // number of clients
-- 
2.43.0


From c200fd1d1f2c5636234c1daf21ab08b1e8ddd896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 15/47] fix: inconsistent sizes make a shuffle proof invalid
 instead of crashing

---
 lib/shuffle/shuffle_proofs.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index e0873b0..808295b 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -45,12 +45,16 @@ type PublishedShufflingListProof struct {
 
 // ShuffleProofCreation creates a shuffle proof
 func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g, h kyber.Point, beta [][]kyber.Scalar, pi []int) (PublishedShufflingProof, error) {
+	k := len(originalList)
+	if k < 2 || k != len(shuffledList) || k != len(beta) || k != len(pi) {
+		return PublishedShufflingProof{}, fmt.Errorf("cannot prove a shuffle of %d rows into %d rows", k, len(shuffledList))
+	}
+
 	e, err := CipherVectorComputeE(h, originalList[0])
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
 
-	k := len(originalList)
 	// compress data for each line (each list) into one element
 	Xhat := make([]kyber.Point, k)
 	Yhat := make([]kyber.Point, k)
@@ -137,6 +141,11 @@ func ShuffleListProofCreation(originalList, shuffledList [][]libunlynx.CipherVec
 
 // ShuffleProofVerification verifies a shuffle proof
 func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) bool {
+	if len(psp.OriginalList) < 2 || len(psp.OriginalList) != len(psp.ShuffledList) {
+		log.Lvl1("-----------verify failed (inconsistent sizes)")
+		return false
+	}
+
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
-- 
2.43.0


From 56a1dadc9c183be202fe08776cda7f71dd7f6625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:17 +0000
Subject: [PATCH 16/47] fix: derive the shuffle proof coefficients from all
 published ciphertexts

---
 lib/shuffle/shuffle_proofs.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 808295b..490e98e 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -50,7 +50,11 @@ func ShuffleProofCreation(originalList, shuffledList []libunlynx.CipherVector, g
 		return PublishedShufflingProof{}, fmt.Errorf("cannot prove a shuffle of %d rows into %d rows", k, len(shuffledList))
 	}
 
-	e, err := CipherVectorComputeE(h, originalList[0])
+	seed, err := proofSeed(h, originalList, shuffledList)
+	if err != nil {
+		return PublishedShufflingProof{}, err
+	}
+	e, err := CipherVectorComputeE(seed, originalList[0])
 	if err != nil {
 		return PublishedShufflingProof{}, err
 	}
@@ -146,6 +150,11 @@ func ShuffleProofVerification(psp PublishedShufflingProof, seed kyber.Point) boo
 		return false
 	}
 
+	seed, err := proofSeed(seed, psp.OriginalList, psp.ShuffledList)
+	if err != nil {
+		log.Error(err)
+		return false
+	}
 	e, err := CipherVectorComputeE(seed, psp.OriginalList[0])
 	if err != nil {
 		log.Error(err)
@@ -226,6 +235,25 @@ func ShuffleListProofVerification(pslp PublishedShufflingListProof, seed kyber.P
 	return finalResult
 }
 
+// proofSeed derives the seed of a shuffle proof from all the data that the proof is about
+func proofSeed(h kyber.Point, lists ...[]libunlynx.CipherVector) (kyber.Point, error) {
+	key, err := h.MarshalBinary()
+	if err != nil {
+		return nil, err
+	}
+	hash := libunlynx.SuiTe.XOF(key)
+	for _, list := range lists {
+		data, lengths, err := libunlynx.ArrayCipherVectorToBytes(list)
+		if err != nil {
+			return nil, err
+		}
+		if _, err := hash.Write(append(lengths, data...)); err != nil {
+			return nil, err
+		}
+	}
+	return libunlynx.SuiTe.Point().Pick(hash), nil
+}
+
 // CipherVectorComputeE computes all the e's for a ciphervector based on a seed h
 func CipherVectorComputeE(h kyber.Point, cv libunlynx.CipherVector) ([]kyber.Scalar, error) {
 	var err error
-- 
2.43.0


From 2de3569dc033f9a3085633c63f067bd7aa007bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:00 +0000
Subject: [PATCH 17/47] fix: AddInClear aggregates responses without groups and
 filters on the where values

---
 lib/store/store.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 98bdc10..f91264c 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -172,6 +172,16 @@ func (s *Store) nextID() uint64 {
 	return uint64(s.lastID)
 }
 
+// hasZero tells whether one of the attributes is 0
+func hasZero(attributes map[string]int64) bool {
+	for _, v := range attributes {
+		if v == 0 {
+			return true
+		}
+	}
+	return false
+}
+
 // AddInClear permits to add non-encrypted DP responses
 func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 	dataMap := make(map[string][]int64)
@@ -185,14 +195,10 @@ func AddInClear(s []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 
 		//generate a unique tag and use it to aggregate the data
 		key := groupByClear + groupByEnc + whereClear + whereEnc
-		key = key[:len(key)-1]
 
-		// if the where matches (all 1s) -> filter responses
-		if len(elem.WhereClear) > 0 || len(elem.WhereEnc) > 0 {
-			if key[len(key)-1:] == "0" {
-				//discard these entries
-				continue
-			}
+		// if a where attribute does not match (it is 0) -> discard the response
+		if hasZero(elem.WhereClear) || hasZero(elem.WhereEnc) {
+			continue
 		}
 
 		cpy := make([]int64, 0)
-- 
2.43.0


From 1eb3423f630fb215b456d2930245dbebe1d946f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 18/47] fix: the store hands out every response once and never
 reuses its memory

---
 lib/store/store.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index f91264c..2a6410b 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -109,11 +109,16 @@ func (s *Store) HasNextDpResponse() bool {
 
 // PullDpResponses permits to get the received DP responses
 func (s *Store) PullDpResponses() []libunlynx.ProcessResponse {
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	result := s.DpResponses
 	for _, v := range s.DpResponsesAggr {
 		result = append(result, v)
 	}
-	s.DpResponses = s.DpResponses[:0] //clear table
+	// clear the tables, without reusing the memory of the responses handed out
+	s.DpResponses = nil
+	s.DpResponsesAggr = make(map[GroupingKeyTuple]libunlynx.ProcessResponse)
 	return result
 }
 
@@ -125,7 +130,7 @@ func (s *Store) PushShuffledProcessResponses(newShuffledProcessResponses []libun
 // PullShuffledProcessResponses gets shuffled process responses
 func (s *Store) PullShuffledProcessResponses() []libunlynx.ProcessResponse {
 	result := s.ShuffledProcessResponses
-	s.ShuffledProcessResponses = s.ShuffledProcessResponses[:0] //clear table
+	s.ShuffledProcessResponses = nil //clear table
 	return result
 }
 
@@ -297,7 +302,7 @@ func (s *Store) PushQuerierKeyEncryptedResponses(keySwitchedResponse []libunlynx
 // PullDeliverableResults gets the results.
 func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
 	results := s.DeliverableResults
-	s.DeliverableResults = s.DeliverableResults[:0]
+	s.DeliverableResults = nil
 
 	if diffPri {
 		for _, v := range results {
-- 
2.43.0


From d707a3a4b6a48ab8b473658101d0747e60c36083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 19/47] fix: add the requested noise to the delivered
 aggregates

---
 lib/store/store.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/store/store.go b/lib/store/store.go
index 2a6410b..422a598 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -269,6 +269,17 @@ func (s *Store) HasNextAggregatedFilteredResponses() bool {
 	return len(s.GroupedDeterministicFilteredResponses) > 0
 }
 
+// addNoise adds the noise to every aggregate of the responses
+func addNoise(responses []libunlynx.FilteredResponse, noise libunlynx.CipherText) {
+	for i, v := range responses {
+		noisy := make(libunlynx.CipherVector, len(v.AggregatingAttributes))
+		for j, aggr := range v.AggregatingAttributes {
+			noisy[j].Add(aggr, noise)
+		}
+		responses[i].AggregatingAttributes = noisy
+	}
+}
+
 // PullCothorityAggregatedFilteredResponses returns the local results of the grouping.
 func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise libunlynx.CipherText) []libunlynx.FilteredResponse {
 	aggregatedResults := make([]libunlynx.FilteredResponse, len(s.GroupedDeterministicFilteredResponses))
@@ -284,11 +295,7 @@ func (s *Store) PullCothorityAggregatedFilteredResponses(diffPri bool, noise lib
 	s.GroupedDeterministicFilteredResponses = make(map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
 
 	if diffPri {
-		for _, v := range aggregatedResults {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(aggregatedResults, noise)
 	}
 
 	return aggregatedResults
@@ -305,11 +312,7 @@ func (s *Store) PullDeliverableResults(diffPri bool, noise libunlynx.CipherText)
 	s.DeliverableResults = nil
 
 	if diffPri {
-		for _, v := range results {
-			for _, aggr := range v.AggregatingAttributes {
-				aggr.Add(aggr, noise)
-			}
-		}
+		addNoise(results, noise)
 	}
 
 	return results
-- 
2.43.0


From 662fe2bb251915712215817aff01f9e46b2005a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:40 +0000
Subject: [PATCH 20/47] fix: data providers may insert responses at the same
 time

---
 lib/store/store.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/store/store.go b/lib/store/store.go
index 422a598..f09a6f8 100644
--- a/lib/store/store.go
+++ b/lib/store/store.go
@@ -80,6 +80,9 @@ func (s *Store) InsertDpResponse(cr libunlynx.DpResponse, proofsB bool, groupBy,
 	clearWhr, newResp.WhereEnc = proccessParameters(whereStrings, cr.WhereClear, cr.WhereEnc, noEnc)
 	_, newResp.AggregatingAttributes = proccessParameters(sum, cr.AggregatingAttributesClear, cr.AggregatingAttributesEnc, false)
 
+	s.Mutex.Lock()
+	defer s.Mutex.Unlock()
+
 	if !noEnc {
 		s.DpResponses = append(s.DpResponses, newResp)
 	} else {
-- 
2.43.0


From 826642df4ca719251449a7619194e5671a390bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:22 +0000
Subject: [PATCH 21/47] fix: computing the expected result leaves the data set
 unchanged

---
 data/handle_data.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 913b07f..aeaceda 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -296,6 +296,15 @@ func joinMaps(a, b map[string]int64) map[string]int64 {
 	return concat
 }
 
+// multiplyMap returns a map with the values multiplied by a factor
+func multiplyMap(m map[string]int64, factor int64) map[string]int64 {
+	result := make(map[string]int64, len(m))
+	for k, v := range m {
+		result[k] = v * factor
+	}
+	return result
+}
+
 // ClearExpectedResult clears the map so that there are no where attributes
 func ClearExpectedResult(expectedResult []libunlynx.DpClearResponse) []libunlynx.DpClearResponse {
 	clearExpectedResult := make([]libunlynx.DpClearResponse, len(expectedResult))
@@ -323,12 +332,8 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 			//if we repeated data
 			if dataRepetitions > 1 {
-				for k := range elem.AggregatingAttributesClear {
-					elem.AggregatingAttributesClear[k] = elem.AggregatingAttributesClear[k] * int64(dataRepetitions)
-				}
-				for k := range elem.AggregatingAttributesEnc {
-					elem.AggregatingAttributesEnc[k] = elem.AggregatingAttributesEnc[k] * int64(dataRepetitions)
-				}
+				elem.AggregatingAttributesClear = multiplyMap(elem.AggregatingAttributesClear, int64(dataRepetitions))
+				elem.AggregatingAttributesEnc = multiplyMap(elem.AggregatingAttributesEnc, int64(dataRepetitions))
 			}
 
 			allData = append(allData, elem)
-- 
2.43.0


From 48fca97f8baba4c9085786bba7d71d547df613d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:22 +0000
Subject: [PATCH 22/47] fix: generate data covering all possible groups

---
 data/handle_data.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index aeaceda..f24e953 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -82,6 +82,7 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 
 	testData := make(map[string][]libunlynx.DpClearResponse)
 
+	groups := make([][]int64, 0)
 	if !randomGroups {
 		numElem := 1
 		for _, el := range numType {
@@ -89,7 +90,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 
 		if int64(numElem) == numEntries {
-			groups := make([][]int64, 0)
 			group := make([]int64, 0)
 			AllPossibleGroups(numType[:], group, 0, &groups)
 		} else {
@@ -97,7 +97,6 @@ func GenerateData(numDPs, numEntries, numEntriesFiltered, numGroupsClear, numGro
 		}
 	}
 
-	groups := make([][]int64, 0)
 	for i := int64(0); i < numDPs; i++ {
 		dpData := make([]libunlynx.DpClearResponse, numEntries)
 
-- 
2.43.0


From b4469850f5f543d81db495f12425290a231e6e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:22 +0000
Subject: [PATCH 23/47] fix: compare clear responses in both directions and
 with their multiplicities

---
 data/handle_data.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index f24e953..477f20a 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -350,26 +350,31 @@ func ComputeExpectedResult(testData map[string][]libunlynx.DpClearResponse, data
 
 // CompareClearResponses compares two DP ClearResponse arrays and returns true if they are the same or false otherwise
 func CompareClearResponses(x []libunlynx.DpClearResponse, y []libunlynx.DpClearResponse) bool {
-	var test bool
+	if len(x) != len(y) {
+		return false
+	}
+
+	used := make([]bool, len(y))
 	for _, i := range x {
-		test = false
-		for _, j := range y {
-			if (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
+		test := false
+		for k, j := range y {
+			if !used[k] && (reflect.DeepEqual(i.GroupByClear, j.GroupByClear) || (len(i.GroupByClear) == 0 && len(j.GroupByClear) == 0)) &&
 				(reflect.DeepEqual(i.GroupByEnc, j.GroupByEnc) || (len(i.GroupByEnc) == 0 && len(j.GroupByEnc) == 0)) &&
 				(reflect.DeepEqual(i.WhereClear, j.WhereClear) || (len(i.WhereClear) == 0 && len(j.WhereClear) == 0)) &&
 				(reflect.DeepEqual(i.WhereEnc, j.WhereEnc) || (len(i.WhereEnc) == 0 && len(j.WhereEnc) == 0)) &&
 				(reflect.DeepEqual(i.AggregatingAttributesClear, j.AggregatingAttributesClear) || (len(i.AggregatingAttributesClear) == 0 && len(j.AggregatingAttributesClear) == 0)) &&
 				(reflect.DeepEqual(i.AggregatingAttributesEnc, j.AggregatingAttributesEnc) || (len(i.AggregatingAttributesEnc) == 0 && len(j.AggregatingAttributesEnc) == 0)) {
 
+				used[k] = true
 				test = true
 				break
 			}
 		}
 
 		if !test {
-			break
+			return false
 		}
 	}
 
-	return test
+	return true
 }
-- 
2.43.0


From e93d00dde254767b295ed6bb0e20d6892604896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:22 +0000
Subject: [PATCH 24/47] fix: reading an empty data file returns no data
 provider

---
 data/handle_data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/data/handle_data.go b/data/handle_data.go
index 477f20a..ca2d574 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -272,7 +272,9 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 			})
 		}
 	}
-	testData[id] = container
+	if dataIn {
+		testData[id] = container
+	}
 
 	if err := scanner.Err(); err != nil {
 		return nil, err
-- 
2.43.0


From 570f6ea04c5ebe764c8a9f88554874c6529315f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:26 +0000
Subject: [PATCH 25/47] fix: a predicate that cannot be evaluated no longer
 crashes the server

---
 services/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index dddecc0..a0e75fc 100644
--- a/services/service.go
+++ b/services/service.go
@@ -893,7 +893,11 @@ func FilterResponses(pred string, whereQueryValues []libunlynx.WhereQueryAttribu
 
 		}
 		keep, err := expression.Evaluate(parameters)
-		if keep.(bool) {
+		if err != nil {
+			log.Error("could not evaluate the predicate: ", err)
+			return result
+		}
+		if satisfied, ok := keep.(bool); ok && satisfied {
 			result = append(result, libunlynx.FilteredResponseDet{DetTagGroupBy: v.DetTagGroupBy, Fr: libunlynx.FilteredResponse{GroupByEnc: v.PR.GroupByEnc, AggregatingAttributes: v.PR.AggregatingAttributes}})
 		}
 	}
-- 
2.43.0


From 1c52db4a9f67c6107d125eaa7fe635564e2d6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:56 +0000
Subject: [PATCH 26/47] fix: long noise lists terminate

---
 lib/differential_privacy/diff_privacy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/differential_privacy/diff_privacy.go b/lib/differential_privacy/diff_privacy.go
index 3c750e3..2e087fc 100644
--- a/lib/differential_privacy/diff_privacy.go
+++ b/lib/differential_privacy/diff_privacy.go
@@ -37,7 +37,8 @@ func GenerateNoiseValuesScale(n int64, mean, b, quanta, scale, limit float64) []
 	countOnes := 0
 	for int64(len(noise)) < n {
 		val := laplace.Pdf(float64(start))
-		rep := math.Ceil(val / quanta)
+		// even a value whose density is too small for a float64 occurs
+		rep := math.Max(1, math.Ceil(val/quanta))
 		count := 0
 		for i := 0; i < int(rep); i++ {
 			if start == 0 {
-- 
2.43.0


From facc1fcac24630f290268f82b07d6f1dd20ad704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:11 +0000
Subject: [PATCH 27/47] fix: parse whole query parameters, accept count and
 optional ones, report errors

---
 cmd/unlynx/client.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cmd/unlynx/client.go b/cmd/unlynx/client.go
index 7709fff..34b6e7f 100644
--- a/cmd/unlynx/client.go
+++ b/cmd/unlynx/client.go
@@ -61,6 +61,7 @@ func runUnLynx(c *cli.Context) {
 	log.ErrFatal(err, "Could not open group toml.")
 
 	sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal, err := parseQuery(el, sum, count, whereQueryValues, predicate, groupBy)
+	log.ErrFatal(err, "Could not parse the query.")
 
 	err = startQuery(el, proofs, sumFinal, countFinal, whereFinal, predicateFinal, groupByFinal)
 	log.ErrFatal(err)
@@ -94,9 +95,9 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		return nil, false, nil, "", nil, fmt.Errorf("wrong query! please check the sum, where and the predicate parameters")
 	}
 
-	sumRegex := "{s[0-9]+(,\\s*s[0-9]+)*}"
-	whereRegex := "{(w[0-9]+(,\\s*[0-9]+))*(,\\s*w[0-9]+(,\\s*[0-9]+))*}"
-	groupByRegex := "{g[0-9]+(,\\s*g[0-9]+)*}"
+	sumRegex := "^{(s[0-9]+|count)(, *(s[0-9]+|count))*}$"
+	whereRegex := "^{w[0-9]+, *[0-9]+(, *w[0-9]+, *[0-9]+)*}$"
+	groupByRegex := "^{g[0-9]+(, *g[0-9]+)*}$"
 
 	if !checkRegex(sum, sumRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the sum parameter(s)")
@@ -119,7 +120,8 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
-	if !checkRegex(where, whereRegex) {
+	// the where (like the predicate) and the groupBy parameters are optional
+	if where != "" && !checkRegex(where, whereRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the where parameter(s)")
 	}
 	where = strings.Replace(where, " ", "", -1)
@@ -144,13 +146,16 @@ func parseQuery(el *onet.Roster, sum string, count bool, where, predicate, group
 		}
 	}
 
-	if !checkRegex(groupBy, groupByRegex) {
+	if groupBy != "" && !checkRegex(groupBy, groupByRegex) {
 		return nil, false, nil, "", nil, fmt.Errorf("error parsing the groupBy parameter(s)")
 	}
 	groupBy = strings.Replace(groupBy, " ", "", -1)
 	groupBy = strings.Replace(groupBy, "{", "", -1)
 	groupBy = strings.Replace(groupBy, "}", "", -1)
-	groupByFinal := strings.Split(groupBy, ",")
+	groupByFinal := make([]string, 0)
+	if groupBy != "" {
+		groupByFinal = strings.Split(groupBy, ",")
+	}
 
 	return sumFinal, count, whereFinal, predicate, groupByFinal, nil
 }
-- 
2.43.0


From 190dd4cbee34bf4fb056146c572e35c9b93d5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:32 +0000
Subject: [PATCH 28/47] fix: a precomputation file of another key or size is
 replaced

---
 lib/shuffle/shuffle.go | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lib/shuffle/shuffle.go b/lib/shuffle/shuffle.go
index 99c8d54..85dc238 100644
--- a/lib/shuffle/shuffle.go
+++ b/lib/shuffle/shuffle.go
@@ -103,6 +103,9 @@ func rerandomize(cv libunlynx.CipherVector, a, b kyber.Scalar, cipher libunlynx.
 // Precomputation
 //______________________________________________________________________________________________________________________
 
+// nbrPrecomputedLines is the number of lines that are precomputed for a survey
+const nbrPrecomputedLines = 10
+
 // CreatePrecomputedRandomize creates precomputed values for shuffling using public key and size parameters
 func CreatePrecomputedRandomize(g, h kyber.Point, rand cipher.Stream, lineSize, nbrLines int) []CipherVectorScalar {
 	result := make([]CipherVectorScalar, nbrLines)
@@ -139,7 +142,7 @@ func PrecomputeForShuffling(serverName, gobFile string, surveySecret kyber.Scala
 		return nil, err
 	}
 
-	precomputeShuffle := CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), collectiveKey, libunlynx.SuiTe.XOF(scalarBytes), lineSize*2, 10)
+	precomputeShuffle := CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), collectiveKey, libunlynx.SuiTe.XOF(scalarBytes), lineSize*2, nbrPrecomputedLines)
 
 	encoded, err := EncodeCipherVectorScalar(precomputeShuffle)
 	if err != nil {
@@ -174,17 +177,42 @@ func PrecomputationWritingForShuffling(appFlag bool, gobFile, serverName string,
 			if err != nil {
 				return nil, err
 			}
+
+			// the file may have been written for another collective key or smaller lines
+			if !isPrecomputedFor(precomputeShuffle, collectiveKey, lineSize*2, nbrPrecomputedLines) {
+				precomputeShuffle, err = PrecomputeForShuffling(serverName, gobFile, surveySecret, collectiveKey, lineSize)
+				if err != nil {
+					return nil, err
+				}
+			}
 		}
 	} else {
 		scalarBytes, err := surveySecret.MarshalBinary()
 		if err != nil {
 			return nil, err
 		}
-		precomputeShuffle = CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), collectiveKey, libunlynx.SuiTe.XOF(scalarBytes), lineSize*2, 10)
+		precomputeShuffle = CreatePrecomputedRandomize(libunlynx.SuiTe.Point().Base(), collectiveKey, libunlynx.SuiTe.XOF(scalarBytes), lineSize*2, nbrPrecomputedLines)
 	}
 	return precomputeShuffle, nil
 }
 
+// isPrecomputedFor checks that there are enough precomputed lines, with enough elements, for the given key.
+// All the elements of a precomputation are created for the same key.
+func isPrecomputedFor(precomputed []CipherVectorScalar, collectiveKey kyber.Point, lineSize, nbrLines int) bool {
+	if len(precomputed) < nbrLines {
+		return false
+	}
+	for _, line := range precomputed {
+		if len(line.S) < lineSize || len(line.CipherV) != len(line.S) {
+			return false
+		}
+		if len(line.S) > 0 && !line.CipherV[0].C.Equal(libunlynx.SuiTe.Point().Mul(line.S[0], collectiveKey)) {
+			return false
+		}
+	}
+	return true
+}
+
 // ReadPrecomputedFile reads the precomputation data from a .gob file
 func ReadPrecomputedFile(fileName string) ([]CipherVectorScalar, error) {
 	if _, err := os.Stat(fileName); !os.IsNotExist(err) {
-- 
2.43.0


From 1006d6065b942705fed4e9c5b909deb1dd016b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:22 +0000
Subject: [PATCH 29/47] fix: a key switching root without children waits for
 its own contribution

---
 protocols/key_switching_protocol.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a774605..a8e3f4e 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -102,6 +102,7 @@ type KeySwitchingProtocol struct {
 
 	// Protocol root data
 	NodeContribution *libunlynx.CipherVector
+	startedChannel   chan struct{} // closed when the root computed its contribution
 
 	// Protocol state data
 	TargetOfSwitch  *libunlynx.CipherVector
@@ -121,6 +122,7 @@ func NewKeySwitchingProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, e
 	pap := &KeySwitchingProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan libunlynx.CipherVector),
+		startedChannel:   make(chan struct{}),
 	}
 
 	err := pap.RegisterChannel(&pap.DownChannel)
@@ -171,6 +173,7 @@ func (p *KeySwitchingProtocol) Start() error {
 		p.ProofFunc(p.Public(), *p.TargetPublicKey, p.Private(), ks2s, rBNegs, vis)
 	}
 	p.NodeContribution = &switchedCiphers
+	close(p.startedChannel)
 
 	data, err := libunlynx.AbstractPointsToBytes(initialTab)
 	if err != nil {
@@ -202,6 +205,13 @@ func (p *KeySwitchingProtocol) Dispatch() error {
 			p.ProofFunc(p.Public(), targetPublicKey, p.Private(), ks2s, rBNegs, vis)
 		}
 		p.NodeContribution = &switchedCiphers
+	} else {
+		// the root computes its contribution when the protocol starts
+		select {
+		case <-p.startedChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return fmt.Errorf(p.ServerIdentity().String() + " didn't start the protocol on time")
+		}
 	}
 
 	// 2. Ascending key switching phase
-- 
2.43.0


From f3b217df82a1994fcbee755aa63cb57c96d9fb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:02 +0000
Subject: [PATCH 30/47] fix: read the data of each child with its own lengths

---
 protocols/collective_aggregation_protocol.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 12e184d..0dfb404 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -211,18 +211,23 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	roundTotComput := libunlynx.StartTimer(p.Name() + "_CollectiveAggregation(ascendingAggregation)")
 
 	if !p.IsLeaf() {
-		length := make([]cadmbLengthStruct, 0)
+		// the lengths and the data of the children may arrive in a different order
+		lengths := make(map[onet.TreeNodeID]CADBLengthMessage)
 		for _, v := range <-p.LengthNodeChannel {
-			length = append(length, v)
+			lengths[v.TreeNode.ID] = v.CADBLengthMessage
 		}
 		datas := make([]childAggregatedDataBytesStruct, 0)
 		for _, v := range <-p.ChildDataChannel {
 			datas = append(datas, v)
 		}
 
-		for i, v := range length {
+		for _, data := range datas {
+			v, ok := lengths[data.TreeNode.ID]
+			if !ok {
+				return nil, fmt.Errorf("no lengths for the data of %v", data.ServerIdentity)
+			}
 			childrenContribution := ChildAggregatedDataMessage{}
-			err := childrenContribution.FromBytes(datas[i].Data, v.GacbLength, v.AabLength, v.DtbLength)
+			err := childrenContribution.FromBytes(data.Data, v.GacbLength, v.AabLength, v.DtbLength)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From cdd23149a738e709d5cc9768c9eb587fb6a5d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 31/47] fix: prove the aggregation of contributions of
 different lengths

---
 protocols/collective_aggregation_protocol.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 0dfb404..8131c90 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -237,10 +237,6 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 			for _, aggr := range childrenContribution.ChildData {
 				localAggr, ok := (*p.GroupedData)[aggr.DetTagGroupBy]
 
-				if p.Proofs {
-					aggr.FormatAggregationProofs(cvMap)
-				}
-
 				if ok {
 					if len(localAggr.AggregatingAttributes) != len(aggr.Fr.AggregatingAttributes) {
 						encZeros := make(libunlynx.CipherVector, int(math.Abs(float64(len(localAggr.AggregatingAttributes)-len(aggr.Fr.AggregatingAttributes)))))
@@ -251,6 +247,12 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 							aggr.Fr.AggregatingAttributes = append(aggr.Fr.AggregatingAttributes, encZeros...)
 						} else {
 							localAggr.AggregatingAttributes = append(localAggr.AggregatingAttributes, encZeros...)
+							if p.Proofs {
+								// the zeros are part of what is aggregated here
+								for e := range encZeros {
+									cvMap[aggr.DetTagGroupBy] = append(cvMap[aggr.DetTagGroupBy], libunlynx.CipherVector{encZeros[e]})
+								}
+							}
 						}
 					}
 					cv := libunlynx.NewCipherVector(len(localAggr.AggregatingAttributes))
@@ -260,6 +262,10 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 				} else {
 					localAggr = aggr.Fr
 				}
+
+				if p.Proofs {
+					aggr.FormatAggregationProofs(cvMap)
+				}
 				(*p.GroupedData)[aggr.DetTagGroupBy] = localAggr
 			}
 			libunlynx.EndTimer(roundComput)
-- 
2.43.0


From 066e5ae6cac6e385aeadcb1bc4aeecab768c9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 32/47] fix: give each instance of a local protocol its own
 result channel

---
 protocols/utils/addrm_server_protocol.go            | 10 ++++++----
 protocols/utils/local_aggregation_protocol.go       | 10 ++++++----
 protocols/utils/local_clear_aggregation_protocol.go | 10 ++++++----
 protocols/utils/proofs_verification_protocol.go     | 10 ++++++----
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/protocols/utils/addrm_server_protocol.go b/protocols/utils/addrm_server_protocol.go
index 9fbcc91..db51d79 100644
--- a/protocols/utils/addrm_server_protocol.go
+++ b/protocols/utils/addrm_server_protocol.go
@@ -34,6 +34,9 @@ type AddRmServerProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.CipherText
 
+	// Result of this instance, from Start to Dispatch
+	finalResult chan []libunlynx.CipherText
+
 	// Protocol state data
 	TargetOfTransformation []libunlynx.CipherText
 	KeyToRm                kyber.Scalar
@@ -46,13 +49,12 @@ func NewAddRmProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
 	pvp := &AddRmServerProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.CipherText),
+		finalResult:      make(chan []libunlynx.CipherText),
 	}
 
 	return pvp, nil
 }
 
-var finalResultAddrm = make(chan []libunlynx.CipherText)
-
 // Start is called at the root to start the execution of the Add/Rm protocol.
 func (p *AddRmServerProtocol) Start() error {
 
@@ -85,7 +87,7 @@ func (p *AddRmServerProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAddrm <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -95,7 +97,7 @@ func (p *AddRmServerProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.CipherText
 	select {
-	case finalResultMessage = <-finalResultAddrm:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_aggregation_protocol.go b/protocols/utils/local_aggregation_protocol.go
index 665cb3b..a93c596 100644
--- a/protocols/utils/local_aggregation_protocol.go
+++ b/protocols/utils/local_aggregation_protocol.go
@@ -23,8 +23,6 @@ func init() {
 // Protocol
 //______________________________________________________________________________________________________________________
 
-var finalResultAggr = make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse)
-
 // LocalAggregationProtocol is a struct holding the state of a protocol instance.
 type LocalAggregationProtocol struct {
 	*onet.TreeNodeInstance
@@ -32,6 +30,9 @@ type LocalAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 
+	// Result of this instance, from Start to Dispatch
+	finalResult chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.FilteredResponseDet
 	Proofs              bool
@@ -42,6 +43,7 @@ func NewLocalAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInstanc
 	pvp := &LocalAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
+		finalResult:      make(chan map[libunlynx.GroupingKey]libunlynx.FilteredResponse),
 	}
 	return pvp, nil
 }
@@ -75,7 +77,7 @@ func (p *LocalAggregationProtocol) Start() error {
 
 	libunlynx.EndTimer(roundProof)
 
-	finalResultAggr <- resultingMap
+	p.finalResult <- resultingMap
 
 	return nil
 }
@@ -86,7 +88,7 @@ func (p *LocalAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage map[libunlynx.GroupingKey]libunlynx.FilteredResponse
 	select {
-	case finalResultMessage = <-finalResultAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/local_clear_aggregation_protocol.go b/protocols/utils/local_clear_aggregation_protocol.go
index 9e73549..84fd658 100644
--- a/protocols/utils/local_clear_aggregation_protocol.go
+++ b/protocols/utils/local_clear_aggregation_protocol.go
@@ -29,6 +29,9 @@ type LocalClearAggregationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []libunlynx.DpClearResponse
 
+	// Result of this instance, from Start to Dispatch
+	finalResult chan []libunlynx.DpClearResponse
+
 	// Protocol state data
 	TargetOfAggregation []libunlynx.DpClearResponse
 }
@@ -38,19 +41,18 @@ func NewLocalClearAggregationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolIn
 	pvp := &LocalClearAggregationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []libunlynx.DpClearResponse),
+		finalResult:      make(chan []libunlynx.DpClearResponse),
 	}
 	return pvp, nil
 }
 
-var finalResultClearAggr = make(chan []libunlynx.DpClearResponse)
-
 // Start is called at the root to start the execution of the local clear aggregation.
 func (p *LocalClearAggregationProtocol) Start() error {
 	log.Lvl1(p.ServerIdentity(), "started a local clear aggregation protocol")
 	roundComput := libunlynx.StartTimer(p.Name() + "_LocalClearAggregation(START)")
 	result := libunlynxstore.AddInClear(p.TargetOfAggregation)
 	libunlynx.EndTimer(roundComput)
-	finalResultClearAggr <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -60,7 +62,7 @@ func (p *LocalClearAggregationProtocol) Dispatch() error {
 
 	var finalResultMessage []libunlynx.DpClearResponse
 	select {
-	case finalResultMessage = <-finalResultClearAggr:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
diff --git a/protocols/utils/proofs_verification_protocol.go b/protocols/utils/proofs_verification_protocol.go
index 7cbf169..07bc6c3 100644
--- a/protocols/utils/proofs_verification_protocol.go
+++ b/protocols/utils/proofs_verification_protocol.go
@@ -45,6 +45,9 @@ type ProofsVerificationProtocol struct {
 	// Protocol feedback channel
 	FeedbackChannel chan []bool
 
+	// Result of this instance, from Start to Dispatch
+	finalResult chan []bool
+
 	// Protocol state data
 	TargetOfVerification ProofsToVerify
 }
@@ -54,13 +57,12 @@ func NewProofsVerificationProtocol(n *onet.TreeNodeInstance) (onet.ProtocolInsta
 	pvp := &ProofsVerificationProtocol{
 		TreeNodeInstance: n,
 		FeedbackChannel:  make(chan []bool),
+		finalResult:      make(chan []bool),
 	}
 
 	return pvp, nil
 }
 
-var finalResult = make(chan []bool)
-
 // Start is called at the root to start the execution of the key switching.
 func (p *ProofsVerificationProtocol) Start() error {
 
@@ -101,7 +103,7 @@ func (p *ProofsVerificationProtocol) Start() error {
 	result[5] = libunlynxaggr.AggregationListProofVerification(p.TargetOfVerification.CollectiveAggregationProofs, 1.0)
 	libunlynx.EndTimer(collectiveAggrTime)
 
-	finalResult <- result
+	p.finalResult <- result
 	return nil
 }
 
@@ -111,7 +113,7 @@ func (p *ProofsVerificationProtocol) Dispatch() error {
 
 	var finalResultMessage []bool
 	select {
-	case finalResultMessage = <-finalResult:
+	case finalResultMessage = <-p.finalResult:
 	case <-time.After(libunlynx.TIMEOUT):
 		return fmt.Errorf(p.ServerIdentity().String() + " didn't get the <finalResultMessage> on time")
 	}
-- 
2.43.0


From 4d24187777f9b6beb2ea71bf0960a0eac43acd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 33/47] fix: do not overwrite the survey when a data provider
 sends its data

---
 services/service.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/services/service.go b/services/service.go
index a0e75fc..b303fc7 100644
--- a/services/service.go
+++ b/services/service.go
@@ -218,12 +218,9 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		if err := dr.FromDpResponseToSend(v); err != nil {
 			return err
 		}
+		// the store is shared by all copies of the survey
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-	err = s.putSurvey(resp.SurveyID, survey)
-	if err != nil {
-		return err
-	}
 
 	log.Lvl1(s.ServerIdentity(), " uploaded response data for survey ", resp.SurveyID)
 	return nil
-- 
2.43.0


From 7ec374633151d85fee5c25edbf46baf633e1f5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 34/47] fix: report the error of a protocol instead of crashing
 on a nil one

---
 services/service.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/services/service.go b/services/service.go
index b303fc7..2c1b663 100644
--- a/services/service.go
+++ b/services/service.go
@@ -603,12 +603,12 @@ func (s *Service) StartProtocol(name string, targetSurvey SurveyID) (onet.Protoc
 
 	go func(pname string) {
 		if tmpErr := pi.Dispatch(); tmpErr != nil {
-			log.Error("Error running Dispatch ->" + name + " :" + err.Error())
+			log.Error("Error running Dispatch ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 	go func(pname string) {
 		if tmpErr := pi.Start(); tmpErr != nil {
-			log.Error("Error running Start ->" + name + " :" + err.Error())
+			log.Error("Error running Start ->" + name + " :" + tmpErr.Error())
 		}
 	}(name)
 
-- 
2.43.0


From d9e79c27437f35b912730a59eb5344db8f15f9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 35/47] fix: a submission with a malformed response is rejected
 as a whole

The responses before the malformed one were stored, and counted twice once the
data provider sent the corrected submission.
---
 services/service.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/services/service.go b/services/service.go
index 2c1b663..b478823 100644
--- a/services/service.go
+++ b/services/service.go
@@ -213,11 +213,14 @@ func (s *Service) PushData(resp *SurveyResponseQuery, proofs bool) error {
 		return err
 	}
 
-	for _, v := range resp.Responses {
-		dr := libunlynx.DpResponse{}
-		if err := dr.FromDpResponseToSend(v); err != nil {
+	// a submission is stored as a whole or not at all
+	responses := make([]libunlynx.DpResponse, len(resp.Responses))
+	for i, v := range resp.Responses {
+		if err := responses[i].FromDpResponseToSend(v); err != nil {
 			return err
 		}
+	}
+	for _, dr := range responses {
 		// the store is shared by all copies of the survey
 		survey.InsertDpResponse(dr, proofs, survey.Query.GroupBy, survey.Query.Sum, survey.Query.Where)
 	}
-- 
2.43.0


From 49d0adc76c26bec32172936abd90f78dff95081d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 36/47] fix: do not wait forever for the contribution of a
 child

The aggregation and key-switching protocols, unlike the others, had no timeout
on the messages of the children.
---
 protocols/collective_aggregation_protocol.go | 17 ++++++++++++-----
 protocols/key_switching_protocol.go          | 16 ++++++++++------
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 8131c90..014736b 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -213,12 +213,19 @@ func (p *CollectiveAggregationProtocol) ascendingAggregationPhase(cvMap map[libu
 	if !p.IsLeaf() {
 		// the lengths and the data of the children may arrive in a different order
 		lengths := make(map[onet.TreeNodeID]CADBLengthMessage)
-		for _, v := range <-p.LengthNodeChannel {
-			lengths[v.TreeNode.ID] = v.CADBLengthMessage
+		select {
+		case messages := <-p.LengthNodeChannel:
+			for _, v := range messages {
+				lengths[v.TreeNode.ID] = v.CADBLengthMessage
+			}
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <lengths> on time")
 		}
-		datas := make([]childAggregatedDataBytesStruct, 0)
-		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+		var datas []childAggregatedDataBytesStruct
+		select {
+		case datas = <-p.ChildDataChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <datas> on time")
 		}
 
 		for _, data := range datas {
diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index a8e3f4e..02582bb 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -264,14 +264,18 @@ func (p *KeySwitchingProtocol) ascendingKSPhase() (*libunlynx.CipherVector, erro
 	keySwitchingAscendingAggregation := libunlynx.StartTimer(p.Name() + "_KeySwitching(ascendingAggregation)")
 
 	if !p.IsLeaf() {
-		length := make([]LengthStruct, 0)
-		for _, v := range <-p.LengthChannel {
-			length = append(length, v)
+		var length []LengthStruct
+		select {
+		case length = <-p.LengthChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <length> on time")
 		}
 
-		datas := make([]UpBytesStruct, 0)
-		for _, v := range <-p.ChildDataChannel {
-			datas = append(datas, v)
+		var datas []UpBytesStruct
+		select {
+		case datas = <-p.ChildDataChannel:
+		case <-time.After(libunlynx.TIMEOUT):
+			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <datas> on time")
 		}
 		for i := range length { // len of length is number of children
 			cv := libunlynx.CipherVector{}
-- 
2.43.0


From d6fd432b27593d17d9f10c550c04e20a202faaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 37/47] fix: reject tagging messages of a wrong size

A message whose size is no multiple of an element crashed the server in a
goroutine; a message with too many elements crashed the root, and one with
too few made it deliver tags without a point.
---
 protocols/deterministic_tagging_protocol.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index a457f8c..7367ea4 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -253,6 +253,9 @@ func (p *DeterministicTaggingProtocol) Dispatch() error {
 
 	if p.IsRoot() {
 		detCreatedData := deterministicTaggingTarget.Data
+		if len(detCreatedData) != len(*p.TargetOfSwitch) {
+			return fmt.Errorf("got %d tags for %d elements", len(detCreatedData), len(*p.TargetOfSwitch))
+		}
 		TaggedData = make(libunlynx.DeterministCipherVector, len(*p.TargetOfSwitch))
 
 		for i, v := range detCreatedData {
@@ -383,6 +386,9 @@ func (dtm *DeterministicTaggingMessage) ToBytes() ([]byte, error) {
 // FromBytes converts a byte array to a DeterministicTaggingMessage. Note that you need to create the (empty) object beforehand.
 func (dtm *DeterministicTaggingMessage) FromBytes(data []byte) error {
 	elementSize := libunlynx.CipherTextByteSize()
+	if len(data)%elementSize != 0 {
+		return fmt.Errorf("invalid tagging message: %d bytes is not a multiple of %d", len(data), elementSize)
+	}
 	(*dtm).Data = make([]libunlynx.CipherText, len(data)/elementSize)
 
 	// iter over each value in the flatten data byte array
-- 
2.43.0


From c08e89a3fd5278eaee3203f886faec754af7824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 38/47] fix: reject key switching messages of a wrong size

An empty announcement or length and a contribution for another number of
ciphertexts made the server panic; the root is not protected against it.
---
 protocols/key_switching_protocol.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/protocols/key_switching_protocol.go b/protocols/key_switching_protocol.go
index 02582bb..9eb4ca6 100644
--- a/protocols/key_switching_protocol.go
+++ b/protocols/key_switching_protocol.go
@@ -254,6 +254,9 @@ func (p *KeySwitchingProtocol) announcementKSPhase() (kyber.Point, []kyber.Point
 	if err != nil {
 		return nil, nil, err
 	}
+	if len(message) == 0 {
+		return nil, nil, fmt.Errorf("no target public key in <dataReferenceMessage>")
+	}
 
 	return message[0], message[1:], nil
 }
@@ -278,11 +281,17 @@ func (p *KeySwitchingProtocol) ascendingKSPhase() (*libunlynx.CipherVector, erro
 			return nil, fmt.Errorf(p.ServerIdentity().String() + " didn't get the <datas> on time")
 		}
 		for i := range length { // len of length is number of children
+			if len(length[i].Length) != 4 {
+				return nil, fmt.Errorf("invalid length of the contribution of a child: %d bytes", len(length[i].Length))
+			}
 			cv := libunlynx.CipherVector{}
 			err := cv.FromBytes(datas[i].Data, libunlynxtools.UnsafeCastBytesToInts(length[i].Length)[0])
 			if err != nil {
 				return nil, err
 			}
+			if len(cv) != len(*p.NodeContribution) {
+				return nil, fmt.Errorf("got a contribution for %d instead of %d ciphertexts", len(cv), len(*p.NodeContribution))
+			}
 
 			sumCv := libunlynx.NewCipherVector(len(cv))
 			sumCv.Add(*p.NodeContribution, cv)
-- 
2.43.0


From 34387ebf89710265155b24ed86d7baddeb40deb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 39/47] fix: reject shuffle-and-tag messages of a wrong shape

A message without a shuffling key, or with another number of rows, made the
root panic or deliver rows that do not correspond to its data.
---
 protocols/shuffling+ddt_protocol.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 369d0ac..4dbad38 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -257,6 +257,9 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 
 	if p.IsRoot() {
 		prepareResult := libunlynx.StartTimer(p.Name() + "_ShufflingPlusDDT(PrepareResult)")
+		if err := checkRows(shuffledData, *p.TargetData); err != nil {
+			return err
+		}
 		taggedData = make([]libunlynx.DeterministCipherVector, len(*p.TargetData))
 		size := 0
 		for i, v := range shuffledData {
@@ -306,6 +309,24 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 	return nil
 }
 
+// checkRows checks that there are as many rows as expected, and as many of each length.
+func checkRows(rows, expected []libunlynx.CipherVector) error {
+	if len(rows) != len(expected) {
+		return fmt.Errorf("got %d rows instead of %d", len(rows), len(expected))
+	}
+	count := make(map[int]int)
+	for i := range rows {
+		count[len(rows[i])]++
+		count[len(expected[i])]--
+	}
+	for length, nbr := range count {
+		if nbr != 0 {
+			return fmt.Errorf("got a wrong number of rows of length %d", length)
+		}
+	}
+	return nil
+}
+
 // Sends the message msg to the next node in the circuit based on the next TreeNode in Tree.List().
 func (p *ShufflingPlusDDTProtocol) sendToNext(msg interface{}) error {
 	err := p.SendTo(p.nextNodeInCircuit, msg)
@@ -335,6 +356,9 @@ func (spddtm *ShufflingPlusDDTMessage) FromBytes(data []byte, shuffKey []byte, c
 	if err != nil {
 		return err
 	}
+	if len(dataP) != 1 {
+		return fmt.Errorf("got %d shuffling keys instead of 1", len(dataP))
+	}
 	(*spddtm).ShuffKey = dataP[0]
 	return nil
 }
-- 
2.43.0


From ea1486148033af797af8807a7b916c9039217db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 40/47] fix: do not deliver a shuffle with other rows than the
 target

The caller relies on the number and the lengths of the rows.
---
 protocols/shuffling_protocol.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocols/shuffling_protocol.go b/protocols/shuffling_protocol.go
index acc6fc7..4b05769 100644
--- a/protocols/shuffling_protocol.go
+++ b/protocols/shuffling_protocol.go
@@ -244,6 +244,9 @@ func (p *ShufflingProtocol) Dispatch() error {
 	shuffleTarget = shuffledData
 
 	if p.IsRoot() {
+		if err := checkRows(shuffleTarget, *p.ShuffleTarget); err != nil {
+			return err
+		}
 		log.Lvl1(p.ServerIdentity(), " completed shuffling (", len(shuffleTarget), " responses)")
 	} else {
 		log.Lvl1(p.ServerIdentity(), " carried on shuffling.")
-- 
2.43.0


From d06620ccf2d05b7c6cfa61b98c003a5815c766f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 41/47] fix: reject aggregated data that does not match the
 announced lengths

Wrong lengths made the server panic, or ignore data.
---
 protocols/collective_aggregation_protocol.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/protocols/collective_aggregation_protocol.go b/protocols/collective_aggregation_protocol.go
index 014736b..e059eac 100644
--- a/protocols/collective_aggregation_protocol.go
+++ b/protocols/collective_aggregation_protocol.go
@@ -405,9 +405,19 @@ func (sm *ChildAggregatedDataMessage) ToBytes() ([]byte, int, int, int, error) {
 // FromBytes converts a byte array to a ChildAggregatedDataMessage. Note that you need to create the (empty) object beforehand.
 func (sm *ChildAggregatedDataMessage) FromBytes(data []byte, gacbLength, aabLength, dtbLength int) error {
 	cipherTextSize := libunlynx.CipherTextByteSize()
+	if len(data) > 0 {
+		for _, length := range []int{gacbLength, aabLength, dtbLength} {
+			if length < 0 || length > len(data) {
+				return fmt.Errorf("invalid aggregated data: wrong length %d", length)
+			}
+		}
+	}
 	elementLength := gacbLength*cipherTextSize + aabLength*cipherTextSize + dtbLength
 
-	if elementLength != 0 && len(data) > 0 {
+	if len(data) > 0 {
+		if elementLength == 0 || len(data)%elementLength != 0 {
+			return fmt.Errorf("invalid aggregated data: %d bytes is not a multiple of %d", len(data), elementLength)
+		}
 		var nbrChildData int
 		nbrChildData = len(data) / elementLength
 
-- 
2.43.0


From 22f5805a3fe6f8f6b491b666dfd357ff32e08226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 42/47] fix: decoding a response returns an error when the size
 is wrong

It panicked when there were too few bytes or a length was negative, and
ignored the rest when there were too many.
---
 lib/structs.go | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/lib/structs.go b/lib/structs.go
index 9f62f76..66df907 100644
--- a/lib/structs.go
+++ b/lib/structs.go
@@ -2,6 +2,7 @@
 package libunlynx
 
 import (
+	"fmt"
 	"strconv"
 	"strings"
 
@@ -251,8 +252,32 @@ func (cv *FilteredResponse) ToBytes() ([]byte, int, int, error) {
 	return b, pgaebLength, aabLength, nil
 }
 
+// checkSize checks that data consists of the announced numbers of ciphertexts and one string of each announced length.
+func checkSize(data []byte, nbrCipherTexts, lengths []int) error {
+	total := 0
+	for _, n := range nbrCipherTexts {
+		if n < 0 || n > len(data) {
+			return fmt.Errorf("invalid data: wrong number of ciphertexts %d", n)
+		}
+		total += n * CipherTextByteSize()
+	}
+	for _, n := range lengths {
+		if n < 0 || n > len(data) {
+			return fmt.Errorf("invalid data: wrong length %d", n)
+		}
+		total += n
+	}
+	if total != len(data) {
+		return fmt.Errorf("invalid data: %d bytes instead of %d", len(data), total)
+	}
+	return nil
+}
+
 // FromBytes converts a byte array to a FilteredResponse. Note that you need to create the (empty) object beforehand.
 func (cv *FilteredResponse) FromBytes(data []byte, aabLength, pgaebLength int) error {
+	if err := checkSize(data, []int{aabLength, pgaebLength}, nil); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).GroupByEnc = make(CipherVector, pgaebLength)
 
@@ -291,6 +316,9 @@ func (crd *FilteredResponseDet) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a FilteredResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *FilteredResponseDet) FromBytes(data []byte, gacbLength, aabLength, dtbgbLength int) error {
+	if err := checkSize(data, []int{gacbLength, aabLength}, []int{dtbgbLength}); err != nil {
+		return err
+	}
 	(*crd).Fr.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).Fr.GroupByEnc = make(CipherVector, gacbLength)
 
@@ -346,6 +374,9 @@ func (cv *ProcessResponse) ToBytes() ([]byte, int, int, int, error) {
 
 // FromBytes converts a byte array to a ProcessResponse. Note that you need to create the (empty) object beforehand.
 func (cv *ProcessResponse) FromBytes(data []byte, gacbLength, aabLength, pgaebLength int) error {
+	if err := checkSize(data, []int{gacbLength, aabLength, pgaebLength}, nil); err != nil {
+		return err
+	}
 	(*cv).AggregatingAttributes = make(CipherVector, aabLength)
 	(*cv).WhereEnc = make(CipherVector, pgaebLength)
 	(*cv).GroupByEnc = make(CipherVector, gacbLength)
@@ -397,6 +428,9 @@ func (crd *ProcessResponseDet) ToBytes() ([]byte, int, int, int, int, int, error
 
 // FromBytes converts a byte array to a ProcessResponseDet. Note that you need to create the (empty) object beforehand.
 func (crd *ProcessResponseDet) FromBytes(data []byte, gacbLength, aabLength, pgaebLength, dtbgbLength, dtbwLength int) error {
+	if err := checkSize(data, []int{gacbLength, aabLength, pgaebLength}, []int{dtbgbLength, dtbwLength}); err != nil {
+		return err
+	}
 	(*crd).PR.AggregatingAttributes = make(CipherVector, aabLength)
 	(*crd).PR.WhereEnc = make(CipherVector, pgaebLength)
 	(*crd).PR.GroupByEnc = make(CipherVector, gacbLength)
-- 
2.43.0


From 42971c4a29e05c36fdf928907e760d0acec4fb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 43/47] fix: protocols without a survey secret key report an
 error instead of panicking

---
 protocols/deterministic_tagging_protocol.go | 4 ++++
 protocols/shuffling+ddt_protocol.go         | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/protocols/deterministic_tagging_protocol.go b/protocols/deterministic_tagging_protocol.go
index 7367ea4..e9593e4 100644
--- a/protocols/deterministic_tagging_protocol.go
+++ b/protocols/deterministic_tagging_protocol.go
@@ -168,6 +168,10 @@ func (p *DeterministicTaggingProtocol) Dispatch() error {
 		return err
 	}
 
+	if p.SurveySecretKey == nil {
+		return fmt.Errorf(p.ServerIdentity().String() + " has no survey secret key")
+	}
+
 	startT := time.Now()
 	toAdd := libunlynx.SuiTe.Point().Mul(*p.SurveySecretKey, libunlynx.SuiTe.Point().Base())
 
diff --git a/protocols/shuffling+ddt_protocol.go b/protocols/shuffling+ddt_protocol.go
index 4dbad38..0a5f7d4 100644
--- a/protocols/shuffling+ddt_protocol.go
+++ b/protocols/shuffling+ddt_protocol.go
@@ -116,6 +116,9 @@ func (p *ShufflingPlusDDTProtocol) Start() error {
 	if p.TargetData == nil {
 		return fmt.Errorf("no data is given")
 	}
+	if p.SurveySecretKey == nil {
+		return fmt.Errorf("no survey secret key given")
+	}
 	nbrSqCVs := len(*p.TargetData)
 	log.Lvl1("["+p.Name()+"]", " started a Shuffling+DDT Protocol (", nbrSqCVs, " responses)")
 
@@ -176,6 +179,10 @@ func (p *ShufflingPlusDDTProtocol) Dispatch() error {
 
 	libunlynx.EndTimer(readData)
 
+	if p.SurveySecretKey == nil {
+		return fmt.Errorf(p.ServerIdentity().String() + " has no survey secret key")
+	}
+
 	// STEP 1: Shuffling of the data
 	step1 := libunlynx.StartTimer(p.Name() + "_ShufflingPlusDDT(Step1-Shuffling)")
 	if p.Precomputed != nil {
-- 
2.43.0


From 25b8cf2677bc729cd15260877faf70198b05d61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:02 +0000
Subject: [PATCH 44/47] fix: read data files with lines of any length

---
 data/handle_data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data/handle_data.go b/data/handle_data.go
index ca2d574..624d794 100644
--- a/data/handle_data.go
+++ b/data/handle_data.go
@@ -228,6 +228,8 @@ func ReadDataFromFile(filename string) (map[string][]libunlynx.DpClearResponse,
 	var container []libunlynx.DpClearResponse
 
 	scanner := bufio.NewScanner(fileHandle)
+	// a line holds a whole list of values and can be of any length
+	scanner.Buffer(nil, math.MaxInt32)
 	for scanner.Scan() {
 		line := scanner.Text()
 		if len(line) > 0 && strings.Compare(string(line[0]), "#") == 0 {
-- 
2.43.0


From 4fe4b7f3f247159aa0034fac381187c017512c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:58 +0000
Subject: [PATCH 45/47] fix: report a survey that not all servers confirm

---
 services/service.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/services/service.go b/services/service.go
index b478823..6a218af 100644
--- a/services/service.go
+++ b/services/service.go
@@ -325,8 +325,14 @@ func (s *Service) HandleSurveyCreationQuery(recq *SurveyCreationQuery) (network.
 		}
 
 		counter := len(recq.Roster.List) - 1
+		timeout := time.After(libunlynx.TIMEOUT)
 		for counter > 0 {
-			counter = counter - (<-survey.SurveyChannel)
+			select {
+			case n := <-survey.SurveyChannel:
+				counter = counter - n
+			case <-timeout:
+				return nil, fmt.Errorf(s.ServerIdentity().String() + " didn't get the <QueryBroadcastFinished> of all servers on time")
+			}
 		}
 	}
 	return &ServiceState{recq.SurveyID}, nil
-- 
2.43.0


From 38c5bf59e1ac464437ebed4c395f65b37367d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 46/47] fix: reject key switch proofs with a wrong number of
 points

---
 lib/key_switch/key_switch_proofs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/key_switch/key_switch_proofs.go b/lib/key_switch/key_switch_proofs.go
index 213dd40..b8d717b 100644
--- a/lib/key_switch/key_switch_proofs.go
+++ b/lib/key_switch/key_switch_proofs.go
@@ -183,6 +183,9 @@ func (pksp *PublishedKSProof) FromBytes(pkspb PublishedKSProofBytes) error {
 	if err != nil {
 		return err
 	}
+	if len(data) != 5 {
+		return fmt.Errorf("invalid key switch proof: %d points", len(data))
+	}
 	KVibKs2RbnegQ := data
 	pksp.K = KVibKs2RbnegQ[0]
 	pksp.ViB = KVibKs2RbnegQ[1]
-- 
2.43.0


From 44730338a86117475e64311ac2cb93be2db29fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:37 +0000
Subject: [PATCH 47/47] fix: reject shuffle proofs with missing or malformed
 components

---
 lib/shuffle/shuffle_proofs.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/shuffle/shuffle_proofs.go b/lib/shuffle/shuffle_proofs.go
index 490e98e..07caabc 100644
--- a/lib/shuffle/shuffle_proofs.go
+++ b/lib/shuffle/shuffle_proofs.go
@@ -512,6 +512,12 @@ func (psp *PublishedShufflingProof) ToBytes() (PublishedShufflingProofBytes, err
 
 // FromBytes transforms bytes back to PublishedShufflingProof
 func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes) error {
+	for _, field := range []*[]byte{pspb.OriginalList, pspb.OriginalListLength, pspb.ShuffledList, pspb.ShuffledListLength, pspb.G, pspb.H} {
+		if field == nil {
+			return fmt.Errorf("invalid shuffle proof: a component is missing")
+		}
+	}
+
 	var err error
 	psp.OriginalList, err = libunlynx.FromBytesToArrayCipherVector(*pspb.OriginalList, *pspb.OriginalListLength)
 	if err != nil {
@@ -526,12 +532,18 @@ func (psp *PublishedShufflingProof) FromBytes(pspb PublishedShufflingProofBytes)
 	if err != nil {
 		return err
 	}
+	if len(g) != 1 {
+		return fmt.Errorf("invalid shuffle proof: %d points for G", len(g))
+	}
 	psp.G = g[0]
 
 	h, err := libunlynx.FromBytesToAbstractPoints(*pspb.H)
 	if err != nil {
 		return err
 	}
+	if len(h) != 1 {
+		return fmt.Errorf("invalid shuffle proof: %d points for H", len(h))
+	}
 	psp.H = h[0]
 	psp.HashProof = pspb.HashProof
 
-- 
2.43.0

