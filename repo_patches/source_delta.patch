From 32afeaee84d699ae20bb31a987497a6ee842393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:49 +0000
Subject: [PATCH 01/65] fix: reject compressed points whose x coordinate is not
 on the curve

ModSqrt returns nil for a non-residue; the result was ignored and a point off
the curve came back. Callers no longer slice a nil decompression result.
---
 eccset.go    | 15 ++++++++++++---
 secp256k1.go |  7 ++++++-
 secp256r1.go |  7 ++++++-
 sm2_std.go   |  7 ++++++-
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..3c3f393 100644
--- a/eccset.go
+++ b/eccset.go
@@ -431,7 +431,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
+			if point1 = PointDecompress(point1, typeChoose); point1 == nil {
+				return nil, FAILURE
+			}
+			point1 = point1[1:]
 		} else if len(point1) == 65 {
 			point1 = point1[1:]
 		} else if len(point1) != 64 {
@@ -439,7 +442,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 
 		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
+			if point2 = PointDecompress(point2, typeChoose); point2 == nil {
+				return nil, FAILURE
+			}
+			point2 = point2[1:]
 		} else if len(point2) == 65 {
 			point2 = point2[1:]
 		} else if len(point2) != 64 {
@@ -495,7 +501,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
+			if pointin = PointDecompress(pointin, typeChoose); pointin == nil {
+				return nil, FAILURE
+			}
+			pointin = pointin[1:]
 		} else if len(pointin) == 65 {
 			pointin = pointin[1:]
 		} else if len(pointin) != 64 {
diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..e1bd7fe 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -259,7 +259,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("x is not the coordinate of a curve point")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
@@ -322,6 +324,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
+		if buf1 == nil {
+			return nil, errors.New("invalid r value")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..55fabbc 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -56,7 +56,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("x is not the coordinate of a curve point")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
@@ -118,6 +120,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
+		if buf1 == nil {
+			return nil, errors.New("invalid r value")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..23c1b05 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1627,7 +1627,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("x is not the coordinate of a curve point")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
@@ -1691,6 +1693,9 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
+		if buf1 == nil {
+			return nil, errors.New("invalid r value")
+		}
 
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
-- 
2.43.0


From e0276ef9c54b1a83569c0ec9a2eab8c691e206cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:49 +0000
Subject: [PATCH 02/65] fix: RecoverPubkey handles r = 0 (mod n) and an
 all-zero message hash

---
 secp256k1.go | 4 ++++
 secp256r1.go | 4 ++++
 sm2_std.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index e1bd7fe..8f85558 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -297,6 +297,9 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256k1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid r value")
+	}
 
 	G.Curve = curve
 	G.X = curve.Gx
@@ -341,6 +344,7 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/secp256r1.go b/secp256r1.go
index 55fabbc..a691546 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -94,6 +94,9 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := secp256r1
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid r value")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -135,6 +138,7 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
diff --git a/sm2_std.go b/sm2_std.go
index 23c1b05..c2582c3 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1667,6 +1667,9 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 	curve := sm2_std
 
 	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	if r_inv == nil {
+		return nil, errors.New("invalid r value")
+	}
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -1710,6 +1713,7 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-- 
2.43.0


From 3e1b714996b3d1d9b43b3be51427246af7856ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:49 +0000
Subject: [PATCH 03/65] fix: SM2 point addition of two equal points returns the
 doubled point

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index c2582c3..2c89c9f 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -472,7 +472,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From f1357afcd63bb0f4c2474f13a42b913ee04e0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:50 +0000
Subject: [PATCH 04/65] fix: a sum with X = 0 is not the point at infinity

---
 ecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..9380f7f 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -380,7 +380,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 213141303b5139eead2f727d5c9e659134d620cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 05/65] fix: signature verification and SM2 encryption reject
 public keys off the curve

secp256r1 verification panicked on such keys; SM2 encryption is documented to
return ECC_PUBKEY_ILLEGAL.
---
 ecdsa.go | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/ecdsa.go b/ecdsa.go
index 9380f7f..9b12cf1 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -204,6 +204,10 @@ func verify(publicKey, ID, hash, signature []byte, name string) bool {
 		return false
 	}
 
+	if !isValidPoint(publicKey, name) {
+		return false
+	}
+
 	pubk := new(ecdsa.PublicKey)
 
 	if name == "secp256k1" {
@@ -233,6 +237,29 @@ func verify(publicKey, ID, hash, signature []byte, name string) bool {
 	return verifyesdsa(pubk, hash, r, s)
 }
 
+// isValidPoint reports whether point (X || Y) is a canonically encoded point of
+// the named curve other than infinity.
+func isValidPoint(point []byte, name string) bool {
+	if len(point) != 64 {
+		return false
+	}
+
+	var c elliptic.Curve
+	if name == "secp256k1" {
+		c = secp256k1
+	} else if name == "secp256r1" {
+		c = secp256r1
+	} else if name == "sm2_std" {
+		c = sm2_std
+	} else {
+		return false
+	}
+
+	x := new(big.Int).SetBytes(point[:32])
+	y := new(big.Int).SetBytes(point[32:])
+	return x.Cmp(c.Params().P) < 0 && y.Cmp(c.Params().P) < 0 && c.IsOnCurve(x, y)
+}
+
 func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	if name != "sm2_std" {
 		return nil, ErrUnknownCurve
@@ -246,6 +273,10 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 		return nil, ErrMessageIllegal
 	}
 
+	if !isValidPoint(pubkey, name) {
+		return nil, ErrPublicKeyIllegal
+	}
+
 	pubk := new(ecdsa.PublicKey)
 	pubk.Curve = sm2_std
 	pubk.X = new(big.Int).SetBytes(pubkey[:32])
-- 
2.43.0


From e721fbaee503479c8dc5b21ef2117e8dc1eb9459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:24 +0000
Subject: [PATCH 06/65] fix: point arithmetic rejects operands that are not
 curve points

Off-curve operands and operands of the wrong length panicked or produced
garbage with SUCCESS.
---
 eccset.go | 12 ++++++------
 ecdsa.go  |  9 +++++++++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/eccset.go b/eccset.go
index 3c3f393..dfe9743 100644
--- a/eccset.go
+++ b/eccset.go
@@ -455,21 +455,21 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -518,21 +518,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index 9b12cf1..b939c24 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -318,6 +318,9 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 }
 
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isValidPoint(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
@@ -384,6 +387,9 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 }
 
 func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
+	if !isValidPoint(point1, name) || !isValidPoint(point2, name) {
+		return nil, false
+	}
 	var curve *curveParam
 	var k1curve *secp256k1Curve
 	var sm2Curve *sm2_stdCurve
@@ -430,6 +436,9 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 }
 
 func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isValidPoint(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
-- 
2.43.0


From 33fbce3f8a0d6d9ca3ac8b93a59737d4a6479921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 07/65] fix: SM2 decryption reports failure when the integrity
 check fails

Errors other than three specific ones were reported as SUCCESS together with
the unauthenticated plaintext.
---
 eccset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eccset.go b/eccset.go
index dfe9743..99909b3 100644
--- a/eccset.go
+++ b/eccset.go
@@ -218,6 +218,9 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
@@ -245,6 +248,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 		return nil, ECC_WRONG_TYPE
 		break
 	}
+	if err != nil {
+		return nil, FAILURE
+	}
 
 	ret = SUCCESS
 	return
-- 
2.43.0


From e3209a29c121aaf6791e091fd82a391fdd880252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 08/65] fix: SM2 decryption validates the ciphertext and the
 private key

Short ciphertexts panicked, the format byte and C1 were not validated, and a
zero private key was accepted.
---
 ecdsa.go   | 2 +-
 sm2_std.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index b939c24..b37193a 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -306,7 +306,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index 2c89c9f..8eb7dad 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1229,6 +1229,9 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	if len(data) <= 97 || data[0] != 0x04 || !isValidPoint(data[1:65], "sm2_std") {
+		return nil, ErrMessageIllegal
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
-- 
2.43.0


From a22c59618f5c5a967072898363cf173d8af563e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 09/65] fix: SM2 signing rejects the private key n-1

1 + d has no inverse for d = n-1 and signing dereferenced nil.
---
 ecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index b37193a..ada2562 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -151,7 +151,7 @@ func sign(privateKey, ID, hash []byte, name string) ([]byte, byte, error) {
 	} else if name == "sm2_std" {
 		sm2Curve = sm2_std
 
-		if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+		if privateKeyBig.Cmp(new(big.Int).Sub(sm2Curve.Params().N, big.NewInt(1))) >= 0 {
 			return nil, 0, ErrPrivateKeyIllegal
 		}
 
-- 
2.43.0


From b23a87d8acf4c949dedb6291ea8291453cbad89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 10/65] fix: SM2 key agreement validates the static public keys

Missing or short static keys panicked and keys off the curve were accepted.
---
 sm2_std.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index 8eb7dad..2442b72 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1362,6 +1362,11 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 								Sin []byte,
 								keylen uint16,) (key, Sout []byte, err error){
 
+	if !isValidPoint(pubkeyInitiator, "sm2_std") || !isValidPoint(pubkeyResponder, "sm2_std") {
+		err = ErrPublicKeyIllegal
+		return
+	}
+
 	if tmpPubkeyResponder == nil || len(tmpPubkeyResponder) != 64 {
 		err = errors.New("invalid responder's tmp public key")
 		return
@@ -1475,6 +1480,11 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 								tmpPubkeyInitiator []byte,
 								random []byte,
 								keylen uint16) (key, tmpPubkeyResponder, Sinner, Souter []byte, err error){
+	if !isValidPoint(pubkeyInitiator, "sm2_std") || !isValidPoint(pubkeyResponder, "sm2_std") {
+		err = ErrPublicKeyIllegal
+		return
+	}
+
 	if tmpPubkeyInitiator == nil || len(tmpPubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator's tmp public key")
 		return
-- 
2.43.0


From 438cd4f3b839d520180ae4a7f609599c43c3d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 11/65] fix: SM2 key agreement returns keys of 8192 bytes and
 more in full length

The bit length was kept in 16 bits and wrapped around.
---
 sm2_std.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 2442b72..52629a6 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1265,7 +1265,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1451,7 +1451,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1587,7 +1587,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From 1e7ee71c05eadd91381dd595762e2a6299e3fec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 12/65] fix: SM2 key agreement withholds the key when the
 peer's confirmation fails

---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 52629a6..01d98d7 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1457,13 +1457,13 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 
 	if Sin == nil || len(Sin) != 32 || len(Sin) != len(s_check) {
 		err = errors.New("check failed")
-		return
+		return nil, nil, err
 	}
 
 	for i := 0; i < 32; i ++ {
 		if s_check[i] != Sin[i] {
 			err = errors.New("check failed")
-			return
+			return nil, nil, err
 		}
 	}
 
-- 
2.43.0


From 9e66d7601c9ee5ef6d923ad2fa40c2cce6818be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 13/65] fix: SM2 key agreement fails when the shared point is
 infinity

GM/T 0003.3 requires it; the key did not depend on any secret. Ephemeral keys
with coordinates outside the field are rejected as well.
---
 sm2_std.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 01d98d7..2ae3b90 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1362,7 +1362,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 								Sin []byte,
 								keylen uint16,) (key, Sout []byte, err error){
 
-	if !isValidPoint(pubkeyInitiator, "sm2_std") || !isValidPoint(pubkeyResponder, "sm2_std") {
+	if !isValidPoint(pubkeyInitiator, "sm2_std") || !isValidPoint(pubkeyResponder, "sm2_std") || !isValidPoint(tmpPubkeyResponder, "sm2_std") {
 		err = ErrPublicKeyIllegal
 		return
 	}
@@ -1418,6 +1418,10 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point is the point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
@@ -1480,7 +1484,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 								tmpPubkeyInitiator []byte,
 								random []byte,
 								keylen uint16) (key, tmpPubkeyResponder, Sinner, Souter []byte, err error){
-	if !isValidPoint(pubkeyInitiator, "sm2_std") || !isValidPoint(pubkeyResponder, "sm2_std") {
+	if !isValidPoint(pubkeyInitiator, "sm2_std") || !isValidPoint(pubkeyResponder, "sm2_std") || !isValidPoint(tmpPubkeyInitiator, "sm2_std") {
 		err = ErrPublicKeyIllegal
 		return
 	}
@@ -1554,6 +1558,10 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
+	if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+		err = errors.New("shared point is the point at infinity")
+		return
+	}
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator public key")
-- 
2.43.0


From 0b80479e8da1168ae3a09654b0463083f052ec21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 14/65] fix: EdDSA verification rejects S outside [0, L)

S + L was accepted, so anybody could derive a second valid signature
(RFC 8032, section 5.1.7).
---
 eddsa/curve25519.go |  3 +++
 eddsa/ed25519.go    | 14 ++++++++++++++
 eddsa/x25519.go     |  3 +++
 3 files changed, 20 insertions(+)

diff --git a/eddsa/curve25519.go b/eddsa/curve25519.go
index 1735074..defae7c 100644
--- a/eddsa/curve25519.go
+++ b/eddsa/curve25519.go
@@ -105,6 +105,9 @@ func CURVE25519_verify(pubkey, message, sig []byte) bool {
 	if len(sig) != 64 || sig[63]&224 != 0 {
 		return false
 	}
+	if !isCanonicalScalar(sig[32:]) {
+		return false
+	}
 
 	copy(publicKey, pubkey)
 	var A edwards25519.ExtendedGroupElement
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..16ab175 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -102,6 +102,9 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 	if len(sig) != 64 || sig[63]&224 != 0 {
 		return false
 	}
+	if !isCanonicalScalar(sig[32:]) {
+		return false
+	}
 
 	copy(publicKey, pubkey)
 	var A edwards25519.ExtendedGroupElement
@@ -133,6 +136,17 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 	return subtle.ConstantTimeCompare(sig[:32], checkR[:]) == 1
 }
 
+// isCanonicalScalar reports whether the little-endian scalar s is below the
+// order of the base point.
+func isCanonicalScalar(s []byte) bool {
+	for i := 31; i >= 0; i-- {
+		if s[i] != order[i] {
+			return s[i] < order[i]
+		}
+	}
+	return false
+}
+
 func feIsZero(f edwards25519.FieldElement) bool {
 	zero := [32]byte{0}
 	var s [32]byte
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..b7582b7 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -575,6 +575,9 @@ func verify_modify(message, sm, pubkey []byte) bool {
 	if sm[63] & 224 != 0 {
 		return false
 	}
+	if !isCanonicalScalar(sm[32:64]) {
+		return false
+	}
 	var pk [32]byte
 	copy(pk[:], pubkey)
 
-- 
2.43.0


From ceccead1ee14607105dd7e6947727ce1de54e6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 15/65] fix: X25519 and CURVE25519_SHA256 signatures over the
 empty message verify

---
 eddsa/curve25519_sha256.go | 2 +-
 eddsa/x25519.go            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..db06c60 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -67,7 +67,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 }
 
 func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index b7582b7..f9b4b86 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -608,7 +608,7 @@ func verify_modify(message, sm, pubkey []byte) bool {
 
 func X25519_verify(pubkey, message,signature []byte) bool {
 
-	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 || message == nil || len(message) == 0 {
+	if signature == nil || len(signature) != 64 || pubkey == nil || len(pubkey) != 32 {
 		return false
 	}
 
-- 
2.43.0


From 5bc3338064bfe9d268873714b742a8d50763c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:37 +0000
Subject: [PATCH 16/65] fix: CURVE25519_SHA256 does not modify the caller's
 private key

Keygen clamps the scalar in place.
---
 eddsa/curve25519_sha256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index db06c60..a20db8f 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -24,7 +24,7 @@ func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 
 	pubkey := make([]byte, 32)
 
-	Keygen(pubkey, nil, prikey)
+	Keygen(pubkey, nil, append([]byte{}, prikey...))
 
 	return pubkey, nil
 }
@@ -37,7 +37,7 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	pubkey := make([]byte, 32)
 	s := make([]byte, 32)
 
-	Keygen(pubkey, s, prikey)
+	Keygen(pubkey, s, append([]byte{}, prikey...))
 
 	digest := sha256.New()
 	digest.Write(message)
-- 
2.43.0


From 81243c503d23a9d8490cd474f5fae94d40c38a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 17/65] fix: ED25519 and X25519 scalars of 2^255 and more, and
 unclamped signing keys

Base point multiplication needs a scalar below 2^255, and the public key was
derived from the scalar as given while signing clamped it first, so signatures
made with such keys did not verify under their own public key.
---
 eddsa/ed25519.go | 13 ++++++++-----
 eddsa/x25519.go  |  4 +++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 16ab175..6d40fae 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -33,7 +33,9 @@ func ED25519_genPub(prikey []byte) ([]byte, error) {
 
 	var A edwards25519.ExtendedGroupElement
 	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	var wide [64]byte
+	copy(wide[:], prikey[:])
+	edwards25519.ScReduce(&hBytes, &wide)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -57,9 +59,6 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
@@ -181,7 +180,11 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	var wide [64]byte
+	var reduced [32]byte
+	copy(wide[:], scalar[:])
+	edwards25519.ScReduce(&reduced, &wide)
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &reduced)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index f9b4b86..f885a12 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -28,7 +28,9 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 
 	var A edwards25519.ExtendedGroupElement
 	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	var wide [64]byte
+	copy(wide[:], prikey[:])
+	edwards25519.ScReduce(&hBytes, &wide)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
-- 
2.43.0


From 4323954031e1e0b13409cb55a741580a2d6e8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 18/65] fix: an illegal EdDSA private key is reported as
 ECC_PRIKEY_ILLEGAL

as documented; it was reported as FAILURE because the eddsa package has its own
error value.
---
 eccset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index 99909b3..d5e0df8 100644
--- a/eccset.go
+++ b/eccset.go
@@ -57,7 +57,7 @@ func GenPubkey(prikey []byte, typeChoose uint32) (pubkey []byte, ret uint16) {
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal {
 			return nil, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
@@ -111,7 +111,7 @@ func Signature(prikey []byte, ID []byte, message []byte, typeChoose uint32) (sig
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal {
 			return nil, 0, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
-- 
2.43.0


From ee3c8430b0762462625068615669eb946747cbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 19/65] fix: ED25519 point addition rejects operands that do
 not decode

---
 eccset.go        |  6 ++++++
 eddsa/ed25519.go | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/eccset.go b/eccset.go
index d5e0df8..63f5fc2 100644
--- a/eccset.go
+++ b/eccset.go
@@ -409,6 +409,9 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return MulBaseG_Add(pointin, scalar, "sm2_std")
 		break
 	case ECC_CURVE_ED25519:
+		if !eddsa.IsValidPoint(pointin) {
+			return nil, false
+		}
 		var point1, s, point2 [32]byte
 		copy(point1[:], pointin)
 		copy(s[:], scalar)
@@ -481,6 +484,9 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return point, SUCCESS
 		break
 	case ECC_CURVE_ED25519:
+		if !eddsa.IsValidPoint(point1) || !eddsa.IsValidPoint(point2) {
+			return nil, FAILURE
+		}
 		var P1, P2, P [32]byte
 		copy(P1[:], point1)
 		copy(P2[:], point2)
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 6d40fae..603164e 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -169,6 +169,19 @@ func feIsOne(f edwards25519.FieldElement) bool {
 	return true
 }
 
+// IsValidPoint reports whether point decodes to a point of the curve.
+func IsValidPoint(point []byte) bool {
+	var (
+		P edwards25519.ExtendedGroupElement
+		b [32]byte
+	)
+	if len(point) != 32 {
+		return false
+	}
+	copy(b[:], point)
+	return P.FromBytes(&b)
+}
+
 func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	var (
 		P1    edwards25519.ExtendedGroupElement   //p3
-- 
2.43.0


From 6339ce2cfbd5edbb83e34c420aefaf9246d91db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:09 +0000
Subject: [PATCH 20/65] fix: BLS verification no longer writes behind the
 caller's public key

append used the spare capacity of the caller's slice.
---
 eccset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eccset.go b/eccset.go
index 63f5fc2..bf764ed 100644
--- a/eccset.go
+++ b/eccset.go
@@ -178,7 +178,7 @@ func Verify(pubkey []byte, ID []byte, message []byte, signature []byte, typeChoo
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		message = append(pubkey, message...)
+		message = append(append([]byte{}, pubkey...), message...)
 		message = append([]byte(AUG_SCHEME_DST), message...)
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
-- 
2.43.0


From 8beb75a9a0ded7f413170d457a8516fa74764d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 21/65] fix: BLS signing and key generation reject private keys
 outside [1, r)

Signing accepted them (the AUG scheme then signed without a public key) and key
generation accepted zero; both report ECC_PRIKEY_ILLEGAL.
---
 bls12_381/bls12-381.go | 13 ++++++-------
 eccset.go              |  4 ++--
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index df04c7e..3d49641 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -9,6 +9,8 @@ import (
 
 const BLS12_381_ORDER = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001"
 
+var ErrPrivateKeyIllegal = errors.New("invalid private key data")
+
 func isScalarLegal(scalar []byte) bool {
 	curveOrder, _ := new(big.Int).SetString(BLS12_381_ORDER, 16)
 	scalarBig := new(big.Int).SetBytes(scalar)
@@ -19,11 +21,8 @@ func isScalarLegal(scalar []byte) bool {
 }
 
 func GenPublicKey(privateKey []byte) ([]byte, error) {
-	if len(privateKey) != 32 {
-		return nil, errors.New("invalid private key length")
-	}
-	if !isScalarLegal(privateKey) {
-		return nil, errors.New("invalid private key data")
+	if len(privateKey) != 32 || !isScalarLegal(privateKey) || new(big.Int).SetBytes(privateKey).Sign() == 0 {
+		return nil, ErrPrivateKeyIllegal
 	}
 	publicKey := g1pubs.PrivToPub(newSK(privateKey))
 	pubBytes := publicKey.Serialize()
@@ -40,8 +39,8 @@ func newSK(skBytes []byte) *g1pubs.SecretKey {
 func Sign(privateKey, message []byte) ([]byte, error) {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
-	if len(privateKey) != 32 {
-		return nil, errors.New("invalid private key lenth!")
+	if len(privateKey) != 32 || !isScalarLegal(privateKey) || new(big.Int).SetBytes(privateKey).Sign() == 0 {
+		return nil, ErrPrivateKeyIllegal
 	}
 	prikey := NewScalar(privateKey)
 
diff --git a/eccset.go b/eccset.go
index bf764ed..a68f732 100644
--- a/eccset.go
+++ b/eccset.go
@@ -57,7 +57,7 @@ func GenPubkey(prikey []byte, typeChoose uint32) (pubkey []byte, ret uint16) {
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal || err == bls12_381.ErrPrivateKeyIllegal {
 			return nil, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
@@ -111,7 +111,7 @@ func Signature(prikey []byte, ID []byte, message []byte, typeChoose uint32) (sig
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal || err == bls12_381.ErrPrivateKeyIllegal {
 			return nil, 0, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
-- 
2.43.0


From 14a23db54c996708f0088259823ed2a295cb13a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 22/65] fix: BLS verification rejects undecodable and identity
 public keys

An undecodable key panicked; under the identity key the identity signature was
valid for every message (KeyValidate in the IETF draft).
---
 bls12_381/bls12-381.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 3d49641..8b149dd 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -55,7 +55,9 @@ func Verify(publicKey, message, signature []byte) bool {
 		return false
 	}
 	pk := NullOwcryptG1()
-	pk.UnmarshalBinary(publicKey)
+	if pk.UnmarshalBinary(publicKey) != nil || pk.Equal(pk.Null()) {
+		return false
+	}
 	err := scheme.Verify(pk, message, signature)
 
 	if err != nil {
-- 
2.43.0


From f3c1ccebd9a4a76e323bfe6d49bde781e0994f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:10 +0000
Subject: [PATCH 23/65] fix: BLS Point_mulBaseG_add rejects bad operands and
 reports infinity

A point or scalar that cannot be decoded panicked. The compressed encoding of
infinity is 0xc0 00 .., never all zero.
---
 bls12_381/bls12-381.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 8b149dd..8e2559d 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -99,15 +99,24 @@ func scalarMulG(scalar []byte) (*g1pubs.PublicKey, error) {
 
 func ScalarMultBaseAdd(pointin, scalar []byte) ([]byte, bool) {
 
-	pin, _ := newPK(pointin)
+	if len(pointin) != 48 {
+		return nil, false
+	}
+	pin, err := newPK(pointin)
+	if err != nil {
+		return nil, false
+	}
 
-	pScalar, _ := scalarMulG(scalar)
+	pScalar, err := scalarMulG(scalar)
+	if err != nil {
+		return nil, false
+	}
 
 	pout := g1pubs.NewPublicKeyFromG1(pin.GetPoint().Add(pScalar.GetPoint()).ToAffine())
 
 	poutBytes := pout.Serialize()
 
-	if new(big.Int).SetBytes(poutBytes[:]).Cmp(big.NewInt(0)) == 0 {
+	if poutBytes[0]&0x40 != 0 {
 		return nil, true
 	}
 	return poutBytes[:], false
-- 
2.43.0


From 4282ce0f2db80bdf066c47d9602db89c6a1f5d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:14 +0000
Subject: [PATCH 24/65] fix: Pasta points are validated when decoded

Points off the curve, bad prefixes and x coordinates without a point decoded
without error, and 65 byte points decoded as infinity.
---
 eccset.go       | 10 ++++++++--
 pasta/crypto.go | 22 +++++++++++++++-------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/eccset.go b/eccset.go
index a68f732..6c8c84a 100644
--- a/eccset.go
+++ b/eccset.go
@@ -497,7 +497,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -560,7 +563,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..7861b84 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"encoding/binary"
 	"encoding/hex"
 	"errors"
@@ -80,7 +81,9 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		if !Decompress(a, compressed) {
+			return errors.New("invalid input data p, not on the curve")
+		}
 	} else {
 		var x_mont, y_mont [4]uint64
 		var tmp [32]byte
@@ -89,14 +92,16 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
+		copy(tmp[:], reverseBytes(p[:32]))
+		FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
+		copy(tmp[:], reverseBytes(p[32:]))
+		FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		a.X.Set(x_mont)
 		a.Y.Set(y_mont)
+		if !AffineIsOnCurve(*a) || !bytes.Equal(a.ToBigEndianBytes(), p) {
+			return errors.New("invalid input data p, not on the curve")
+		}
 	}
 
 	return nil
@@ -133,7 +138,7 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
 	}
 
 	var tmp [32]byte
@@ -141,6 +146,9 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	var x_mont [4]uint64
 	FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
 	c.X.Set(x_mont)
+	if !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(x_mont), p[1:]) {
+		return errors.New("invalid input data p, x is not a field element")
+	}
 	return nil
 }
 
-- 
2.43.0


From 017b3d30f816b1234668e1995c83678f23c952c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:43 +0000
Subject: [PATCH 25/65] fix: Mina signature verification rejects the identity
 key and unreduced r, s

Anybody could sign for the identity public key, and r + p, s + q, s + 2q, ...
were accepted for a valid (r, s).
---
 pasta/pasta.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..2d6f9ae 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"crypto/rand"
 	"errors"
 )
@@ -73,13 +74,16 @@ func Verify(publicKey, msg, sig []byte) bool {
 	}
 	var pub Affine
 	err := pub.FromBigEndianBytes(publicKey)
-	if err != nil {
+	if err != nil || AffineIsZero(pub) == 1 {
 		return false
 	}
 
 	var r_mont, s_mont Scalar
 	r_mont.Set(BigEndianBytesToFpMontgomeryArray(sig[:32]))
 	s_mont.Set(BigEndianBytesToFqMontgomeryArray(sig[32:]))
+	if !bytes.Equal(FpMontgomeryArrayToBigEndianBytes(r_mont.ToU64Array()), sig[:32]) || !bytes.Equal(FqMontgomeryArrayToBigEndianBytes(s_mont.ToU64Array()), sig[32:]) {
+		return false
+	}
 
 	mm, err := NewMinaMessage(msg)
 	if err != nil {
-- 
2.43.0


From 27cb515f481c43a18fd185e70c821d3975863fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 26/65] fix: Pasta private keys are exactly the scalars in [1,
 q)

Zero was accepted, keys from 2^254 up were rejected, and the same limit made
Point_mulBaseG_add fail for large scalars. Illegal keys report
ECC_PRIKEY_ILLEGAL.
---
 eccset.go      |  4 ++--
 pasta/pasta.go | 20 ++++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/eccset.go b/eccset.go
index 6c8c84a..43a3caf 100644
--- a/eccset.go
+++ b/eccset.go
@@ -57,7 +57,7 @@ func GenPubkey(prikey []byte, typeChoose uint32) (pubkey []byte, ret uint16) {
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal || err == bls12_381.ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal || err == bls12_381.ErrPrivateKeyIllegal || err == pasta.ErrPrivateKeyIllegal {
 			return nil, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
@@ -111,7 +111,7 @@ func Signature(prikey []byte, ID []byte, message []byte, typeChoose uint32) (sig
 	}
 
 	if err != nil {
-		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal || err == bls12_381.ErrPrivateKeyIllegal {
+		if err == ErrPrivateKeyIllegal || err == eddsa.ErrPrivateKeyIllegal || err == bls12_381.ErrPrivateKeyIllegal || err == pasta.ErrPrivateKeyIllegal {
 			return nil, 0, ECC_PRIKEY_ILLEGAL
 		}
 		if err == ErrUnknownCurve {
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 2d6f9ae..bb292af 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -6,16 +6,22 @@ import (
 	"errors"
 )
 
+var ErrPrivateKeyIllegal = errors.New("invalid private key")
+
 // privateKey : big endian
 // publicKey  : big endian X || Y
 // all data is in big int field
 func GenPublicKey(privateKey []byte) ([]byte, error) {
-	if privateKey == nil || len(privateKey) != 32 || privateKey[0]&0xC0 != 0 {
-		return nil, errors.New("invalid private key")
+	if privateKey == nil || len(privateKey) != 32 {
+		return nil, ErrPrivateKeyIllegal
+	}
+	scalar := BigEndianBytesToFqMontgomeryArray(privateKey)
+	if ScalarEq(scalar, ScalarZero) || !bytes.Equal(FqMontgomeryArrayToBigEndianBytes(scalar), privateKey) {
+		return nil, ErrPrivateKeyIllegal
 	}
 
 	var publicKey Affine
-	GeneratePubkey(&publicKey, BigEndianBytesToFqMontgomeryArray(privateKey))
+	GeneratePubkey(&publicKey, scalar)
 	return publicKey.ToBigEndianBytes(), nil
 }
 
@@ -130,12 +136,10 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	if pointin == nil || scalar == nil || len(scalar) != 32 {
 		return nil, errors.New("invalid input data")
 	}
-	pointTmp, err := GenPublicKey(scalar)
-	if err != nil {
-		return nil, err
-	}
+	var pointTmp Affine
+	GeneratePubkey(&pointTmp, BigEndianBytesToFqMontgomeryArray(scalar))
 
-	return PointAdd(pointTmp, pointin)
+	return PointAdd(pointTmp.ToBigEndianBytes(), pointin)
 }
 
 func PointAdd(point1, point2 []byte) ([]byte, error) {
-- 
2.43.0


From 24596885ea564ee1ce2b91d62ef120bf55fb640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:44 +0000
Subject: [PATCH 27/65] fix: Pasta point operations report infinity like the
 other curves

They returned 64 zero bytes with SUCCESS.
---
 eccset.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/eccset.go b/eccset.go
index 43a3caf..2fa4303 100644
--- a/eccset.go
+++ b/eccset.go
@@ -15,6 +15,7 @@
 package owcrypt
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"github.com/blocktree/go-owcrypt/bls12_381"
@@ -425,7 +426,10 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return bls12_381.ScalarMultBaseAdd(pointin, scalar)
 		break
 	case ECC_CURVE_PASTA:
-		pointout, _ := pasta.PointMulBaseGAdd(pointin, scalar)
+		pointout, err := pasta.PointMulBaseGAdd(pointin, scalar)
+		if err == nil && bytes.Equal(pointout, make([]byte, 64)) {
+			return nil, true
+		}
 		return pointout, false
 	default:
 		return nil, false
@@ -498,7 +502,7 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		break
 	case ECC_CURVE_PASTA:
 		pout, err := pasta.PointAdd(point1, point2)
-		if err != nil {
+		if err != nil || bytes.Equal(pout, make([]byte, 64)) {
 			return nil, FAILURE
 		}
 		return pout, SUCCESS
@@ -564,7 +568,7 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	break
 	case ECC_CURVE_PASTA:
 		pout, err := pasta.PointMul(pointin, scalar)
-		if err != nil {
+		if err != nil || bytes.Equal(pout, make([]byte, 64)) {
 			return nil, FAILURE
 		}
 		return pout, SUCCESS
-- 
2.43.0


From d5f801f44ec77f717493fa27607f4855dca48c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 28/65] fix: Mina signature nonces use the full width of the
 scalar field

The mask 0x03 kept every nonce below 2^250. Nonces with four known bits reveal
the private key after some hundred signatures.
---
 pasta/pasta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index bb292af..0025684 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -35,7 +35,7 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 	var k Scalar
 	for {
 		rand.Read(kBytes[:])
-		kBytes[0] &= 0x03
+		kBytes[0] &= 0x3f
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
 		var k_nonzero uint64
-- 
2.43.0


From 65ab5c21f6a08d6d64640ca84dbccdf503ea5f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:45 +0000
Subject: [PATCH 29/65] fix: Pasta point negation negates

---
 pasta/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 7861b84..7e09779 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -510,7 +510,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From c1a36940d61ca457b4e3fdb52d31cf3c104a3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 30/65] fix: Pasta point addition doubles equal points in
 different coordinates

---
 pasta/crypto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 7e09779..76b5fba 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -448,6 +448,11 @@ func GroupAdd(r *Group, p, q Group) {
 	FieldMul(&r.Y, p.Z, z1z1)
 	FieldMul(&s2, q.Y, r.Y)
 
+	if FieldEq(u1, u2) == 1 && FieldEq(s1, s2) == 1 {
+		GroupDbl(r, p)
+		return
+	}
+
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
 	FieldAdd(&r.Z, h, h)
-- 
2.43.0


From 13f4e666d0f183d36c089fa1c693a63bf38a873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 31/65] fix: BLAKE2S reports an unsupported digest length
 instead of panicking

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From 30e2e2d31ec9f06ed4aadec13544a39b4ed9c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:05 +0000
Subject: [PATCH 32/65] fix: SM3 Sum appends the digest and leaves the running
 state alone

---
 sm3/sm3.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..563c543 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -40,7 +40,7 @@ func (sm3 *SM3) p1(x uint32) uint32 { return x ^ sm3.leftRotate(x, 15) ^ sm3.lef
 func (sm3 *SM3) leftRotate(x uint32, i uint32) uint32 { return (x<<(i%32) | x>>(32-i%32)) }
 
 func (sm3 *SM3) pad() []byte {
-	msg := sm3.unhandleMsg
+	msg := append([]byte{}, sm3.unhandleMsg...)
 	msg = append(msg, 0x80)
 	blockSize := 64
 	for len(msg)%blockSize != 56 {
@@ -158,8 +158,10 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 	return toWrite, nil
 }
 
-func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
+func (orig *SM3) Sum(in []byte) []byte {
+	// work on a copy, so that the caller can keep writing and summing
+	c := *orig
+	sm3 := &c
 	msg := sm3.pad()
 
 	sm3.update(msg, len(msg)/sm3.BlockSize())
@@ -175,7 +177,7 @@ func (sm3 *SM3) Sum(in []byte) []byte {
 	for i := 0; i < 8; i++ {
 		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
 	}
-	return out
+	return in[:len(in)+needed]
 
 }
 
-- 
2.43.0


From 27f4d298c9b5302fa37aaa84384ae1edd616e83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:20 +0000
Subject: [PATCH 33/65] fix: cloning a squeezing SHAKE keeps its read position

---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..f0ca870 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[maxRate-cap(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From 515c0a494bcef83e3bd801d4e224fdc5babab4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:07 +0000
Subject: [PATCH 34/65] fix: SM2 public keys are recovered with the SM2
 verification equation

---
 sm2_std.go | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 2ae3b90..a6dc321 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1679,16 +1679,21 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 
 	buf2 := make([]byte, 33)
 	hash := make([]byte, 32)
-	s := new(big.Int)
 	R := new(ecdsa.PublicKey)
 	G := new(ecdsa.PublicKey)
 
 	copy(hash, msg)
-	copy(buf2[1:], sig[:32])
 
 	curve := sm2_std
 
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	// r = e + x (mod n), where x belongs to the point k*G
+	x := new(big.Int).Sub(new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(hash))
+	xBytes := x.Mod(x, curve.N).Bytes()
+	copy(buf2[33-len(xBytes):], xBytes)
+
+	// k*G = s*G + (r + s)*P
+	t := new(big.Int).Add(new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64]))
+	r_inv := new(big.Int).ModInverse(t, curve.N)
 	if r_inv == nil {
 		return nil, errors.New("invalid r value")
 	}
@@ -1705,16 +1710,8 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 			buf2[0] = 0x03
 		}
 
-		if k == 0 {
-			if sig[64] == 1 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		if k == 1 {
-			if sig[64] == 0 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
+		if int(sig[64]) != k {
+			continue
 		}
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
@@ -1728,11 +1725,11 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 
 		point1 := new(ecdsa.PublicKey)
 		point1.Curve = curve
-		point1.X, point1.Y = curve.ScalarMult(R.X, R.Y, s.Bytes())
+		point1.X, point1.Y = R.X, R.Y
 
 		point2 := new(ecdsa.PublicKey)
 		point2.Curve = curve
-		point2.X, point2.Y = curve.ScalarBaseMult(hash)
+		point2.X, point2.Y = curve.ScalarBaseMult(sig[32:64])
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
 		point2.Y.Mod(point2.Y, curve.P)
@@ -1740,7 +1737,7 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
+		if sm2_std_verify(point2, hash, nil, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
 			pubkey := make([]byte, 64)
 			x := point2.X.Bytes()
 			y := point2.Y.Bytes()
-- 
2.43.0


From c3b1c0286e13d859d272fe1fb9dc39a3aec85391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 35/65] fix: RecoverPubkey does not return the point at
 infinity

---
 secp256k1.go | 4 ++++
 secp256r1.go | 4 ++++
 sm2_std.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index 8f85558..0f8c036 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -349,6 +349,10 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
+		if point2.X.Sign() == 0 && point2.Y.Sign() == 0 {
+			return nil, errors.New("the public key is the point at infinity")
+		}
+
 		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
 			pubkey := make([]byte, 64)
 			x := point2.X.Bytes()
diff --git a/secp256r1.go b/secp256r1.go
index a691546..68862a4 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -143,6 +143,10 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
+		if point2.X.Sign() == 0 && point2.Y.Sign() == 0 {
+			return nil, errors.New("the public key is the point at infinity")
+		}
+
 		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
 			pubkey := make([]byte, 64)
 			x := point2.X.Bytes()
diff --git a/sm2_std.go b/sm2_std.go
index a6dc321..a578d59 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1737,6 +1737,10 @@ func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
+		if point2.X.Sign() == 0 && point2.Y.Sign() == 0 {
+			return nil, errors.New("the public key is the point at infinity")
+		}
+
 		if sm2_std_verify(point2, hash, nil, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
 			pubkey := make([]byte, 64)
 			x := point2.X.Bytes()
-- 
2.43.0


From bbe021599fc0bdb2d0a9e9ea29aeca4f9ce2db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:12 +0000
Subject: [PATCH 36/65] fix: SM2 verification rejects signatures whose point is
 infinity

---
 sm2_std.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index a578d59..95c3039 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1139,10 +1139,13 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
-	var x *big.Int
+	var x, y *big.Int
 	x1, y1 := c.ScalarBaseMult(s.Bytes())
 	x2, y2 := c.ScalarMult(pub.X, pub.Y, t.Bytes())
-	x, _ = c.Add(x1, y1, x2, y2)
+	x, y = c.Add(x1, y1, x2, y2)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return false
+	}
 
 	x.Add(x, e)
 	x.Mod(x, N)
-- 
2.43.0


From 37abe99d4c7b64fa34f61c74b835285c4efe1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 37/65] fix: point operations refuse 65-byte points without the
 0x04 prefix

---
 eccset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eccset.go b/eccset.go
index 2fa4303..093d285 100644
--- a/eccset.go
+++ b/eccset.go
@@ -448,7 +448,7 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 				return nil, FAILURE
 			}
 			point1 = point1[1:]
-		} else if len(point1) == 65 {
+		} else if len(point1) == 65 && point1[0] == 0x04 {
 			point1 = point1[1:]
 		} else if len(point1) != 64 {
 			return nil, FAILURE
@@ -459,7 +459,7 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 				return nil, FAILURE
 			}
 			point2 = point2[1:]
-		} else if len(point2) == 65 {
+		} else if len(point2) == 65 && point2[0] == 0x04 {
 			point2 = point2[1:]
 		} else if len(point2) != 64 {
 			return nil, FAILURE
@@ -524,7 +524,7 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 				return nil, FAILURE
 			}
 			pointin = pointin[1:]
-		} else if len(pointin) == 65 {
+		} else if len(pointin) == 65 && pointin[0] == 0x04 {
 			pointin = pointin[1:]
 		} else if len(pointin) != 64 {
 			return nil, FAILURE
-- 
2.43.0


From 642f0fe81ec4ef6c32e00f692cbbf501c43b1512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 38/65] fix: SM2 field reduction no longer underflows when a
 reduced limb is 1

When the limb being eliminated is 1, x>>1 is 0 and the borrow taken from the
limb above underflowed if that limb was 0 too; the result of squaring or
multiplying was then wrong by a multiple of the radix. No borrow is needed in
that case, because x<<28 already covers the subtraction.
---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 95c3039..dc3c05f 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -823,7 +823,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= 1
 					tmp[i+8] -= x >> 4
@@ -837,7 +837,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= x >> 4
 					tmp[i+9] += ((x >> 1) - 1) & xMask
-- 
2.43.0


From 4cfa18830c851868d7517b06fd36d9ec0efc6426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 39/65] fix: RecoverPubkey only considers the nonce point that
 v names

The candidate for the other parity was evaluated with a stale or zero s, so a
key at infinity for it ended the search (all-zero hash) or its key was
returned although v names the other point.
---
 secp256k1.go | 4 ++++
 secp256r1.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/secp256k1.go b/secp256k1.go
index 0f8c036..8fb0414 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -317,12 +317,16 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		if k == 0 {
 			if sig[64] == 1 {
 				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
+			} else {
+				continue
 			}
 		}
 
 		if k == 1 {
 			if sig[64] == 0 {
 				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
+			} else {
+				continue
 			}
 		}
 
diff --git a/secp256r1.go b/secp256r1.go
index 68862a4..8bfffcc 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -113,12 +113,16 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		if k == 0 {
 			if sig[64] == 1 {
 				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
+			} else {
+				continue
 			}
 		}
 
 		if k == 1 {
 			if sig[64] == 0 {
 				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
+			} else {
+				continue
 			}
 		}
 
-- 
2.43.0


From 7d37913c30a4bcf4aa54ce7c89d96fd45b6bbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 40/65] fix: CURVE25519_SHA256 signatures of the key whose
 point is -G verify

---
 eddsa/curve25519_sha256.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index a20db8f..5aeb91f 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -460,6 +460,12 @@ func recip(y *long10, x *long10, sqrtassist int) {
 	}
 }
 
+func isZero(x *long10) bool {
+	m := make([]byte, 32)
+	pack(x, m)
+	return numsize(m, 32) == 0
+}
+
 func isNegative(x *long10) int {
 	var tmp int64
 	if isOverflow(x) || x[9] < 0 {
@@ -570,7 +576,8 @@ func core(Px, s, k, Gx []byte) {
 		sub(&dx, &dx, &t1)        /* dx = t2 (Px - Gx)^2 - Py^2  */
 		dx[0] -= 39420360         /* dx = t2 (Px - Gx)^2 - Py^2 - Gy^2  */
 		mul(&t1, &dx, baseR2y)    /* t1 = -Py  */
-		if isNegative(&t1) != 0 { /* sign is 1, so just copy  */
+		/* P = -G: Q is infinity, which the formula takes for P = G */
+		if isNegative(&t1) != 0 && !isZero(z[1]) { /* sign is 1, so just copy  */
 			copy(s, k)
 		} else { /* sign is -1, so negate  */
 			mulaSmall(s, orderTimes8, 0, k, 32, -1)
@@ -657,6 +664,19 @@ func Verify(Y, v, h, P []byte) {
 	set(p[0], 9)
 	unpack(p[1], P)
 
+	/* abs(P) = G: P-G is infinity and the chain below does not apply, but
+	 * Y = (v + h) G  */
+	sub(t1[0], p[1], p[0])
+	if isZero(t1[0]) {
+		k := make([]byte, 33)
+		q := make([]byte, 33)
+		copy(k, h)
+		k[32] = byte(mulaSmall(k, k, 0, v, 32, 1))
+		divmod(q, k, 33, order, 32)
+		core(Y, nil, k[:32], nil)
+		return
+	}
+
 	/* set s[0] to P+G and s[1] to P-G  */
 
 	/* s[0] = (Py^2 + Gy^2 - 2 Py Gy)/(Px - Gx)^2 - Px - Gx - 486662  */
-- 
2.43.0


From f83177550d7662c479012fc9746eac5a245923f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:30 +0000
Subject: [PATCH 41/65] fix: X25519 verification rejects public keys that are
 not canonical

---
 eddsa/x25519.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index f885a12..4d34fc7 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -620,6 +620,9 @@ func X25519_verify(pubkey, message,signature []byte) bool {
 	var u edwards25519.FieldElement
 	var x25519_pubkey, ed_pubkey [32]byte
 	copy(x25519_pubkey[:], pubkey)
+	if feIsReduced(x25519_pubkey) {
+		return false
+	}
 	edwards25519.FeFromBytes(&u, &x25519_pubkey)
 	y := montToEdy(u)
 	edwards25519.FeToBytes(&ed_pubkey, &y)
-- 
2.43.0


From 0431beb8efd368828805bca266d172efd02eac90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 42/65] fix: AddPairInv must not negate the caller's point

---
 bls12_381/bls/pairing.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/pairing.go b/bls12_381/bls/pairing.go
index 97adc55..6cfa041 100644
--- a/bls12_381/bls/pairing.go
+++ b/bls12_381/bls/pairing.go
@@ -62,8 +62,9 @@ func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
 
 // AddPairInv adds a G1, G2 point pair to pairing engine. G1 point is negated.
 func (e *Engine) AddPairInv(g1 *PointG1, g2 *PointG2) *Engine {
-	e.G1.Neg(g1, g1)
-	e.AddPair(g1, g2)
+	ng1 := e.G1.New()
+	e.G1.Neg(ng1, g1)
+	e.AddPair(ng1, g2)
 	return e
 }
 
-- 
2.43.0


From 1acbe0513fe473281c1957ae62779c602bb314da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 43/65] fix: the neutral element of GT is one, not zero

---
 bls12_381/gt.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 5d3b11a..0e3e15a 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -26,11 +26,8 @@ func (k *OwcryptGT) Equal(kk kyber.Point) bool {
 	return k.f.Equal(kk.(*OwcryptGT).f)
 }
 
-const gtLength = 576
-
 func (k *OwcryptGT) Null() kyber.Point {
-	var zero [gtLength]byte
-	k.f, _ = bls.NewGT().FromBytes(zero[:])
+	k.f = bls.NewGT().One()
 	return k
 }
 
-- 
2.43.0


From 3554abdc6ad45a58a4326f98b8913c8ae6331aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 44/65] fix: subtracting in GT multiplies by the inverse

---
 bls12_381/gt.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 0e3e15a..d18201c 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -60,7 +60,10 @@ func (k *OwcryptGT) Add(a, b kyber.Point) kyber.Point {
 func (k *OwcryptGT) Sub(a, b kyber.Point) kyber.Point {
 	aa := a.(*OwcryptGT)
 	bb := b.(*OwcryptGT)
-	bls.NewGT().Sub(k.f, aa.f, bb.f)
+	gt := bls.NewGT()
+	inv := gt.New()
+	gt.Inverse(inv, bb.f)
+	gt.Mul(k.f, aa.f, inv)
 	return k
 }
 
-- 
2.43.0


From d6badc9077b98da5904c337463733e79bdb03020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 45/65] fix: E.One sets its receiver

---
 bls12_381/bls/gt.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bls12_381/bls/gt.go b/bls12_381/bls/gt.go
index 9e2c27f..3c3262a 100644
--- a/bls12_381/bls/gt.go
+++ b/bls12_381/bls/gt.go
@@ -20,8 +20,7 @@ func (e *E) Set(e2 *E) *E {
 
 // One sets a new target group element to one
 func (e *E) One() *E {
-	e = new(fe12).one()
-	return e
+	return e.one()
 }
 
 // IsOne returns true if given element equals to one
-- 
2.43.0


From bd8c0f7bf6a1119ae98d8934a164af0ed88ea1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 46/65] fix: hash to curve rejects domains longer than 255
 bytes

---
 bls12_381/bls/hash_to_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/hash_to_field.go b/bls12_381/bls/hash_to_field.go
index 60f8234..bd46fdb 100644
--- a/bls12_381/bls/hash_to_field.go
+++ b/bls12_381/bls/hash_to_field.go
@@ -22,10 +22,10 @@ func hashToFpXMDSHA256(msg []byte, domain []byte, count int) ([]*fe, error) {
 
 func expandMsgSHA256XMD(msg []byte, domain []byte, outLen int) ([]byte, error) {
 	h := sha256.New()
-	domainLen := uint8(len(domain))
-	if domainLen > 255 {
+	if len(domain) > 255 {
 		return nil, fmt.Errorf("invalid domain length")
 	}
+	domainLen := uint8(len(domain))
 	// DST_prime = DST || I2OSP(len(DST), 1)
 	// b_0 = H(Z_pad || msg || l_i_b_str || I2OSP(0, 1) || DST_prime)
 	_, _ = h.Write(make([]byte, h.BlockSize()))
-- 
2.43.0


From f1923ea9a73a35d644fa4404034bb824ad507158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 47/65] fix: MultiExp keeps the caller's scalars

---
 bls12_381/bls/g1.go | 1 +
 bls12_381/bls/g2.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index a273890..2f4de1b 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -455,6 +455,7 @@ func (g *G1) MultiExp(r *PointG1, points []*PointG1, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	powers = append([]*big.Int(nil), powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index 99feffd..ad44d03 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -459,6 +459,7 @@ func (g *G2) MultiExp(r *PointG2, points []*PointG2, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	powers = append([]*big.Int(nil), powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
-- 
2.43.0


From 861871588f0b6a06084f53a43e7fc66bc11244b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 48/65] fix: AggregateSignatures rejects signatures of a wrong
 length

---
 bls12_381/bls12-381.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 8e2559d..2786cb6 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -70,6 +70,11 @@ func AggregateSignatures(sigs ...[]byte) ([]byte, error) {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
 
+	for _, s := range sigs {
+		if len(s) != 96 {
+			return nil, errors.New("invalid signature length")
+		}
+	}
 	return scheme.AggregateSignatures(sigs...)
 }
 
-- 
2.43.0


From ec43e59a91c3689f6822235e01ffd357a546e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 49/65] fix: hashing to G2 without a known prefix must not
 yield infinity

---
 bls12_381/g2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index c445d50..8e03205 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -146,6 +146,9 @@ func (k *OwcryptG2) Hash(m []byte) kyber.Point {
 	} else if strings.Index(string(m), aug_scheme_dst) == 0 {
 		pg2, _ := bls.NewG2(nil).HashToCurve(m[len(aug_scheme_dst):], m[:len(aug_scheme_dst)])
 		k.p = pg2
+	} else {
+		pg2, _ := bls.NewG2(nil).HashToCurve(m, Domain)
+		k.p = pg2
 	}
 
 	return k
-- 
2.43.0


From fb694386362e16672fab5f73cb28ea6cc7bfcaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:09 +0000
Subject: [PATCH 50/65] fix: MapToCurve maps the kernel of the isogeny to
 infinity

---
 bls12_381/bls/g1.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index 2f4de1b..f68944d 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -517,6 +517,10 @@ func (g *G1) MapToCurve(in []byte) (*PointG1, error) {
 	}
 	x, y := swuMapG1(u)
 	isogenyMapG1(x, y)
+	// the isogeny sends the points of its kernel to infinity
+	if x.IsZero() && y.IsZero() {
+		return g.Zero(), nil
+	}
 	one := one()
 	p := &PointG1{*x, *y, *one}
 	g.ClearCofactor(p)
@@ -535,6 +539,10 @@ func (g *G1) EncodeToPoint(msg, domain []byte) (*PointG1, error) {
 	u := hashRes[0]
 	x, y := swuMapG1(u)
 	isogenyMapG1(x, y)
+	// the isogeny sends the points of its kernel to infinity
+	if x.IsZero() && y.IsZero() {
+		return g.Zero(), nil
+	}
 	one := one()
 	p := &PointG1{*x, *y, *one}
 	g.ClearCofactor(p)
-- 
2.43.0


From 7d9b13e1d525635449cd5b1924e6ea1bdd9dd310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:04 +0000
Subject: [PATCH 51/65] fix: pasta field helpers write their results

---
 pasta/pasta_fp.go | 12 ++++++------
 pasta/pasta_fq.go | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pasta/pasta_fp.go b/pasta/pasta_fp.go
index cc89fc4..eed9611 100644
--- a/pasta/pasta_fp.go
+++ b/pasta/pasta_fp.go
@@ -1170,7 +1170,7 @@ func FiatPastaFpNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFpSelectZnz(out1 *[4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFpCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFpCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1195,7 +1195,7 @@ func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFpToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1354,7 +1354,7 @@ func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFpFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFpFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
@@ -1457,7 +1457,7 @@ func FiatPastaFpSetOne(out1 *[4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpMSat(out1 [5]uint64) {
+func FiatPastaFpMSat(out1 *[5]uint64) {
 	out1[0] = uint64(0x992d30ed00000001)
 	out1[1] = uint64(0x224698fc094cf91b)
 	out1[2] = 0x0
@@ -1475,7 +1475,7 @@ func FiatPastaFpMSat(out1 [5]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpDivStepPreComp(out1 [4]uint64) {
+func FiatPastaFpDivStepPreComp(out1 *[4]uint64) {
 	out1[0] = uint64(0xeb9f9ebd71876582)
 	out1[1] = uint64(0x61d4a765274d339b)
 	out1[2] = uint64(0x4bf06d486f0671ed)
@@ -1511,7 +1511,7 @@ func FiatPastaFpDivStepPreComp(out1 [4]uint64) {
  *   out4: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  *   out5: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpDivStep(out1 *uint64, out2, out3 [5]uint64, out4, out5 [4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
+func FiatPastaFpDivStep(out1 *uint64, out2, out3 *[5]uint64, out4, out5 *[4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
 	var x1 uint64
 	var x2, x3 FiatPastaFpUint1
 	var x4 uint64
diff --git a/pasta/pasta_fq.go b/pasta/pasta_fq.go
index 04c0a57..de4ae31 100644
--- a/pasta/pasta_fq.go
+++ b/pasta/pasta_fq.go
@@ -1166,7 +1166,7 @@ func FiatPastaFqNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFqSelectZnz(out1 *[4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFqCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFqCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1191,7 +1191,7 @@ func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFqToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1350,7 +1350,7 @@ func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFqFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
@@ -1436,7 +1436,7 @@ func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSetOne(out1 [4]uint64) {
+func FiatPastaFqSetOne(out1 *[4]uint64) {
 	out1[0] = uint64(0x5b2b3e9cfffffffd)
 	out1[1] = uint64(0x992c350be3420567)
 	out1[2] = uint64(0xffffffffffffffff)
@@ -1453,7 +1453,7 @@ func FiatPastaFqSetOne(out1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqMSat(out1 [5]uint64) {
+func FiatPastaFqMSat(out1 *[5]uint64) {
 	out1[0] = uint64(0x8c46eb2100000001)
 	out1[1] = uint64(0x224698fc0994a8dd)
 	out1[2] = 0x0
@@ -1471,7 +1471,7 @@ func FiatPastaFqMSat(out1 [5]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqDivStepPreComp(out1 [4]uint64) {
+func FiatPastaFqDivStepPreComp(out1 *[4]uint64) {
 	out1[0] = uint64(0xe6083b32dccd2992)
 	out1[1] = uint64(0x624453584f3bdab6)
 	out1[2] = uint64(0xba6367a9c5d2c08e)
@@ -1507,7 +1507,7 @@ func FiatPastaFqDivStepPreComp(out1 [4]uint64) {
  *   out4: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  *   out5: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqDivStep(out1 *uint64, out2, out3 [5]uint64, out4, out5 [4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
+func FiatPastaFqDivStep(out1 *uint64, out2, out3 *[5]uint64, out4, out5 *[4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
 	var x1 uint64
 	var x2, x3 FiatPastaFqUint1
 	var x4 uint64
-- 
2.43.0


From 553d8c3d7d8b0445d88be8622c55b1a5cade6bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 52/65] fix: pasta compressed points keep one x representation

---
 pasta/crypto.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 76b5fba..82e1698 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -126,7 +126,7 @@ func (c Compressed) ToBigEndianBytes() []byte {
 		out = append(out, 0x02)
 	}
 
-	return append(out, c.X.ToBigEndianBytes()...)
+	return append(out, FpMontgomeryArrayToBigEndianBytes(c.X)...)
 }
 
 func (c *Compressed) FromBigEndianBytes(p []byte) error {
@@ -558,10 +558,9 @@ func GeneratePubkey(pub_key *Affine, priv_key Scalar) {
 }
 
 func Compress(compressed *Compressed, pt Affine) {
-	var out, y_bigint [4]uint64
-	FiatPastaFpFromMontgomery(&out, pt.X.ToU64Array())
+	var y_bigint [4]uint64
 	FiatPastaFpFromMontgomery(&y_bigint, pt.Y.ToU64Array())
-	compressed.X.Set(out)
+	compressed.X.Set(pt.X)
 	if y_bigint[0]&0x01 == 1 {
 		compressed.IsOdd = true
 	} else {
-- 
2.43.0


From 21f3f19154331492c823d3fcfb4f6e2fd2ef19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 53/65] fix: KeyAgreement_initiator_step1 refuses curves other
 than SM2

---
 eccset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eccset.go b/eccset.go
index 093d285..371bf64 100644
--- a/eccset.go
+++ b/eccset.go
@@ -259,6 +259,9 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 
 ///////////////////////////////////////////////////////////密钥协商////////////////////////////////////////////////////////
 func KeyAgreement_initiator_step1(typeChoose uint32) (tmpPrikeyInitiator, tmpPubkeyInitiator []byte) {
+	if typeChoose != ECC_CURVE_SM2_STANDARD {
+		return nil, nil
+	}
 	tmpPrikeyInitiator, tmpPubkeyInitiator = sm2_std_ka_initiaor_step1()
 	return
 }
-- 
2.43.0


From 1a68ebacc2a532a0e5fc08218a9ba8819a38b591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 54/65] fix: a failed key agreement step returns no outputs

---
 eccset.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/eccset.go b/eccset.go
index 371bf64..1eb8536 100644
--- a/eccset.go
+++ b/eccset.go
@@ -285,8 +285,7 @@ func KeyAgreement_initiator_step2(IDinitiator []byte,
 	var err error
 	key, Sout, err = sm2_std_ka_initiator_step2(IDinitiator, IDresponder, prikeyInitiator, pubkeyInitiator, pubkeyResponder, tmpPrikeyInitiator, tmpPubkeyInitiator, tmpPubkeyResponder, Sin, keylen)
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -312,8 +311,7 @@ func KeyAgreement_responder_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, nil, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -340,8 +338,7 @@ func KeyAgreement_responder_ElGamal_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, random, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
-- 
2.43.0


From 011364016c20b0e2759e66d950bc2a614222ac61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 55/65] fix: key agreement refuses illegal private keys

---
 sm2_std.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index dc3c05f..dd5dfa7 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1354,6 +1354,15 @@ func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte)
 	return
 }
 
+// isValidSM2Prikey reports whether key is in [1, n-1].
+func isValidSM2Prikey(key []byte) bool {
+	if len(key) != 32 {
+		return false
+	}
+	d := new(big.Int).SetBytes(key)
+	return d.Sign() > 0 && d.Cmp(sm2_std.N) < 0
+}
+
 func sm2_std_ka_initiator_step2(IDinitiator []byte,
 								IDresponder []byte,
 								prikeyInitiator []byte,
@@ -1392,14 +1401,14 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	copy(tmp1Bytes, tmpPubkeyInitiator[16:32])
 	tmp1Bytes[0] |= 0x80
 
-	if tmpPrikeyInitiator == nil || len(tmpPrikeyInitiator) != 32 {
+	if !isValidSM2Prikey(tmpPrikeyInitiator) {
 		err = errors.New("invalid initiator's tmp private key")
 		return
 	}
 	tmp1 := new(big.Int).SetBytes(tmp1Bytes)
 	tmp2 := new(big.Int).Mul(tmp1, new(big.Int).SetBytes(tmpPrikeyInitiator))
 
-	if prikeyInitiator == nil || len(prikeyInitiator) != 32 {
+	if !isValidSM2Prikey(prikeyInitiator) {
 		err = errors.New("invalid initiator private key")
 		return
 	}
@@ -1539,7 +1548,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	tmp1 := new(big.Int).SetBytes(tmp1Bytes)
 	tmp2 := new(big.Int).Mul(tmp1, new(big.Int).SetBytes(tmpPriResponder))
 
-	if prikeyResponder == nil || len(prikeyResponder) != 32 {
+	if !isValidSM2Prikey(prikeyResponder) {
 		err = errors.New("invalid responder private key")
 		return
 	}
-- 
2.43.0


From 969f796af568ddf4130b81c540aaad3754505048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:04 +0000
Subject: [PATCH 56/65] fix: the key agreement initiator refuses an invalid
 ephemeral key of its own

---
 sm2_std.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index dd5dfa7..d2520ea 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1393,7 +1393,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return
 	}
 
-	if tmpPubkeyInitiator == nil || len(tmpPubkeyInitiator) != 64 {
+	if !isValidPoint(tmpPubkeyInitiator, "sm2_std") {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
-- 
2.43.0


From 63ce7e50664339947bf4fdc8e394f2af4bfe1e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 57/65] fix: ZA refuses public keys without 256-bit coordinates

---
 sm2_std.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2_std.go b/sm2_std.go
index d2520ea..21040fe 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -984,6 +984,9 @@ func ZA(pub *ecdsa.PublicKey, uid []byte) ([]byte, error) {
 	if uidLen >= 8192 {
 		return []byte{}, errors.New("SM2: uid too large")
 	}
+	if pub == nil || pub.X == nil || pub.Y == nil || pub.X.BitLen() > 256 || pub.Y.BitLen() > 256 {
+		return []byte{}, ErrPublicKeyIllegal
+	}
 	Entla := uint16(8 * uidLen)
 	za.Write([]byte{byte((Entla >> 8) & 0xFF)})
 	za.Write([]byte{byte(Entla & 0xFF)})
-- 
2.43.0


From ff0deefb9e1f96e7f5cd05684089c5be9ba65bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:08 +0000
Subject: [PATCH 58/65] fix: SM2 scalar multiplication accepts scalars with
 leading zero bytes

---
 sm2_std.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 21040fe..c2870ca 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -193,15 +193,11 @@ var sm2_stdPrecomputed = [9 * 2 * 15 * 2]uint32{
 }
 
 func sm2_stdGetScalar(b *[32]byte, a []byte) {
-	var scalarBytes []byte
-
 	n := new(big.Int).SetBytes(a)
 	if n.Cmp(sm2_std.N) >= 0 {
 		n.Mod(n, sm2_std.N)
-		scalarBytes = n.Bytes()
-	} else {
-		scalarBytes = a
 	}
+	scalarBytes := n.Bytes()
 	for i, v := range scalarBytes {
 		b[len(scalarBytes)-(1+i)] = v
 	}
-- 
2.43.0


From e88ae1f9aad833b0315c5fe8014ba49d1df73f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 59/65] fix: sha3 does not take a pointer beyond a block
 shorter than the largest rate

---
 sha3/xor_unaligned.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/xor_unaligned.go b/sha3/xor_unaligned.go
index 929a486..daa4334 100755
--- a/sha3/xor_unaligned.go
+++ b/sha3/xor_unaligned.go
@@ -10,8 +10,8 @@ package sha3
 import "unsafe"
 
 func xorInUnaligned(d *state, buf []byte) {
-	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))
 	n := len(buf)
+	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))[: n/8 : n/8]
 	if n >= 72 {
 		d.a[0] ^= bw[0]
 		d.a[1] ^= bw[1]
-- 
2.43.0


From a9a5061350dace39972ca288d456631474e2031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 60/65] fix: the BLS12-381 arithmetic is chosen before
 concurrent calls can race for it

---
 bls12_381/bls/arithmetic_decl.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bls12_381/bls/arithmetic_decl.go b/bls12_381/bls/arithmetic_decl.go
index fab5743..cb5a4f1 100644
--- a/bls12_381/bls/arithmetic_decl.go
+++ b/bls12_381/bls/arithmetic_decl.go
@@ -9,6 +9,12 @@ import (
 var mul func(c, a, b *fe) = mulADX
 var mulAssign func(a, b *fe) = mulAssignADX
 
+// The choice is made before any goroutine can run, so that the later calls only
+// read.
+func init() {
+	cfgArch()
+}
+
 func cfgArch() {
 	if !x86ArchitectureSet {
 		if !(cpu.X86.HasADX && cpu.X86.HasBMI2) || forceNonADXArch {
-- 
2.43.0


From 31a87d79c8d29aaee9ab19c32fd9625d105648af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:57 +0000
Subject: [PATCH 61/65] fix: signing and key agreement report a failing
 randomness source instead of using what it did not fill

---
 eddsa/ed25519.go | 5 ++++-
 eddsa/x25519.go  | 5 ++++-
 pasta/pasta.go   | 5 ++++-
 sm2_std.go       | 8 ++++++--
 4 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 603164e..9169a31 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -19,6 +19,7 @@ import (
 	"crypto/sha512"
 	"crypto/subtle"
 	"errors"
+	"io"
 	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
 )
 
@@ -59,7 +60,9 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	var messageDigest, hramDigest [64]byte
 
 	copy(expandedSecretKey[:], prikey[:])
-	rand.Read(digest1[:])
+	if _, err := io.ReadFull(rand.Reader, digest1[:]); err != nil {
+		return nil, err
+	}
 	h := sha512.New()
 	h.Write(digest1[:])
 	h.Write(message)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 4d34fc7..d7e1d0c 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -18,6 +18,7 @@ import (
 	"crypto/rand"
 	"crypto/sha512"
 	"encoding/binary"
+	"io"
 	"github.com/blocktree/go-owcrypt/eddsa/edwards25519"
 )
 
@@ -445,7 +446,9 @@ func X25519_sign(prikey, message []byte) ([]byte, error) {
 	signbit := ed_pubkey[31] & 0x80
 	sm := make([]byte, len(message) + 128)
 	random := make([]byte, 64)
-	rand.Read(random)
+	if _, err := io.ReadFull(rand.Reader, random); err != nil {
+		return nil, err
+	}
 
 	signature := sign_modify(sm, message, prikey, ed_pubkey, random)
 
diff --git a/pasta/pasta.go b/pasta/pasta.go
index 0025684..77549c9 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/rand"
 	"errors"
+	"io"
 )
 
 var ErrPrivateKeyIllegal = errors.New("invalid private key")
@@ -34,7 +35,9 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 
 	var k Scalar
 	for {
-		rand.Read(kBytes[:])
+		if _, err := io.ReadFull(rand.Reader, kBytes[:]); err != nil {
+			return nil, err
+		}
 		kBytes[0] &= 0x3f
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
diff --git a/sm2_std.go b/sm2_std.go
index c2870ca..11efddc 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1343,7 +1343,9 @@ func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte)
 	tmpPrikeyInitiator = make([]byte, 32)
 
 	random := make([]byte, 32)
-	rand.Read(random)
+	if _, err := io.ReadFull(rand.Reader, random); err != nil {
+		return nil, nil
+	}
 	randbig := new(big.Int).SetBytes(random)
 	randbig.Mod(randbig, sm2_std.N)
 	random = randbig.Bytes()
@@ -1518,7 +1520,9 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 
 	if random == nil {
 		tmp := make([]byte, 32)
-		rand.Read(tmp)
+		if _, err = io.ReadFull(rand.Reader, tmp); err != nil {
+			return
+		}
 		randbig := new(big.Int).SetBytes(tmp)
 		randbig.Mod(randbig, sm2_std.N)
 		tmp = randbig.Bytes()
-- 
2.43.0


From 3939cc3da94244ff6d712db6d2f8cf7f41f626ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 62/65] fix: BLS12-381 field multiplication without ADX keeps
 the carry of the first word of the reduction

---
 bls12_381/bls/arithmetic_x86.s | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bls12_381/bls/arithmetic_x86.s b/bls12_381/bls/arithmetic_x86.s
index fc8660b..5ac4477 100644
--- a/bls12_381/bls/arithmetic_x86.s
+++ b/bls12_381/bls/arithmetic_x86.s
@@ -952,6 +952,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1017,6 +1018,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1084,6 +1086,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -1148,6 +1151,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -1212,6 +1216,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -1284,6 +1289,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
@@ -1807,6 +1813,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1872,6 +1879,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1939,6 +1947,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -2003,6 +2012,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -2067,6 +2077,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -2139,6 +2150,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
-- 
2.43.0


From 5666d7ea10c89a5655a19348a7213de2d6b4ddce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 63/65] fix: BLS12-381 field multiplication with ADX keeps the
 second carry of the accumulated words

---
 bls12_381/bls/arithmetic_x86.s | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/bls12_381/bls/arithmetic_x86.s b/bls12_381/bls/arithmetic_x86.s
index 5ac4477..97305b5 100644
--- a/bls12_381/bls/arithmetic_x86.s
+++ b/bls12_381/bls/arithmetic_x86.s
@@ -2471,6 +2471,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R13
 	ADOXQ SI, R13
 	ADCXQ SI, SI
+	MOVQ $0, AX
+	ADOXQ AX, SI
 
 /*	 | i = 1										*/
 
@@ -2508,6 +2510,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R14
 	ADOXQ SI, R14
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 2										*/
 
@@ -2545,6 +2549,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R15
 	ADOXQ CX, R15
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 3										*/
 
@@ -2582,6 +2588,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ BX, R8
 	ADOXQ DI, R8
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 4										*/
 
@@ -2621,6 +2629,8 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ BX, R9
 	ADOXQ CX, R9
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 5										*/
 
@@ -2937,6 +2947,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R13
 	ADOXQ SI, R13
 	ADCXQ SI, SI
+	MOVQ $0, AX
+	ADOXQ AX, SI
 
 /*	 | i = 1									*/
 
@@ -2974,6 +2986,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R14
 	ADOXQ SI, R14
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 2									*/
 
@@ -3011,6 +3025,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R15
 	ADOXQ CX, R15
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 3									*/
 
@@ -3048,6 +3064,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ BX, R8
 	ADOXQ DI, R8
 	ADCXQ CX, CX
+	MOVQ $0, AX
+	ADOXQ AX, CX
 
 /*	 | i = 4									*/
 
@@ -3087,6 +3105,8 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ BX, R9
 	ADOXQ CX, R9
 	ADCXQ DI, DI
+	MOVQ $0, AX
+	ADOXQ AX, DI
 
 /*	 | i = 5									*/
 
-- 
2.43.0


From 229aa3b12a0f0fdf0cd304e153d975863fcf7fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 64/65] fix: SM3 counts the bits of long writes on 32-bit
 builds

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 563c543..5b5ac3f 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -147,7 +147,7 @@ func (sm3 *SM3) Reset() {
 
 func (sm3 *SM3) Write(p []byte) (int, error) {
 	toWrite := len(p)
-	sm3.length += uint64(len(p) * 8)
+	sm3.length += uint64(len(p)) * 8
 
 	msg := append(sm3.unhandleMsg, p...)
 	nblocks := len(msg) / sm3.BlockSize()
-- 
2.43.0


From 4103241d77d2c16452de454b342b1793333b72ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:16 +0000
Subject: [PATCH 65/65] fix: encoding and pairing a point no longer modify it

---
 bls12_381/bls/g1.go      | 6 +++---
 bls12_381/bls/g2.go      | 6 +++---
 bls12_381/bls/pairing.go | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index f68944d..e9f24e4 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -101,7 +101,7 @@ func (g *G1) ToUncompressed(p *PointG1) []byte {
 		out[0] |= 1 << 6
 		return out
 	}
-	g.Affine(p)
+	p = g.Affine(new(PointG1).Set(p))
 	copy(out[:48], toBytes(&p[0]))
 	copy(out[48:], toBytes(&p[1]))
 	return out
@@ -160,7 +160,7 @@ func (g *G1) FromCompressed(compressed []byte) (*PointG1, error) {
 // https://docs.rs/bls12_381/0.1.1/bls12_381/notes/serialization/index.html
 func (g *G1) ToCompressed(p *PointG1) []byte {
 	out := make([]byte, 48)
-	g.Affine(p)
+	p = g.Affine(new(PointG1).Set(p))
 	if g.IsZero(p) {
 		out[0] |= 1 << 6
 	} else {
@@ -223,7 +223,7 @@ func (g *G1) ToBytes(p *PointG1) []byte {
 	if g.IsZero(p) {
 		return out
 	}
-	g.Affine(p)
+	p = g.Affine(new(PointG1).Set(p))
 	copy(out[:48], toBytes(&p[0]))
 	copy(out[48:], toBytes(&p[1]))
 	return out
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index ad44d03..38f0a1f 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -105,7 +105,7 @@ func (g *G2) FromUncompressed(uncompressed []byte) (*PointG2, error) {
 // https://docs.rs/bls12_381/0.1.1/bls12_381/notes/serialization/index.html
 func (g *G2) ToUncompressed(p *PointG2) []byte {
 	out := make([]byte, 192)
-	g.Affine(p)
+	p = g.Affine(new(PointG2).Set(p))
 	if g.IsZero(p) {
 		out[0] |= 1 << 6
 		return out
@@ -168,7 +168,7 @@ func (g *G2) FromCompressed(compressed []byte) (*PointG2, error) {
 // https://docs.rs/bls12_381/0.1.1/bls12_381/notes/serialization/index.html
 func (g *G2) ToCompressed(p *PointG2) []byte {
 	out := make([]byte, 96)
-	g.Affine(p)
+	p = g.Affine(new(PointG2).Set(p))
 	if g.IsZero(p) {
 		out[0] |= 1 << 6
 	} else {
@@ -231,7 +231,7 @@ func (g *G2) ToBytes(p *PointG2) []byte {
 	if g.IsZero(p) {
 		return out
 	}
-	g.Affine(p)
+	p = g.Affine(new(PointG2).Set(p))
 	copy(out[:96], g.f.toBytes(&p[0]))
 	copy(out[96:], g.f.toBytes(&p[1]))
 	return out
diff --git a/bls12_381/bls/pairing.go b/bls12_381/bls/pairing.go
index 6cfa041..b34ac00 100644
--- a/bls12_381/bls/pairing.go
+++ b/bls12_381/bls/pairing.go
@@ -52,7 +52,7 @@ func newEngineTemp() pairingEngineTemp {
 
 // AddPair adds a g1, g2 point pair to pairing engine
 func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
-	p := newPair(g1, g2)
+	p := newPair(new(PointG1).Set(g1), new(PointG2).Set(g2))
 	if !e.isZero(p) {
 		e.affine(p)
 		e.pairs = append(e.pairs, p)
-- 
2.43.0

