From ff16dcfd04e7e83171735c94548a3a6900afa4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:56 +0000
Subject: [PATCH 01/16] fix: CheckWIF panics on strings that decode to less
 than 4 bytes

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..f077242 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* The checksum is 4 bytes long */
+	if len(bytes) < 4 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
-- 
2.43.0


From 174b32d48aaba8b4e78b7a304ba665e6f49d7431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:58 +0000
Subject: [PATCH 02/16] fix: PrivateFromWIF imports a wrong key or panics when
 the WIF payload is not 33 bytes

---
 private_key.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/private_key.go b/private_key.go
index f077242..d47f8ab 100644
--- a/private_key.go
+++ b/private_key.go
@@ -59,9 +59,18 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 	}
 
 	hexa := hex.EncodeToString(bytes)
+	hexa = hexa[0 : len(hexa)-8]
+
+	/* Remove the compression byte */
+	if len(hexa) == 68 && strings.HasSuffix(hexa, "01") {
+		hexa = hexa[0:66]
+	}
 
+	/* Network byte and 32 bytes key */
+	if len(hexa) != 66 {
+		return nil, errors.New("wif invalid")
+	}
 	hexa = hexa[2:len(hexa)]
-	hexa = hexa[0 : len(hexa)-8]
 
 	var privateKey PrivateKey
 	privateKey.WIF = wif
-- 
2.43.0


From 8d4f5b6a72038c24095162289a430726588114f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:01 +0000
Subject: [PATCH 03/16] fix: PrivateFromWIF accepts the WIF of another network

---
 private_key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/private_key.go b/private_key.go
index d47f8ab..fc435dd 100644
--- a/private_key.go
+++ b/private_key.go
@@ -70,6 +70,10 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 	if len(hexa) != 66 {
 		return nil, errors.New("wif invalid")
 	}
+
+	if !strings.EqualFold(hexa[0:2], network.PrivKeyPrefix) {
+		return nil, errors.New("different network")
+	}
 	hexa = hexa[2:len(hexa)]
 
 	var privateKey PrivateKey
-- 
2.43.0


From 482a793ad2b07dc9f3a4110848105f36d89a2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:03 +0000
Subject: [PATCH 04/16] fix: AddPrivateKeys and MultiplyPrivateKeys drop the
 leading zeros of the result

---
 private_key.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/private_key.go b/private_key.go
index fc435dd..3ab45ab 100644
--- a/private_key.go
+++ b/private_key.go
@@ -166,6 +166,10 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	/* Private keys are 32 bytes long */
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -187,6 +191,10 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
 	hexa := bigIntToHex(pKey)
+	/* Private keys are 32 bytes long */
+	for len(hexa) < 64 {
+		hexa = "0" + hexa
+	}
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
-- 
2.43.0


From d896d28d812f6fcfac146b6d56f18e35f0bbdcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:05 +0000
Subject: [PATCH 05/16] fix: private keys of the wrong length or out of the
 range 1..N-1 are imported

---
 private_key.go | 10 ++++++++++
 util.go        |  5 +++++
 2 files changed, 15 insertions(+)

diff --git a/private_key.go b/private_key.go
index 3ab45ab..327a14d 100644
--- a/private_key.go
+++ b/private_key.go
@@ -80,6 +80,9 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
 	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
+	if !isValidKey(privateKey.Key) {
+		return nil, errors.New("private key out of range")
+	}
 	privateKey.Network = network
 
 	return &privateKey, nil
@@ -88,6 +91,10 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 // PrivateFromHex imports a private key from its hex value
 func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
+	if len(hexa) != 64 {
+		return nil, errors.New("invalid private key length")
+	}
+
 	var p PrivateKey
 	p.Key, _ = new(big.Int).SetString(hexa, 16)
 	p.Hex = hexa
@@ -99,6 +106,9 @@ func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 		/* Retry */
 		return nil, err
 	}
+	if !isValidKey(p.Key) {
+		return nil, errors.New("private key out of range")
+	}
 	/* Compute first hash */
 	sha := sha256.New()
 
diff --git a/util.go b/util.go
index 3b7fa9b..7e3357a 100644
--- a/util.go
+++ b/util.go
@@ -19,3 +19,8 @@ func generateRandomBigInt() *big.Int {
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
+
+/* A private key is a number between 1 and N - 1 */
+func isValidKey(key *big.Int) bool {
+	return key.Sign() > 0 && key.Cmp(secp256k1.N) < 0
+}
-- 
2.43.0


From 36ab0f573f258b7a0c41c10b65117bee8b06dd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:07 +0000
Subject: [PATCH 06/16] fix: distinct private keys whose WIF only differ in
 case are considered identical

---
 private_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index 327a14d..47cd192 100644
--- a/private_key.go
+++ b/private_key.go
@@ -167,7 +167,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
@@ -192,7 +192,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
-- 
2.43.0


From 4469e8ee9c547a9cde9755ecd7ea453610174d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:08 +0000
Subject: [PATCH 07/16] fix: PublicFromHex panics on short strings and accepts
 strings of the wrong length or not in hex

---
 public_key.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..3afa352 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,16 +18,24 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("unsupported public key format")
+	}
+
 	prefix := hexa[0:2]
 
-	if prefix == "04" {
+	if prefix == "04" && len(hexa) == 130 {
 		/* Uncompressed */
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
-	} else if prefix == "03" || prefix == "02" {
+	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 
-- 
2.43.0


From 034657d53dd0b1fcd386d0e179c09eb3431569bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:10 +0000
Subject: [PATCH 08/16] fix: PublicFromHex accepts uncompressed keys that are
 not on the curve and coordinates above P

---
 public_key.go | 6 ++++++
 util.go       | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/public_key.go b/public_key.go
index 3afa352..d125c52 100644
--- a/public_key.go
+++ b/public_key.go
@@ -35,9 +35,15 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
+		if !isFieldElement(publicKey.X) || !isFieldElement(publicKey.Y) || !secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y}) {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
 	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
+		if !isFieldElement(publicKey.X) {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
 
 		y, onCurve := secp256k1.GetY(publicKey.X)
 		if !onCurve {
diff --git a/util.go b/util.go
index 7e3357a..ae53fd0 100644
--- a/util.go
+++ b/util.go
@@ -24,3 +24,8 @@ func bigIntToHex(n *big.Int) string {
 func isValidKey(key *big.Int) bool {
 	return key.Sign() > 0 && key.Cmp(secp256k1.N) < 0
 }
+
+/* Coordinates of points are numbers between 0 and P - 1 */
+func isFieldElement(n *big.Int) bool {
+	return n.Sign() >= 0 && n.Cmp(secp256k1.P) < 0
+}
-- 
2.43.0


From 44e7d5237b3ef83466f102cc5a2b9f9a07bb5d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:13 +0000
Subject: [PATCH 09/16] fix: the public key of the private key 1 shares its
 coordinates with the generator point

---
 public_key.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index d125c52..bcd2bc9 100644
--- a/public_key.go
+++ b/public_key.go
@@ -78,8 +78,9 @@ func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* Do not share the coordinates of the generator point */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From 832a701a348fe855dd0c55f9913311fae19a7766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:15 +0000
Subject: [PATCH 10/16] fix: GetPublicKey exits the process for the private key
 N-1

---
 public_key.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index bcd2bc9..43c778c 100644
--- a/public_key.go
+++ b/public_key.go
@@ -74,13 +74,28 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	if !isValidKey(p.Key) {
+		return nil, false
+	}
+
+	/* kG = -((N - k)G), and the ladder does not support k = N - 1: use the smallest of k and N - k */
+	key := p.Key
+	opposite := new(big.Int).Sub(secp256k1.N, p.Key)
+	negate := opposite.Cmp(key) < 0
+	if negate {
+		key = opposite
+	}
+
+	R, valid := secp256k1.ScalarMult(key, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
 	/* Do not share the coordinates of the generator point */
 	publicKey.X = new(big.Int).Set(R.X)
 	publicKey.Y = new(big.Int).Set(R.Y)
+	if negate {
+		publicKey.Y.Sub(secp256k1.P, publicKey.Y)
+	}
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From d1cf6a2f56d47d89f809ef4358ed92dcb35200c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:18 +0000
Subject: [PATCH 11/16] fix: AddPublicKeys exits the process when the keys are
 opposite or not on the curve

---
 public_key.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/public_key.go b/public_key.go
index 43c778c..3d71880 100644
--- a/public_key.go
+++ b/public_key.go
@@ -210,6 +210,15 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		Y: p2.Y,
 	}
 
+	if !secp256k1.IsOnCurve(point1) || !secp256k1.IsOnCurve(point2) {
+		return nil, errors.New("point is not on curve")
+	}
+
+	/* P + (-P) is the point at infinity, which is not a public key */
+	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
+		return nil, errors.New("public keys are opposite")
+	}
+
 	r, onCurve := secp256k1.AddPoints(point1, point2)
 	if !onCurve {
 		return nil, errors.New("point is not on curve")
-- 
2.43.0


From 5a4bba6a5cec23ac4cbcd371275e595d6cd482fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:20 +0000
Subject: [PATCH 12/16] fix: NewMnemonic generates phrases whose checksum is
 invalid

---
 mnemonic.go | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..4435e9f 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -109,8 +109,12 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 		return "", err
 	}
 
+	/* Keep the leading zeros of the entropy */
+	entropyBytes := make([]byte, entropyLength/8)
+	copy(entropyBytes[len(entropyBytes)-len(entropy.Bytes()):], entropy.Bytes())
+
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
@@ -118,6 +122,9 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	hashInt := new(big.Int).SetBytes(hash)
 
 	hashBinary := fmt.Sprintf("%b", hashInt)
+	for len(hashBinary) < 256 {
+		hashBinary = "0" + hashBinary
+	}
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
@@ -127,19 +134,10 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	}
 
 	b = b + checksumBinary
-	binary, _ := new(big.Int).SetString(b, 2)
 
 	var phrase []string
 	for i := 0; i < len(b); i += 11 {
-		str := ""
-		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
-				str += "0"
-			} else {
-				str += "1"
-			}
-		}
-		n, _ := new(big.Int).SetString(str, 2)
+		n, _ := new(big.Int).SetString(b[i:i+11], 2)
 		phrase = append(phrase, wordlist[n.Int64()])
 	}
 
-- 
2.43.0


From 993c760d34255625b5bdf7d8f3a6f4af35828bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:22 +0000
Subject: [PATCH 13/16] fix: NewMnemonic panics when the wordlist has less than
 2048 words

---
 mnemonic.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 4435e9f..9c8ef1d 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -76,7 +76,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	if len(wordlist) != 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
-- 
2.43.0


From 8666c456570ffcdf06c684cf1b18f01b1a7feb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:24 +0000
Subject: [PATCH 14/16] fix: NewSeedFromMnemonic panics on, rejects or logs
 valid phrases of less than 24 words

---
 mnemonic.go | 47 +++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 9c8ef1d..8dce1f2 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,16 +3,18 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
-	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
 )
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
+	if len(wordlist) != 2048 {
+		return nil, errors.New("invalid wordlist")
+	}
+
 	words := strings.Split(mnemonic, " ")
 	binary := ""
 	for _, word := range words {
@@ -35,41 +37,30 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
-	hash := ""
-	for i := 0; i < len(binary); i += 4 {
-		n := ""
-		for j := i; j-i < 4; j++ {
-			n += string(binary[j])
-		}
-		log.Println(n)
-		nInt, _ := new(big.Int).SetString(n, 2)
-		hexa := bigIntToHex(nInt)
-		hash += hexa
+	/* 12, 15, 18, 21 or 24 words */
+	if len(words) < 12 || len(words) > 24 || len(words)%3 != 0 {
+		return nil, errors.New("unsupported mnemonic length")
 	}
 
-	checksum := hash[len(hash)-2 : len(hash)]
+	/* One bit of checksum for 32 bits of entropy */
+	checksumLength := len(binary) / 33
+	entropyLength := len(binary) - checksumLength
+	checksum := binary[entropyLength:]
 
-	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
-	if err != nil {
-		return nil, err
+	var entropy []byte
+	for i := 0; i < entropyLength; i += 8 {
+		n, _ := new(big.Int).SetString(binary[i:i+8], 2)
+		entropy = append(entropy, byte(n.Int64()))
 	}
-	sha.Write(decoded)
-	shaHash := sha.Sum(nil)
-
-	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
 
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
-	}
+	sha := sha256.New()
+	sha.Write(entropy)
+	shaHash := sha.Sum(nil)
 
-	if shaHashHex[0:2] != checksum {
+	if fmt.Sprintf("%08b", shaHash[0])[0:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
-	log.Println(hash, checksum)
 	return nil, nil
 }
 
-- 
2.43.0


From cdd4c6fc4c6da5ee9a936a6dce37fc823dceae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:26 +0000
Subject: [PATCH 15/16] fix: NewSeedFromMnemonic returns no seed

---
 mnemonic.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mnemonic.go b/mnemonic.go
index 8dce1f2..5b2f608 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,10 +3,13 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"errors"
 	"fmt"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
@@ -61,7 +64,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		return nil, errors.New("invalid checksum")
 	}
 
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0


From 825924184aaf5ced7a40e6dba0fac5eb78ee6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:07 +0000
Subject: [PATCH 16/16] fix: importing compressed public keys no longer writes
 to the shared curve

---
 public_key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 3d71880..1bc2f47 100644
--- a/public_key.go
+++ b/public_key.go
@@ -45,7 +45,10 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
 
-		y, onCurve := secp256k1.GetY(publicKey.X)
+		/* GetY overwrites the parameter A of its curve: do not share it between calls */
+		curve := secp256k1
+		curve.A = new(big.Int).Set(secp256k1.A)
+		y, onCurve := curve.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
-- 
2.43.0

