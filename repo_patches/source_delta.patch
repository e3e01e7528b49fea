From 007246369daf06003a36869b8fbc69b87068dcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:23 +0000
Subject: [PATCH 01/10] fix: CheckWIF panics on text that decodes to fewer than
 four bytes

---
 private_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/private_key.go b/private_key.go
index 2c61000..f077242 100644
--- a/private_key.go
+++ b/private_key.go
@@ -18,6 +18,11 @@ func CheckWIF(wif string) bool {
 		return false
 	}
 
+	/* The checksum is 4 bytes long */
+	if len(bytes) < 4 {
+		return false
+	}
+
 	hexa := hex.EncodeToString(bytes)
 	checksum := hexa[len(hexa)-8 : len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
-- 
2.43.0


From b8d090ff31764b16b38ca967296747e85db17150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:25 +0000
Subject: [PATCH 02/10] fix: private keys that are not 32 bytes between 1 and
 N-1 are accepted

PrivateFromHex took any even number of hex digits (the empty string and
zero included) and encoded a WIF no wallet can read. Sums and products
whose hex is shorter than 64 digits were passed to it unpadded, so
AddPrivateKeys and MultiplyPrivateKeys failed on one result in sixteen and
returned a truncated WIF on one in 256.
---
 private_key.go | 12 +++++++++---
 util.go        | 15 +++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/private_key.go b/private_key.go
index f077242..fcf71c3 100644
--- a/private_key.go
+++ b/private_key.go
@@ -4,6 +4,7 @@ import (
 	"crypto/sha256"
 	"encoding/hex"
 	"errors"
+	"fmt"
 	"math/big"
 	"reflect"
 	"strings"
@@ -75,8 +76,13 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 // PrivateFromHex imports a private key from its hex value
 func PrivateFromHex(hexa string, network *Network) (*PrivateKey, error) {
 
+	key, err := keyFromHex(hexa)
+	if err != nil {
+		return nil, err
+	}
+
 	var p PrivateKey
-	p.Key, _ = new(big.Int).SetString(hexa, 16)
+	p.Key = key
 	p.Hex = hexa
 	/* Add network byte to the hex value */
 	hexa = network.PrivKeyPrefix + hexa
@@ -152,7 +158,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Add(p1.Key, p2.Key)
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
-	hexa := bigIntToHex(pKey)
+	hexa := fmt.Sprintf("%064x", pKey)
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
@@ -173,7 +179,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 	pKey = pKey.Mul(p1.Key, p2.Key)
 	pKey = pKey.Mod(pKey, secp256k1.N)
 
-	hexa := bigIntToHex(pKey)
+	hexa := fmt.Sprintf("%064x", pKey)
 
 	privateKey, err := PrivateFromHex(hexa, p1.Network)
 	return privateKey, err
diff --git a/util.go b/util.go
index 3b7fa9b..9f3afc4 100644
--- a/util.go
+++ b/util.go
@@ -2,6 +2,8 @@ package btc
 
 import (
 	"crypto/rand"
+	"encoding/hex"
+	"errors"
 	"fmt"
 	"math/big"
 )
@@ -19,3 +21,16 @@ func generateRandomBigInt() *big.Int {
 func bigIntToHex(n *big.Int) string {
 	return fmt.Sprintf("%x", n)
 }
+
+// keyFromHex decodes a private key: 32 bytes, between 1 and secp256k1.N - 1
+func keyFromHex(hexa string) (*big.Int, error) {
+	bytes, err := hex.DecodeString(hexa)
+	if err != nil {
+		return nil, err
+	}
+	key := new(big.Int).SetBytes(bytes)
+	if len(bytes) != 32 || key.Sign() == 0 || key.Cmp(secp256k1.N) >= 0 {
+		return nil, errors.New("invalid private key")
+	}
+	return key, nil
+}
-- 
2.43.0


From 28969985f55325549dcf97857d76d2afee676852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:28 +0000
Subject: [PATCH 03/10] fix: PrivateFromWIF accepts what is not a private key
 of the network

A WIF of another network, an address or any other text with a valid
checksum was imported, and the marker of a compressed WIF was taken for the
last byte of the key.
---
 private_key.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index fcf71c3..39894ba 100644
--- a/private_key.go
+++ b/private_key.go
@@ -61,13 +61,26 @@ func PrivateFromWIF(wif string, network *Network) (*PrivateKey, error) {
 
 	hexa := hex.EncodeToString(bytes)
 
-	hexa = hexa[2:len(hexa)]
 	hexa = hexa[0 : len(hexa)-8]
 
+	/* Remove the network byte, which has to be the one of the network */
+	if network == nil || !strings.HasPrefix(hexa, strings.ToLower(network.PrivKeyPrefix)) {
+		return nil, errors.New("different network")
+	}
+	hexa = hexa[len(network.PrivKeyPrefix):len(hexa)]
+
+	/* Remove the marker of compressed public keys */
+	if len(hexa) == 66 && hexa[64:66] == "01" {
+		hexa = hexa[0:64]
+	}
+
 	var privateKey PrivateKey
 	privateKey.WIF = wif
 	privateKey.Hex = hexa
-	privateKey.Key, _ = new(big.Int).SetString(hexa, 16)
+	privateKey.Key, err = keyFromHex(hexa)
+	if err != nil {
+		return nil, err
+	}
 	privateKey.Network = network
 
 	return &privateKey, nil
-- 
2.43.0


From 6a5765abe7a7fa02a400b76589187b273684cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:30 +0000
Subject: [PATCH 04/10] fix: keys are compared by their WIF without regard to
 letter case

Base58 is case sensitive: two keys whose WIFs differ only in letter case are
different keys, and one key has a compressed and an uncompressed WIF.
---
 private_key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/private_key.go b/private_key.go
index 39894ba..8cfbedd 100644
--- a/private_key.go
+++ b/private_key.go
@@ -163,7 +163,7 @@ func AddPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
@@ -184,7 +184,7 @@ func MultiplyPrivateKeys(p1 *PrivateKey, p2 *PrivateKey) (*PrivateKey, error) {
 		return nil, errors.New("different network")
 	}
 
-	if strings.ToLower(p1.WIF) == strings.ToLower(p2.WIF) {
+	if p1.Key.Cmp(p2.Key) == 0 {
 		return nil, errors.New("private keys are identical")
 	}
 
-- 
2.43.0


From 529ae3a0d779bab26f74a736666fd70dce8c5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:33 +0000
Subject: [PATCH 05/10] fix: GetPublicKey ends the process for the private key
 N-1

The scalar multiplication calls log.Fatal when two opposite points meet,
which happens in its last step for N-1. It also ignores the bits of a key
above 256, and for the private key 1 it returns the curve's own generator,
so that changing the public key changed the curve.
---
 public_key.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/public_key.go b/public_key.go
index 99d8cec..97abd68 100644
--- a/public_key.go
+++ b/public_key.go
@@ -60,12 +60,27 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 func (p *PrivateKey) GetPublicKey() (*PublicKey, bool) {
 	var publicKey PublicKey
 
-	R, valid := secp256k1.ScalarMult(p.Key, secp256k1.G)
+	if p.Key == nil || p.Key.Sign() <= 0 || p.Key.Cmp(secp256k1.N) >= 0 {
+		return nil, false
+	}
+
+	/* kG = -(N-k)G: multiplying by the smaller of k and N-k keeps ScalarMult away from the point at infinity, which it cannot add up to */
+	k := new(big.Int).Sub(secp256k1.N, p.Key)
+	negative := k.Cmp(p.Key) < 0
+	if !negative {
+		k.Set(p.Key)
+	}
+
+	R, valid := secp256k1.ScalarMult(k, secp256k1.G)
 	if !valid {
 		return nil, false
 	}
-	publicKey.X = R.X
-	publicKey.Y = R.Y
+	/* R may be the generator point itself */
+	publicKey.X = new(big.Int).Set(R.X)
+	publicKey.Y = new(big.Int).Set(R.Y)
+	if negative {
+		publicKey.Y.Sub(secp256k1.P, R.Y)
+	}
 
 	publicKey.Network = p.Network
 
-- 
2.43.0


From 8a8af6f4bac6678f7bde99aa425ac97d3050a96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:35 +0000
Subject: [PATCH 06/10] fix: AddPublicKeys ends the process when the keys are
 opposite points

---
 public_key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/public_key.go b/public_key.go
index 97abd68..973f779 100644
--- a/public_key.go
+++ b/public_key.go
@@ -186,6 +186,11 @@ func AddPublicKeys(p1 *PublicKey, p2 *PublicKey, compressed bool) (*PublicKey, e
 		return nil, errors.New("different network")
 	}
 
+	/* Opposite points add up to the point at infinity, which is not a public key */
+	if p1.X.Cmp(p2.X) == 0 && p1.Y.Cmp(p2.Y) != 0 {
+		return nil, errors.New("point is not on curve")
+	}
+
 	point1 := ecdsa.Point{
 		X: p1.X,
 		Y: p1.Y,
-- 
2.43.0


From 4fa4e7fa46c203af01a1e0ec33d87d6f4915c1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:38 +0000
Subject: [PATCH 07/10] fix: PublicFromHex panics on short text and accepts
 points off the curve

Text of the wrong length or with signs in place of hex digits, coordinates
that are not reduced and uncompressed keys off the curve were accepted, and
short text or text that is not hex panicked.
---
 public_key.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/public_key.go b/public_key.go
index 973f779..74340f6 100644
--- a/public_key.go
+++ b/public_key.go
@@ -18,18 +18,32 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 	var publicKey PublicKey
 	publicKey.Network = network
 
+	if _, err := hex.DecodeString(hexa); err != nil {
+		return nil, err
+	}
+	if len(hexa) != 66 && len(hexa) != 130 {
+		return nil, errors.New("unsupported public key format")
+	}
+
 	prefix := hexa[0:2]
 
-	if prefix == "04" {
+	if prefix == "04" && len(hexa) == 130 {
 		/* Uncompressed */
 		x := hexa[2:66]
 		y := hexa[66:130]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
 		publicKey.Y, _ = new(big.Int).SetString(y, 16)
 
-	} else if prefix == "03" || prefix == "02" {
+		onCurve := secp256k1.IsOnCurve(ecdsa.Point{X: publicKey.X, Y: publicKey.Y})
+		if !onCurve || publicKey.X.Cmp(secp256k1.P) >= 0 || publicKey.Y.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
+	} else if (prefix == "03" || prefix == "02") && len(hexa) == 66 {
 		x := hexa[2:66]
 		publicKey.X, _ = new(big.Int).SetString(x, 16)
+		if publicKey.X.Cmp(secp256k1.P) >= 0 {
+			return nil, errors.New("point is not on secp256k1 curve")
+		}
 
 		y, onCurve := secp256k1.GetY(publicKey.X)
 		if !onCurve {
-- 
2.43.0


From 1b011884095930230de247ea2ee5f69c2babc6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:40 +0000
Subject: [PATCH 08/10] fix: concurrent calls of PublicFromHex write to the
 shared curve

---
 public_key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/public_key.go b/public_key.go
index 74340f6..301279f 100644
--- a/public_key.go
+++ b/public_key.go
@@ -45,7 +45,10 @@ func PublicFromHex(hexa string, network *Network) (*PublicKey, error) {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
 
-		y, onCurve := secp256k1.GetY(publicKey.X)
+		/* GetY writes to the curve's A, so give it its own */
+		curve := secp256k1
+		curve.A = new(big.Int).Set(secp256k1.A)
+		y, onCurve := curve.GetY(publicKey.X)
 		if !onCurve {
 			return nil, errors.New("point is not on secp256k1 curve")
 		}
-- 
2.43.0


From 425076469b6f49ba353c00937752088ac3bbb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:43 +0000
Subject: [PATCH 09/10] fix: NewMnemonic makes phrases that fail the BIP39
 checksum

The words were taken from the bits in reverse order, and the leading zeros
of the entropy and of its hash were left out of the checksum. A wordlist
that does not have 2048 words panicked.
---
 mnemonic.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 722a4ee..8d4b5ec 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -76,7 +76,7 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 // NewMnemonic generates a new mnemonic phrase
 func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 
-	if wordlist == nil {
+	if len(wordlist) != 2048 {
 		return "", errors.New("invalid wordlist")
 	}
 
@@ -109,15 +109,20 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 		return "", err
 	}
 
+	entropyBytes, err := hex.DecodeString(fmt.Sprintf("%0*x", entropyLength/4, entropy))
+	if err != nil {
+		return "", err
+	}
+
 	sha := sha256.New()
-	sha.Write(entropy.Bytes())
+	sha.Write(entropyBytes)
 	hash := sha.Sum(nil)
 
 	checksumLength := entropyLength / 32
 
 	hashInt := new(big.Int).SetBytes(hash)
 
-	hashBinary := fmt.Sprintf("%b", hashInt)
+	hashBinary := fmt.Sprintf("%0256b", hashInt)
 	checksumBinary := hashBinary[0:checksumLength]
 
 	b := fmt.Sprintf("%b", entropy)
@@ -133,7 +138,8 @@ func NewMnemonic(words int, wordlist Wordlist) (string, error) {
 	for i := 0; i < len(b); i += 11 {
 		str := ""
 		for j := i; j-i < 11; j++ {
-			if binary.Bit(j) == 0 {
+			/* Most significant bit first */
+			if binary.Bit(len(b)-1-j) == 0 {
 				str += "0"
 			} else {
 				str += "1"
-- 
2.43.0


From e07728f162f8ddb49d0bab2c1def2ee2dc2772b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:19:45 +0000
Subject: [PATCH 10/10] fix: NewSeedFromMnemonic returns no seed and logs the
 mnemonic

It returned nil for every valid phrase, panicked or failed on every phrase
that is not 24 words long, and wrote the bits of the phrase to the log.
---
 mnemonic.go | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/mnemonic.go b/mnemonic.go
index 8d4b5ec..2903d06 100644
--- a/mnemonic.go
+++ b/mnemonic.go
@@ -3,16 +3,22 @@ package btc
 import (
 	"crypto/rand"
 	"crypto/sha256"
+	"crypto/sha512"
 	"encoding/hex"
 	"errors"
 	"fmt"
-	"log"
 	"math/big"
 	"strings"
+
+	"golang.org/x/crypto/pbkdf2"
 )
 
 // NewSeedFromMnemonic returns the hash of the mnemonic
 func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist) ([]byte, error) {
+	if len(wordlist) != 2048 {
+		return nil, errors.New("invalid wordlist")
+	}
+
 	words := strings.Split(mnemonic, " ")
 	binary := ""
 	for _, word := range words {
@@ -35,42 +41,33 @@ func NewSeedFromMnemonic(mnemonic string, passphrase string, wordlist Wordlist)
 		binary += indexBinary
 	}
 
-	hash := ""
-	for i := 0; i < len(binary); i += 4 {
-		n := ""
-		for j := i; j-i < 4; j++ {
-			n += string(binary[j])
-		}
-		log.Println(n)
-		nInt, _ := new(big.Int).SetString(n, 2)
-		hexa := bigIntToHex(nInt)
-		hash += hexa
+	switch len(words) {
+	case 12, 15, 18, 21, 24:
+	default:
+		return nil, errors.New("unsupported mnemonic length")
 	}
 
-	checksum := hash[len(hash)-2 : len(hash)]
+	/* The checksum has one bit for every 32 bits of entropy */
+	checksumLength := len(binary) / 33
+	checksum := binary[len(binary)-checksumLength : len(binary)]
 
-	sha := sha256.New()
-	decoded, err := hex.DecodeString(hash[0 : len(hash)-2])
+	entropy, _ := new(big.Int).SetString(binary[0:len(binary)-checksumLength], 2)
+	decoded, err := hex.DecodeString(fmt.Sprintf("%0*x", checksumLength*8, entropy))
 	if err != nil {
 		return nil, err
 	}
+
+	sha := sha256.New()
 	sha.Write(decoded)
 	shaHash := sha.Sum(nil)
 
-	shaHashBig := new(big.Int).SetBytes(shaHash)
-	shaHashHex := bigIntToHex(shaHashBig)
-
-	for len(shaHashHex) < 64 {
-		shaHashHex = "0" + shaHashHex
-	}
+	shaHashBinary := fmt.Sprintf("%0256b", new(big.Int).SetBytes(shaHash))
 
-	if shaHashHex[0:2] != checksum {
+	if shaHashBinary[0:checksumLength] != checksum {
 		return nil, errors.New("invalid checksum")
 	}
 
-	log.Println(shaHashHex, len(shaHashHex))
-	log.Println(hash, checksum)
-	return nil, nil
+	return pbkdf2.Key([]byte(mnemonic), []byte("mnemonic"+passphrase), 2048, 64, sha512.New), nil
 }
 
 // NewMnemonic generates a new mnemonic phrase
-- 
2.43.0

