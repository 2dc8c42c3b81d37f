From ce75032928e06115a8aff168a28c0e80c2ea1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 01/72] fix: buffer reader must reject negative and overflowing
 lengths

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..e6274bb 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > b.length-b.seek {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
-- 
2.43.0


From bf9f9a5724c0d8ce902ec2151db1826051eee31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 02/72] fix: bech32 encoding must not write into the caller's
 buffer

---
 xbase/bech32.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..757d4f0 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,9 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := make([]byte, 0, len(data)+len(checksum))
+	combined = append(combined, data...)
+	combined = append(combined, checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From 18f710cd519a5610e336e07339f88a4e5d9f1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 03/72] fix: segwit address decoding must reject missing or
 invalid versions and programs

---
 xbase/witness.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..ec4c129 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -15,10 +15,17 @@ func WitnessDecode(addr string) (string, byte, []byte, error) {
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(data) < 1 || data[0] > 16 {
+		return "", 0, nil, fmt.Errorf("invalid witness version")
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
 	}
+	// BIP173: the program is 2 to 40 bytes, and 20 or 32 bytes for version 0.
+	if len(res) < 2 || len(res) > 40 || (data[0] == 0 && len(res) != 20 && len(res) != 32) {
+		return "", 0, nil, fmt.Errorf("invalid witness program length %d", len(res))
+	}
 	return hrp, data[0], res, nil
 }
 
-- 
2.43.0


From 2ce1ef294bd0119e3a381b34e1334fb53d7fba39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 04/72] fix: segwit address prefix ends at the last separator
 and may be upper case

---
 xcore/address.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcore/address.go b/xcore/address.go
index 16cf908..7db39cd 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -32,10 +32,10 @@ type Address interface {
 // DecodeAddress -- decode the string address and returns the Address with a known address type.
 func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	// Bech32 encoded segwit addresses start with a human-readable part (hrp) followed by '1'(bc or tb)
-	oneIndex := strings.IndexByte(addr, '1')
-	if oneIndex == 2 {
+	oneIndex := strings.LastIndexByte(addr, '1')
+	if oneIndex > 0 {
 		prefix := addr[:oneIndex]
-		if prefix == net.Bech32HRPSegwit {
+		if strings.EqualFold(prefix, net.Bech32HRPSegwit) {
 			_, version, witnessProgram, err := xbase.WitnessDecode(addr)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From ab07fee6eda70cc70ef5fae0608252d27b6ae55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:55 +0000
Subject: [PATCH 05/72] fix: merkle levels with an even number of nodes must
 not hash the padding

---
 xcrypto/merkle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..332cb67 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -55,6 +55,9 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
+			if left == nil {
+				break
+			}
 			if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
-- 
2.43.0


From f7da983334918c7f4c18428c3638a78d74421b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 06/72] fix: schnorr parties must hash the shared nonce point
 into the challenge

---
 xcrypto/mpc_schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..b8f40eb 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,10 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
-- 
2.43.0


From 2d28c8227b3f865533467c5924a62af58fed08ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 07/72] fix: schnorr nonce negation must not overwrite the
 party's stored nonce

---
 xcrypto/schnorr/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..ed4937e 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -127,7 +127,7 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	if big.Jacobi(Ry, P) == 1 {
 		return k0
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
-- 
2.43.0


From 5f5c1bd42481140f8b8f76c371d9c2e7028c77d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 08/72] fix: schnorr signatures must be exactly 64 bytes

---
 xcrypto/signature_schnorr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..6de1dc4 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -34,6 +34,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != 64 {
+		return fmt.Errorf("schnorr.signature.size[%v].invalid", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From 80e8852d4466ee54f9178eb2b4319a659aef56b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 09/72] fix: ecdsa signatures must be exactly the DER encoding
 of R and S

---
 xcrypto/signature_ecdsa.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..3b88632 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"bytes"
 	"crypto/ecdsa"
 	"encoding/asn1"
 	"fmt"
@@ -36,8 +37,18 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	if _, err := asn1.Unmarshal(sign, sig); err != nil {
+		return err
+	}
+	// Only the DER encoding of (R, S) itself is valid, with nothing after or inside it.
+	der, err := sig.Serialize()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, sign) {
+		return fmt.Errorf("ecdsa.signature.encoding.invalid")
+	}
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From 84b5f5bc22a00e32b24f97f478ed41f2bbc16ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:44 +0000
Subject: [PATCH 10/72] fix: public key format 0x05 is not a valid uncompressed
 key

---
 xcrypto/pubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/pubkey.go b/xcrypto/pubkey.go
index 622da2a..aa232c8 100644
--- a/xcrypto/pubkey.go
+++ b/xcrypto/pubkey.go
@@ -49,7 +49,7 @@ func PubKeyFromBytes(key []byte) (*PubKey, error) {
 	switch pkLen {
 	case pubKeyBytesLenUncompressed:
 		// Format invalid.
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
+		if (format != pubkeyUncompressed || ybit) && format != pubkeyHybrid {
 			return nil, fmt.Errorf("pubkey.format.invalid:%v", format)
 		}
 
-- 
2.43.0


From 6d068e432d31cca5eab8d93fd9f43aa7db5e8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:56 +0000
Subject: [PATCH 11/72] fix: compressed point decoding must check the length

---
 xcrypto/secp256k1/sec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 77ee42f..9113976 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -37,7 +37,7 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 	curveParams := curve.Params()
 
 	// Check format.
-	if (data[0] &^ 1) != 2 {
+	if len(data) != 1+(curveParams.BitSize+7)>>3 || (data[0]&^1) != 2 {
 		return nil, nil
 	}
 
-- 
2.43.0


From 08b9e6ea36988c78b624ecf4ab9785a3f8f8b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:32 +0000
Subject: [PATCH 12/72] fix: paillier division by a non-invertible plaintext
 must fail, not panic

---
 xcrypto/paillier/homomorphism.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xcrypto/paillier/homomorphism.go b/xcrypto/paillier/homomorphism.go
index f0cc373..3ca2f3d 100644
--- a/xcrypto/paillier/homomorphism.go
+++ b/xcrypto/paillier/homomorphism.go
@@ -39,8 +39,11 @@ func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 	if ct == nil || ct.Cmp(zero) != 1 {
 		return nil, fmt.Errorf("input.invalid")
 	}
-	m := new(big.Int).Set(msg)
-	return new(big.Int).Exp(ct, m.ModInverse(m, pk.NN), pk.NN), nil
+	m := new(big.Int).ModInverse(msg, pk.NN)
+	if m == nil {
+		return nil, fmt.Errorf("plaintext.invalid")
+	}
+	return new(big.Int).Exp(ct, m, pk.NN), nil
 }
 
 // Add -- returns a ciphertext `ct3` that will decipher to the sum of
-- 
2.43.0


From bdd4fa7b720c19097166b420c974bb585f2b5005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 13/72] fix: deriving a child of a key at the maximum depth
 must fail

---
 xcore/bip32/hdkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..fd98573 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -134,6 +134,9 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 	}
 
 	// Create child Key with data common to all both scenarios.
+	if k.depth == 0xff {
+		return nil, fmt.Errorf("hdkey.derive.depth.exceeded")
+	}
 	childKey := &HDKey{
 		childNum:  uint32ToBytes(childIdx),
 		chainCode: intermediary[32:],
-- 
2.43.0


From 92f0ecfe27a42e1f3c687822675f891fa25e5d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:26 +0000
Subject: [PATCH 14/72] fix: derivation paths with empty steps or out-of-range
 hardened indexes must fail

---
 xcore/bip32/hdkey.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index fd98573..1c62700 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -181,7 +181,7 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
-		if step[len(step)-1] == '\'' {
+		if strings.HasSuffix(step, "'") {
 			isHardened = true
 			step = step[:len(step)-1]
 		}
@@ -191,6 +191,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
-- 
2.43.0


From af1cd373e4ed2bed0a2aedf85478940dc8283d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:27 +0000
Subject: [PATCH 15/72] fix: importing an extended key must reject the invalid
 keys of BIP32

---
 xcore/bip32/hdkey.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1c62700..66fbe5c 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -324,6 +324,21 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.checksum.mismatch")
 		}
 	}
+
+	// The key data must agree with the version, and a private key be in 1..n-1.
+	version := data[0:4]
+	for _, net := range []*network.Network{network.MainNet, network.TestNet} {
+		if (k.isPrivate && bytes.Equal(version, net.HDPublicKeyID)) || (!k.isPrivate && bytes.Equal(version, net.HDPrivateKeyID)) {
+			return nil, fmt.Errorf("hdkey.version.mismatch[%x]", version)
+		}
+	}
+	if k.isPrivate && (k.prvkey.D.Sign() == 0 || k.prvkey.D.Cmp(k.prvkey.Curve.Params().N) >= 0) {
+		return nil, fmt.Errorf("hdkey.private.key.out.of.range")
+	}
+	// A master key has no parent.
+	if k.depth == 0 && !bytes.Equal(data[5:13], make([]byte, 8)) {
+		return nil, fmt.Errorf("hdkey.master.key.has.parent")
+	}
 	return k, nil
 }
 
-- 
2.43.0


From bb72c372dde285dc7f7653ceb2ad5f56fca52cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:28 +0000
Subject: [PATCH 16/72] fix: mnemonic entropy must come from the system's
 secure random source

---
 xcore/bip39/bip39.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..091c16a 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,14 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,8 +105,7 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
+	_, err = rand.Read(entropy)
 	return entropy, err
 }
 
-- 
2.43.0


From 67c36da7c3d8d970039f408c1cb1d2adb2c9321f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 17/72] fix: concurrent use of the mnemonic word list must not
 race

---
 xcore/bip39/bip39.go | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 091c16a..a6921a2 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"math/big"
 	"strings"
+	"sync"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -50,6 +51,9 @@ var (
 
 	// wordMap is a reverse lookup map for wordList
 	wordMap map[string]int
+
+	// wordMu guards wordList and wordMap.
+	wordMu sync.RWMutex
 )
 
 var (
@@ -76,20 +80,28 @@ func init() {
 // SetWordList sets the list of words to use for mnemonics. Currently the list
 // that is set is used package-wide.
 func SetWordList(list []string) {
-	wordList = list
-	wordMap = map[string]int{}
-	for i, v := range wordList {
-		wordMap[v] = i
+	index := map[string]int{}
+	for i, v := range list {
+		index[v] = i
 	}
+
+	wordMu.Lock()
+	defer wordMu.Unlock()
+	wordList = list
+	wordMap = index
 }
 
 // GetWordList gets the list of words to use for mnemonics.
 func GetWordList() []string {
+	wordMu.RLock()
+	defer wordMu.RUnlock()
 	return wordList
 }
 
 // GetWordIndex gets word index in wordMap.
 func GetWordIndex(word string) (int, bool) {
+	wordMu.RLock()
+	defer wordMu.RUnlock()
 	idx, ok := wordMap[word]
 	return idx, ok
 }
@@ -121,7 +133,7 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 	// Decode the words into a big.Int.
 	b := big.NewInt(0)
 	for _, v := range mnemonicSlice {
-		index, found := wordMap[v]
+		index, found := GetWordIndex(v)
 		if !found {
 			return nil, fmt.Errorf("word `%v` not found in reverse map", v)
 		}
@@ -162,6 +174,10 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 // the given entropy.
 // If the provide entropy is invalid, an error will be returned.
 func NewMnemonic(entropy []byte) (string, error) {
+	return newMnemonic(entropy, GetWordList())
+}
+
+func newMnemonic(entropy []byte, wordList []string) (string, error) {
 	// Compute some lengths for convenience.
 	entropyBitLength := len(entropy) * 8
 	checksumBitLength := entropyBitLength / 32
@@ -226,7 +242,8 @@ func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	checksummedEntropy := big.NewInt(0)
 	modulo := big.NewInt(2048)
 	for _, v := range mnemonicSlice {
-		index := big.NewInt(int64(wordMap[v]))
+		idx, _ := GetWordIndex(v)
+		index := big.NewInt(int64(idx))
 		checksummedEntropy.Mul(checksummedEntropy, modulo)
 		checksummedEntropy.Add(checksummedEntropy, index)
 	}
@@ -285,7 +302,7 @@ func IsMnemonicValid(mnemonic string) bool {
 
 	// Check if all words belong in the wordlist
 	for _, word := range words {
-		if _, ok := wordMap[word]; !ok {
+		if _, ok := GetWordIndex(word); !ok {
 			return false
 		}
 	}
@@ -397,19 +414,19 @@ func NewBIP39(list Wordlists) (*BIP39, error) {
 	var err error
 	bip39 := &BIP39{}
 
+	wordList := words.English
 	switch list {
 	case CHINESE:
-		SetWordList(words.Chinese)
+		wordList = words.Chinese
 	case JAPANESE:
-		SetWordList(words.Japanese)
-	default:
-		SetWordList(words.English)
+		wordList = words.Japanese
 	}
+	SetWordList(wordList)
 
 	if bip39.entropy, err = NewEntropy(128); err != nil {
 		return nil, err
 	}
-	if bip39.mnemonic, err = NewMnemonic(bip39.entropy); err != nil {
+	if bip39.mnemonic, err = newMnemonic(bip39.entropy, wordList); err != nil {
 		return nil, err
 	}
 	return bip39, nil
-- 
2.43.0


From ffead8d825ef85ff5b3bd15ac4da34174e90d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 18/72] fix: script verification must not write into the
 caller's unlocking script

---
 xvm/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..e6f0182 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -95,7 +95,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 
 	// Reset.
 	vm.reset()
-	script := append(unlocking, locking...)
+	script := append(append([]byte{}, unlocking...), locking...)
 	if err := vm.execute(script, true); err != nil {
 		return err
 	}
-- 
2.43.0


From 0d5157c60ae10f092d6f6962149ce505d14f032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 19/72] fix: scripts with unbalanced conditionals must fail

---
 xvm/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xvm/engine.go b/xvm/engine.go
index e6f0182..7a94007 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -132,6 +132,7 @@ func (vm *Engine) PrintTrace() {
 }
 
 func (vm *Engine) execute(program []byte, final bool) error {
+	vm.cstack = vm.cstack[:0]
 	vm.reader = NewScriptReader(program)
 	for {
 		done, err := vm.Step()
@@ -156,6 +157,10 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		vm.lastOp = vm.instruction.op.name
 	}
 
+	if len(vm.cstack) != 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "unbalanced.conditional.at.end.of.script.execution")
+	}
+
 	if final {
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
-- 
2.43.0


From 7d6fec80a5aa3446bed06469e784f30a6838afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 20/72] fix: script verification must not see the stack of an
 earlier run

---
 xvm/engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xvm/engine.go b/xvm/engine.go
index 7a94007..17d58f4 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -88,6 +88,7 @@ func (vm *Engine) Execute(program []byte) error {
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	// Unlocking.
+	vm.reset()
 	if err := vm.execute(unlocking, false); err != nil {
 		return err
 	}
-- 
2.43.0


From 4ac51e42ef24d07538c7ee486992b16e16f5940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:36 +0000
Subject: [PATCH 21/72] fix: pay-to-script-hash must be recognised by the
 locking script

---
 xvm/engine.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 17d58f4..4238a90 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -102,7 +102,10 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	}
 
 	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	if isScriptHash(locking) {
+		if !isPushOnly(unlocking) {
+			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "p2sh.unlocking.is.not.push.only")
+		}
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -192,3 +195,25 @@ func (vm *Engine) reset() {
 	vm.pc = 0
 	vm.dstack.Clean()
 }
+
+// isScriptHash -- returns whether the locking script is a P2SH: OP_HASH160 <20 bytes> OP_EQUAL.
+func isScriptHash(locking []byte) bool {
+	return len(locking) == 23 &&
+		locking[0] == OP_HASH160 &&
+		locking[1] == OP_DATA_20 &&
+		locking[22] == OP_EQUAL
+}
+
+// isPushOnly -- returns whether the script only pushes data.
+func isPushOnly(script []byte) bool {
+	instrs, err := NewScriptReader(script).AllInstructions()
+	if err != nil {
+		return false
+	}
+	for _, instr := range instrs {
+		if instr.op.value > OP_16 {
+			return false
+		}
+	}
+	return true
+}
-- 
2.43.0


From 9e461a960b51fb38fca1dbfd4a120839f72d8b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:38 +0000
Subject: [PATCH 22/72] fix: multisig must not panic on hostile counts or empty
 signatures

---
 xvm/instruction_crypto.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..c712ec8 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -69,17 +69,30 @@ func opCheckSigVerify(vm *Engine) error {
 	return equalVerify(vm, xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckSigVerify")))
 }
 
+// maxPubKeysPerMultiSig -- the maximum number of public keys of a multisig.
+const maxPubKeysPerMultiSig = 20
+
 // m-of-n multisig
 //
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > maxPubKeysPerMultiSig {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:pubkeys[%v].out.of.range", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +108,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:signatures[%v].is.negative", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
@@ -122,6 +138,10 @@ func opCheckMultiSig(vm *Engine) error {
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
 		sig := signatures[sigIdx]
+		if len(sig) < 1 {
+			success = false
+			break
+		}
 		hashType := sig[len(sig)-1]
 		sigDER := sig[:len(sig)-1]
 
-- 
2.43.0


From 125057abf46c115603d961749c3355625d790fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 23/72] fix: scripts with OP_1NEGATE, which the builder emits,
 must be readable

---
 xvm/instruction.go          | 1 +
 xvm/instruction_pushdata.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..66361f9 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -11,6 +11,12 @@ func opPushData(vm *Engine) error {
 	return nil
 }
 
+// op1Negate -- pushes -1 onto the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(ScriptNum(-1))
+	return nil
+}
+
 // opN --
 // a common handler for the small integer data push opcodes.
 // It pushes the numeric value the opcode represents (which will be from 1 to 16) onto the data stack.
-- 
2.43.0


From 88fab0d788688d9527e8ebdf283a60f24b65c185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:54 +0000
Subject: [PATCH 24/72] fix: encoding the smallest script number must not panic

---
 xvm/scriptnum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xvm/scriptnum.go b/xvm/scriptnum.go
index 3ee6217..a292c7d 100644
--- a/xvm/scriptnum.go
+++ b/xvm/scriptnum.go
@@ -38,9 +38,9 @@ func (n ScriptNum) Bytes() []byte {
 		return nil
 	}
 	neg := n < 0
-	absvalue := n
+	absvalue := uint64(n)
 	if neg {
-		absvalue = -n
+		absvalue = -absvalue
 	}
 
 	// Encode to little endian.
-- 
2.43.0


From 6015474b8f19c3417dbd4e6db413737155302f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 25/72] fix: legacy signature hashes must follow the hash type

---
 xcore/transaction.go | 64 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..046400e 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -280,30 +280,64 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 	buffer := xbase.NewBuffer()
+	baseType := hashType & sigHashMask
+	anyOneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+
+	// The hash of an input out of range, or of a SigHashSingle without
+	// a matching output, is the number one(little endian).
+	if idx < 0 || idx >= len(tx.inputs) || (baseType == SigHashSingle && idx >= len(tx.outputs)) {
+		hash := make([]byte, hashSize)
+		hash[0] = 0x01
+		return hash
+	}
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
+
+	// Inputs.
+	if anyOneCanPay {
+		buffer.WriteVarInt(1)
+	} else {
 		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
-			buffer.WriteBytes(in.Hash)
-			buffer.WriteU32(in.Index)
-			if i == idx {
-				if in.RedeemScript != nil {
-					buffer.WriteVarBytes(in.RedeemScript)
-				} else {
-					script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-					buffer.WriteVarBytes(script)
-				}
+	}
+	for i, in := range tx.inputs {
+		if i != idx && anyOneCanPay {
+			continue
+		}
+		buffer.WriteBytes(in.Hash)
+		buffer.WriteU32(in.Index)
+		if i == idx {
+			if in.RedeemScript != nil {
+				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
-				buffer.WriteVarBytes(nil)
+				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
+				buffer.WriteVarBytes(script)
 			}
+		} else {
+			buffer.WriteVarBytes(nil)
+		}
+		// The other inputs of SigHashNone and SigHashSingle can be updated at will.
+		if i != idx && (baseType == SigHashNone || baseType == SigHashSingle) {
+			buffer.WriteU32(0)
+		} else {
 			buffer.WriteU32(in.Sequence)
 		}
+	}
 
-		buffer.WriteVarInt(uint64(len(tx.outputs)))
-		for _, out := range tx.outputs {
+	// Outputs.
+	outputs := tx.outputs
+	switch baseType {
+	case SigHashNone:
+		outputs = nil
+	case SigHashSingle:
+		outputs = tx.outputs[:idx+1]
+	}
+	buffer.WriteVarInt(uint64(len(outputs)))
+	for i, out := range outputs {
+		if baseType == SigHashSingle && i != idx {
+			buffer.WriteU64(0xffffffffffffffff)
+			buffer.WriteVarBytes(nil)
+		} else {
 			buffer.WriteU64(out.Value)
 			buffer.WriteVarBytes(out.Script)
 		}
-- 
2.43.0


From eab77874e1c6e8fc4473aa80c33e0eca266cca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 26/72] fix: witness signature hashes must not reuse stale
 parts and must follow the hash type

---
 xcore/transaction.go | 87 ++++++++++++++++++++------------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 046400e..8ee419b 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -111,13 +111,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -355,63 +352,57 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 	txIn := tx.inputs[idx]
 
 	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
+	// If anyone can pay isn't active, then we hash all the prev outs,
+	// otherwise we just write zeroes for the prev outs.
+	hashPrevouts := zeroHash[:]
 	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash[:])
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
-	// hashSequence.
+	// If the sighash isn't anyone can pay, single, or none, the hash
+	// all the sequences, otherwise write all zeroes for the hashSequence.
+	hashSequence := zeroHash[:]
 	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
 		}
-	} else {
-		tx.hashSequence = zeroHash[:]
-	}
-
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	}
+
+	// If the current signature mode isn't single, or none, then we hash
+	// all the outputs. Otherwise, we'll serialize and add only the target
+	// output index(single) or zeroes(none) to the signature pre-image.
+	hashOutputs := zeroHash[:]
+	if (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range tx.outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	} else if (hashType&sigHashMask) == SigHashSingle && idx < len(tx.outputs) {
+		hashBuffer := xbase.NewBuffer()
+		hashBuffer.WriteU64(tx.outputs[idx].Value)
+		hashBuffer.WriteVarBytes(tx.outputs[idx].Script)
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From f768b94d7dc4e7106d2a0d939095c5979a02f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 27/72] fix: errors of building the unlocking script must be
 reported

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 8ee419b..c560dda 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -256,7 +256,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	}
 	// Raw unlocking.
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+		return err
 	}
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-- 
2.43.0


From e95ecf7a7e86329e76f24fd56273d57714b6dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:08 +0000
Subject: [PATCH 28/72] fix: embedding a signature must not write into the
 caller's buffer

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index c560dda..ec0e598 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -269,7 +269,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := append(append([]byte{}, ecdsaSig...), byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
-- 
2.43.0


From 52a157367c4aa1e1738acd3e5a87e726f9c85e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 29/72] fix: signing must fail, not panic, on a bad input index
 or without signatures

---
 xcore/script_p2pkh.go     |  5 +++++
 xcore/script_p2wpkh_v0.go |  8 ++++++++
 xcore/transaction.go      | 13 +++++++++++--
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..210b951 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +58,9 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToPubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.is.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..b3d901c 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -50,12 +52,18 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetRawUnlockingScriptBytes.error:signs.is.empty")
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetWitnessUnlockingScriptBytes.error:signs.is.empty")
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
diff --git a/xcore/transaction.go b/xcore/transaction.go
index ec0e598..6261cf3 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -137,6 +137,9 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	if idx < 0 || idx >= len(tx.inputs) {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, len(tx.inputs))
+	}
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -204,6 +207,9 @@ func (tx *Transaction) WitnessID() string {
 
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	if idx < 0 || idx >= len(tx.inputs) {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, len(tx.inputs))
+	}
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
 
@@ -243,6 +249,9 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
+	if idx < 0 || idx >= len(tx.inputs) {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, len(tx.inputs))
+	}
 	txIn := tx.inputs[idx]
 
 	// Sanity check.
@@ -412,7 +421,7 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
@@ -432,7 +441,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
-- 
2.43.0


From aa816277ebd7863e6be312f1e5002929ff219302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 30/72] fix: transaction decoding must not trust the declared
 counts

---
 xcore/transaction.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 6261cf3..a70e908 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -556,9 +556,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -572,7 +572,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -581,9 +581,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -591,7 +591,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
@@ -604,11 +604,12 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				return err
 			}
 
-			in.Witness = make([][]byte, witCount)
 			for j := uint64(0); j < witCount; j++ {
-				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
+				wit, err := buffer.ReadVarBytes()
+				if err != nil {
 					return err
 				}
+				in.Witness = append(in.Witness, wit)
 			}
 		}
 	}
@@ -668,9 +669,9 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -684,7 +685,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -693,9 +694,9 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -703,7 +704,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
-- 
2.43.0


From 9a362a9c63586a6c31eabeeaf836501275a0dc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 31/72] fix: serialising a decoded transaction must keep its
 witness

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index a70e908..4ce4ef6 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -468,7 +468,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if in.HasWitness() || len(in.Witness) > 0 {
 			return true
 		}
 	}
-- 
2.43.0


From dba6bf242e2b7fe161a64974bc33577dd5763d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 32/72] fix: transaction sizes must be those of the
 serialisation

---
 xcore/transaction.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 4ce4ef6..ff70d78 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -781,8 +781,13 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		// The unlocking of a witness input is serialised in the witness.
+		if in.HasWitness() {
+			size += xbase.VarIntSerializeSize(0)
+		} else {
+			size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
+			size += len(in.RawUnlockingScript)
+		}
 		size += 4
 	}
 
@@ -804,6 +809,8 @@ func (tx *Transaction) WitnessSize() int {
 	size := 0
 
 	if tx.HasWitness() {
+		// Marker and flag.
+		size += 2
 		for _, in := range tx.inputs {
 			wits := in.Witness
 			size += xbase.VarIntSerializeSize(uint64(len(wits)))
@@ -825,7 +832,7 @@ func (tx *Transaction) Weight() int {
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
-- 
2.43.0


From 01282cee9cc864871786ef9b053f9f0274067cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 33/72] fix: printing an unsigned witness transaction must not
 panic

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index ff70d78..9687b6c 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -875,7 +875,7 @@ func (tx *Transaction) ToString() string {
 		}
 		lines = append(lines, fmt.Sprintf("      \"script\":\t\"%s\",", xvm.DisasmString(in.RawUnlockingScript)))
 		lines = append(lines, fmt.Sprintf("      \"sighash\":\t\"%x\",", in.SignatureHash))
-		if in.HasWitness() {
+		if in.HasWitness() && len(in.Witness) > 0 {
 			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
 			lines = append(lines, fmt.Sprintf("      \"scriptcode\":\t\"%x\"", in.WitnessScriptCode))
 		}
-- 
2.43.0


From 8ec8d61f76e13a748967584192acf6ac257cbeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 34/72] fix: only pay-to-script-hash inputs sign the redeem
 script

---
 xcore/transaction.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 9687b6c..69d1a68 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -95,6 +95,12 @@ func (txin *TxIn) HasWitness() bool {
 	return txin.WitnessScriptCode != nil
 }
 
+// isScriptHash -- check the TxIn is a P2SH.
+func (txin *TxIn) isScriptHash() bool {
+	instrs, err := xvm.NewScriptReader(txin.FinalLockingScript).AllInstructions()
+	return err == nil && isScriptHash(instrs)
+}
+
 // TxOut -- the info of output transaction.
 type TxOut struct {
 	Value  uint64
@@ -313,7 +319,7 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 		buffer.WriteBytes(in.Hash)
 		buffer.WriteU32(in.Index)
 		if i == idx {
-			if in.RedeemScript != nil {
+			if in.RedeemScript != nil && in.isScriptHash() {
 				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
 				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-- 
2.43.0


From 903c75af21581cbb223b9078b6a524f2d481aae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:00 +0000
Subject: [PATCH 35/72] fix: the redeem script of a witness program must match
 its hash

---
 xcore/script_p2wsh_v0.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..e4d58db 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -47,6 +47,11 @@ func (s *PayToWitnessV0ScriptHashScript) GetRawLockingScriptBytes() ([]byte, err
 
 // GetFinalLockingScriptBytes -- used to get the re-written locking for witness.
 func (s *PayToWitnessV0ScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byte, error) {
+	// Check sha256(redeem) == s.Hash
+	if !bytes.Equal(xcrypto.Sha256(redeem), s.hash) {
+		return nil, fmt.Errorf("PayToWitnessV0ScriptHashScript.GetFinalLockingScriptBytes.error:sha256(redeem)!=s.hash")
+	}
+
 	scriptInstance := NewPayToScriptHashScript(xcrypto.Hash160(redeem))
 	return scriptInstance.GetFinalLockingScriptBytes(redeem)
 }
-- 
2.43.0


From 397863c23bed60c243d3836759669079bde3fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 36/72] fix: the unlocking of a witness program must be exactly
 its witness

---
 xcore/error.go            |  2 ++
 xcore/script_p2wpkh_v0.go |  7 +++++++
 xcore/script_p2wsh_v0.go  | 23 ++++++++++++-----------
 xcore/transaction.go      |  6 +++++-
 4 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/xcore/error.go b/xcore/error.go
index 8a8e250..f3f8f7e 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -24,6 +24,7 @@ const (
 	ER_TRANSACTION_SIGN_OUT_INDEX                  int = 5000
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
+	ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY     int = 5003
 	ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR int = 5101
 	ER_TRANSACTION_BUILDER_FROM_EMPTY              int = 5102
 	ER_TRANSACTION_BUILDER_CHANGETO_EMPTY          int = 5103
@@ -51,6 +52,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_SIGN_OUT_INDEX:                  {Num: ER_TRANSACTION_SIGN_OUT_INDEX, State: "TTX00", Message: "transaction.sign.idx[%v].out.index[%v]"},
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
+	ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY:     {Num: ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY, State: "TTX00", Message: "transaction.witness.input[%v].unlocking.is.not.empty"},
 	ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR: {Num: ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR, State: "TTB00", Message: "transaction.builder.amount.totalout[%v].more.than.totalin[%v]"},
 	ER_TRANSACTION_BUILDER_FROM_EMPTY:              {Num: ER_TRANSACTION_BUILDER_FROM_EMPTY, State: "TTB00", Message: "transaction.builder.from.is.empty"},
 	ER_TRANSACTION_BUILDER_CHANGETO_EMPTY:          {Num: ER_TRANSACTION_BUILDER_CHANGETO_EMPTY, State: "TTB00", Message: "transaction.builder.changeto.is.empty"},
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index b3d901c..a2514a3 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -88,6 +88,13 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	// Not signed.
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	if len(witness) != 2 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.WitnessToUnlockingScriptBytes.error:witness.items[%v]!=2", len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(witness[0]).AddData(witness[1]).Script()
 }
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index e4d58db..ad6b20a 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -104,19 +104,20 @@ func (s *PayToWitnessV0ScriptHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
-	l := len(witness)
-	if l > 1 {
-		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
-		if isMultiSig(instrs) {
-			builder := xvm.NewScriptBuilder()
-			for i := 0; i < l-1; i++ {
-				builder.AddData(witness[i])
-			}
-			return builder.AddData(redeem).Script()
+	// Not signed.
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	builder := xvm.NewScriptBuilder()
+	for _, item := range witness {
+		if len(item) == 1 {
+			// The item as it is, AddData pushes 0x00 as empty.
+			builder.AddOp(xvm.OP_DATA_1).AddOp(item[0])
+		} else {
+			builder.AddData(item)
 		}
 	}
-	return nil, nil
+	return builder.Script()
 }
 
 // isWitnessV0ScriptHash --
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 69d1a68..9a61bce 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -169,7 +169,11 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 	if err != nil {
 		return err
 	}
-	if rawUnlocking != nil {
+	if scriptInstance.GetScriptVersion() == WITNESS_V0 {
+		// The scriptSig of a witness program must be empty.
+		if !txIn.HasWitness() && len(txIn.RawUnlockingScript) > 0 {
+			return xerror.NewError(Errors, ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY, idx)
+		}
 		txIn.RawUnlockingScript = rawUnlocking
 	}
 
-- 
2.43.0


From b2aa70103e93200b663d6320cabf3db7a5c1a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 37/72] fix: nested witness programs must not verify without
 their witness

---
 xcore/transaction.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 9a61bce..c7635e3 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -101,6 +101,17 @@ func (txin *TxIn) isScriptHash() bool {
 	return err == nil && isScriptHash(instrs)
 }
 
+// isNestedWitness -- check the P2SH unlocking script ends with a witness program,
+// whose witness is not supported.
+func isNestedWitness(unlocking []byte) bool {
+	instrs, err := xvm.NewScriptReader(unlocking).AllInstructions()
+	if err != nil || len(instrs) == 0 {
+		return false
+	}
+	redeem, err := xvm.NewScriptReader(instrs[len(instrs)-1].Data()).AllInstructions()
+	return err == nil && (isWitnessV0PubKeyHash(redeem) || isWitnessV0ScriptHash(redeem))
+}
+
 // TxOut -- the info of output transaction.
 type TxOut struct {
 	Value  uint64
@@ -771,6 +782,9 @@ func (tx *Transaction) Verify() error {
 		// Verify.
 		locking := in.FinalLockingScript
 		unlocking := in.RawUnlockingScript
+		if scriptVersion == BASE && in.isScriptHash() && isNestedWitness(unlocking) {
+			return xerror.NewError(Errors, ER_SCRIPT_TYPE_UNKNOWN, xvm.DisasmString(unlocking))
+		}
 		if err := engine.Verify(unlocking, locking); err != nil {
 			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
 		}
-- 
2.43.0


From 6447edcc2caba2b7ec03fe44b8209cb7b0de1bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 38/72] fix: witness scripts must leave exactly one true item

---
 xcore/transaction.go |  3 +++
 xvm/engine.go        | 15 ++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index c7635e3..848cdb0 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -746,6 +746,9 @@ func (tx *Transaction) Verify() error {
 			return err
 		}
 		scriptVersion := script.GetScriptVersion()
+		if scriptVersion == WITNESS_V0 {
+			engine.EnableCleanStack()
+		}
 		// Set engine handler.
 		{
 			// Signature hash function.
diff --git a/xvm/engine.go b/xvm/engine.go
index 4238a90..454a2cd 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -30,6 +30,8 @@ type Engine struct {
 	reader      *ScriptReader
 	instruction *Instruction // Current instruction
 	traces      []Trace
+	cleanStack  bool   // Whether the final stack must be exactly one item.
+	finalDepth  int    // Depth of the final stack.
 	lastStack   string // Last stack.
 	lastOp      string // Last opcode.
 }
@@ -51,6 +53,11 @@ func (vm *Engine) DisableDebug() {
 	vm.debug = false
 }
 
+// EnableCleanStack -- enable the clean stack rule of the witness scripts.
+func (vm *Engine) EnableCleanStack() {
+	vm.cleanStack = true
+}
+
 // SetSigHashFn -- set hasher function.
 func (vm *Engine) SetSigHashFn(fn SigHashFn) {
 	vm.sigHasher = fn
@@ -111,7 +118,12 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 		if err != nil {
 			return err
 		}
-		return vm.execute(redeem, true)
+		if err := vm.execute(redeem, true); err != nil {
+			return err
+		}
+	}
+	if vm.cleanStack && vm.finalDepth != 1 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "not.exactly.one.stack.entry.at.end.of.script.execution")
 	}
 	return nil
 }
@@ -166,6 +178,7 @@ func (vm *Engine) execute(program []byte, final bool) error {
 	}
 
 	if final {
+		vm.finalDepth = vm.dstack.Depth()
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
 			if err != nil {
-- 
2.43.0


From 906f06e1c2139ba4167a84f4046a2b16a74d9d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 39/72] fix: amounts and fees out of range must not overflow
 the builder's balance

---
 xcore/error.go              |  2 ++
 xcore/transactionbuilder.go | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/xcore/error.go b/xcore/error.go
index f3f8f7e..7af3899 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -32,6 +32,7 @@ const (
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY          int = 5105
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
+	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE     int = 5108
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -60,6 +61,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY:          {Num: ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, State: "TTB00", Message: "transaction.builder.sign.but.key.is.empty.at.input.idx[%v]"},
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
+	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE:     {Num: ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, State: "TTB00", Message: "transaction.builder.amount[%v].out.of.range"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..6e454f1 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -17,6 +17,9 @@ import (
 const (
 	// Unit -- satoshi unit
 	Unit = 1e8
+
+	// MaxAmount -- the maximum amount of satoshis.
+	MaxAmount = 21e6 * Unit
 )
 
 type change struct {
@@ -195,6 +198,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					return nil, err
 				}
 				txins = append(txins, txin)
+				if grpinput.value > MaxAmount || totalIn+int64(grpinput.value) > MaxAmount {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, grpinput.value)
+				}
 				totalIn += int64(grpinput.value)
 
 				// inputs.
@@ -228,6 +234,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
+				if grpoutput.value > MaxAmount || totalOut+int64(grpoutput.value) > MaxAmount {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, grpoutput.value)
+				}
 				totalOut += int64(grpoutput.value)
 			}
 		}
@@ -257,7 +266,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 		estimateFees = EstimateFees(estimateSize, b.relayFeePerKb)
 		fees = estimateFees
 	}
-	if fees > b.maxFees {
+	if fees < 0 || fees > b.maxFees {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, fees, b.maxFees)
 	}
 
-- 
2.43.0


From 424e3dae17bd81a14ab78cd8c07ab5c71a4c103d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 40/72] fix: the estimated fee must not lose satoshis to
 rounding or overflow

---
 xcore/estimate.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/xcore/estimate.go b/xcore/estimate.go
index bc27edf..ad9ad57 100644
--- a/xcore/estimate.go
+++ b/xcore/estimate.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"math"
+
 	"github.com/keyfuse/tokucore/xbase"
 )
 
@@ -127,9 +129,11 @@ func EstimateNormalSize(ins int, outs int) int64 {
 
 // EstimateFees -- estimate the fee.
 func EstimateFees(estimateSize int64, relayFeePerKb int64) int64 {
-	fees := 0.0
-	if relayFeePerKb > 0 {
-		fees = (float64(relayFeePerKb) / float64(1000)) * float64(estimateSize)
+	if relayFeePerKb <= 0 || estimateSize <= 0 {
+		return 0
+	}
+	if relayFeePerKb > math.MaxInt64/estimateSize {
+		return math.MaxInt64
 	}
-	return int64(fees)
+	return relayFeePerKb * estimateSize / 1000
 }
-- 
2.43.0


From 491ea5170f13532497738769af3f534309789ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 41/72] fix: received ping and pong messages must be decoded

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..fcb23a7 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -19,6 +19,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgVersion{}
 	case CommandVersionAck:
 		return &MsgVerAck{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	case CommandInventory:
 		return &MsgInv{}
 	case CommandGetData:
-- 
2.43.0


From 84e6c625426f6dd782ed9330fba455be6034adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 42/72] fix: messages of another network must be rejected

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..8316b38 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -71,6 +71,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic.mismatch.want[%x].got[%x]", s.magic, magic)
+	}
 	command := make([]byte, 12)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
-- 
2.43.0


From 735ff248f45671d149385a814bdb511cd43472c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 43/72] fix: the declared payload size of a message must be
 bounded

---
 xprotocol/stream.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 8316b38..b3cfa7e 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -35,9 +35,10 @@ import (
 //
 
 const (
-	bufferSize   = 32 * 1024
-	readTimeout  = 30 * time.Second
-	writeTimeout = 20 * time.Second
+	bufferSize     = 32 * 1024
+	maxPayloadSize = 32 * 1024 * 1024
+	readTimeout    = 30 * time.Second
+	writeTimeout   = 20 * time.Second
 )
 
 // Stream --
@@ -82,6 +83,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
 		return nil, err
 	}
+	if size > maxPayloadSize {
+		return nil, fmt.Errorf("stream.read.payload.size[%v].more.than.max[%v]", size, maxPayloadSize)
+	}
 	check := make([]byte, 4)
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
@@ -117,6 +121,9 @@ func (s *Stream) WriteMessage(msg Message) error {
 	b.Write(command)
 
 	datas := msg.Encode()
+	if len(datas) > maxPayloadSize {
+		return fmt.Errorf("stream.write.payload.size[%v].more.than.max[%v]", len(datas), maxPayloadSize)
+	}
 	if err := binary.Write(&b, binary.LittleEndian, uint32(len(datas))); err != nil {
 		return err
 	}
-- 
2.43.0


From e2a455572bcf7df704161f37f631225d9d6ae199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:32 +0000
Subject: [PATCH 44/72] fix: sending must not wait for a message to be received

---
 xprotocol/stream.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index b3cfa7e..f300a6e 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -43,11 +43,12 @@ const (
 
 // Stream --
 type Stream struct {
-	magic  []byte
-	conn   net.Conn
-	mutex  sync.Mutex
-	reader *bufio.Reader
-	writer *bufio.Writer
+	magic      []byte
+	conn       net.Conn
+	readMutex  sync.Mutex
+	writeMutex sync.Mutex
+	reader     *bufio.Reader
+	writer     *bufio.Writer
 }
 
 // NewStream -- creates a new stream.
@@ -62,8 +63,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.readMutex.Lock()
+	defer s.readMutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -108,8 +109,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.writeMutex.Lock()
+	defer s.writeMutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From df3a4e08370e96f9ffa9a5973cf29b5322ba2a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:34 +0000
Subject: [PATCH 45/72] fix: getheaders must keep its stop hash and not change
 when encoded

---
 xprotocol/msggetheaders.go | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..dea529c 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -30,19 +30,21 @@ func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
 	return nil
 }
 
-// Encode -- encoding MsgGetHeaders.
-func (m *MsgGetHeaders) Encode() []byte {
+// locators -- the locator hashes to encode, the zero hash if there are none.
+func (m *MsgGetHeaders) locators() [][]byte {
 	if len(m.blockLocatorHashes) == 0 {
-		var zero [32]byte
-		if err := m.AddBlockLocatorHash(zero[:]); err != nil {
-			return nil
-		}
+		return [][]byte{make([]byte, 32)}
 	}
+	return m.blockLocatorHashes
+}
 
+// Encode -- encoding MsgGetHeaders.
+func (m *MsgGetHeaders) Encode() []byte {
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(m.protocolVersion)
-	buffer.WriteVarInt(uint64(len(m.blockLocatorHashes)))
-	for _, locator := range m.blockLocatorHashes {
+	locators := m.locators()
+	buffer.WriteVarInt(uint64(len(locators)))
+	for _, locator := range locators {
 		buffer.WriteBytes(locator[:])
 	}
 	buffer.WriteBytes(m.blockStopHash[:])
@@ -61,7 +63,7 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
-	for i := 0; i < int(count); i++ {
+	for i := uint64(0); i < count; i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
 			return err
@@ -70,14 +72,20 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(len(m.blockStopHash))
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
 // Size -- the size of the message.
 func (m *MsgGetHeaders) Size() int {
 	size := 4
-	size += xbase.VarIntSerializeSize(uint64(len(m.blockLocatorHashes)))
-	for _, hdr := range m.blockLocatorHashes {
+	locators := m.locators()
+	size += xbase.VarIntSerializeSize(uint64(len(locators)))
+	for _, hdr := range locators {
 		size += len(hdr)
 	}
 	size += len(m.blockStopHash)
-- 
2.43.0


From 0eb25c0c30a988277eb819ca0efbc082211e4559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 46/72] fix: message element limits must hold for every way of
 adding elements

---
 xprotocol/msgheaders.go | 6 +++++-
 xprotocol/msginv.go     | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..3c3c93a 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
@@ -60,6 +60,10 @@ func (m *MsgHeaders) Decode(data []byte) error {
 		return err
 	}
 
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
+
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..6ba6787 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
-- 
2.43.0


From f3a69d1472fcd5def2cc4fea71f7d18eee867ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:37 +0000
Subject: [PATCH 47/72] fix: decoding a message must replace its contents

---
 xprotocol/msggetdata.go    | 1 +
 xprotocol/msggetheaders.go | 1 +
 xprotocol/msgheaders.go    | 1 +
 xprotocol/msginv.go        | 1 +
 4 files changed, 4 insertions(+)

diff --git a/xprotocol/msggetdata.go b/xprotocol/msggetdata.go
index 4253f16..796ea88 100644
--- a/xprotocol/msggetdata.go
+++ b/xprotocol/msggetdata.go
@@ -51,6 +51,7 @@ func (m *MsgGetData) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.InvList = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index dea529c..a1f64d3 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -63,6 +63,7 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	m.blockLocatorHashes = nil
 	for i := uint64(0); i < count; i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3c3c93a..aa37d1b 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -64,6 +64,7 @@ func (m *MsgHeaders) Decode(data []byte) error {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 
+	m.Headers = nil
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index 6ba6787..bb56404 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -51,6 +51,7 @@ func (m *MsgInv) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.Invs = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
-- 
2.43.0


From b072e0e34ff70ef227b01d29ba69cb4230586391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 48/72] fix: message sizes must be those of their encoding

---
 xprotocol/msgreject.go   | 7 ++++++-
 xprotocol/msgunhandle.go | 2 +-
 xprotocol/msgverack.go   | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 9a50602..40d07cc 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -77,7 +77,12 @@ func (m *MsgReject) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgReject) Size() int {
-	return len(m.Cmd) + 1 + len(m.Reason) + len(m.Hash)
+	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1 +
+		xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
+	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
+		size += len(m.Hash)
+	}
+	return size
 }
 
 // Command -- returns the protocal command string of this message.
diff --git a/xprotocol/msgunhandle.go b/xprotocol/msgunhandle.go
index d8c31b1..19b7728 100644
--- a/xprotocol/msgunhandle.go
+++ b/xprotocol/msgunhandle.go
@@ -29,7 +29,7 @@ func (m *MsgUnhandle) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgUnhandle) Size() int {
-	return len(m.command)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
diff --git a/xprotocol/msgverack.go b/xprotocol/msgverack.go
index ceddcf9..d9fb118 100644
--- a/xprotocol/msgverack.go
+++ b/xprotocol/msgverack.go
@@ -25,7 +25,7 @@ func (m *MsgVerAck) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgVerAck) Size() int {
-	return len(CommandVersionAck)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From b6b8b408e29a2054313766ebba177e7b07528a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 49/72] fix: version message must carry binary addresses and
 big-endian ports

---
 xprotocol/msgversion.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7dc8c0e..792fac9 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -6,6 +6,7 @@
 package xprotocol
 
 import (
+	"net"
 	"time"
 
 	"github.com/keyfuse/tokucore/network"
@@ -68,15 +69,30 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 	return &MsgVersion{
 		Version:    network.ProtocolVersion,
 		Timestamp:  uint64(time.Now().Unix()),
-		AddressYou: []byte(ip),
+		AddressYou: net.ParseIP(ip).To16(),
 		PortYou:    network.Port,
-		AddressMe:  []byte(ip),
+		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
 		LastBlock:  1,
 	}
 }
 
+// writePort -- write the port in network byte order.
+func writePort(buffer *xbase.Buffer, port uint32) {
+	buffer.WriteU8(uint8(port >> 8))
+	buffer.WriteU8(uint8(port))
+}
+
+// readPort -- read the port in network byte order.
+func readPort(buffer *xbase.Buffer) (uint32, error) {
+	port, err := buffer.ReadBytes(2)
+	if err != nil {
+		return 0, err
+	}
+	return uint32(port[0])<<8 | uint32(port[1]), nil
+}
+
 // Encode -- encoding to bitcoin protocol format.
 func (m *MsgVersion) Encode() []byte {
 	buffer := xbase.NewBuffer()
@@ -85,10 +101,10 @@ func (m *MsgVersion) Encode() []byte {
 	buffer.WriteU64(m.Timestamp)
 	buffer.WriteU64(m.ServicesYou)
 	buffer.WriteBytes(m.AddressYou)
-	buffer.WriteU16(m.PortYou)
+	writePort(buffer, m.PortYou)
 	buffer.WriteU64(m.ServicesMe)
 	buffer.WriteBytes(m.AddressMe)
-	buffer.WriteU16(m.PortMe)
+	writePort(buffer, m.PortMe)
 	buffer.WriteU64(m.Nonce)
 	buffer.WriteVarString(m.UserAgent)
 	buffer.WriteU32((m.LastBlock))
@@ -116,7 +132,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressYou, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortYou, err = buffer.ReadU16(); err != nil {
+	if m.PortYou, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.ServicesMe, err = buffer.ReadU64(); err != nil {
@@ -125,7 +141,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressMe, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortMe, err = buffer.ReadU16(); err != nil {
+	if m.PortMe, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.Nonce, err = buffer.ReadU64(); err != nil {
-- 
2.43.0


From 90d5b5b1ee20cfd3fa7407c53caf7ca52c8a1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 50/72] fix: an rpc response without result must be an error,
 not a panic

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..4d5f7af 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("%v.response.without.result", method)
+	}
 	return resp, nil
 }
-- 
2.43.0


From b272ed3d4cad6e9a3d48011e6bc695cd35b74960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 51/72] fix: block header results must carry the previous and
 next hash as sent

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From 7e2e33768824cfb23d69ffee588d095cb35534e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 52/72] fix: an unknown error must be printable with its stack

---
 xerror/stack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xerror/stack.go b/xerror/stack.go
index 518222a..31898f4 100644
--- a/xerror/stack.go
+++ b/xerror/stack.go
@@ -18,6 +18,9 @@ type stack struct {
 
 func (s *stack) trace() string {
 	buf := bytes.Buffer{}
+	if s == nil {
+		return ""
+	}
 	for _, stack := range s.stacks {
 		fn := runtime.FuncForPC(stack)
 		file, line := fn.FileLine(stack)
-- 
2.43.0


From 29b54fce7dea3d6c41cb285180d4ed6d52e27fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 53/72] fix: merkle proofs must not verify with hashes of
 another size

---
 xcrypto/merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 332cb67..7dd6e82 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -126,6 +126,10 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 func (m *Merkle) Verify(leaf []byte, root []byte, path []Node) bool {
 	hash := leaf
 	for _, node := range path {
+		// A sibling is as long as the hash beside it, and no hash is longer than a node takes.
+		if (node.Hash != nil && len(node.Hash) != len(hash)) || len(hash) > merkleHashSize {
+			return false
+		}
 		switch node.Position {
 		case positionLeft:
 			hash = merkleNode(node.Hash, hash)
-- 
2.43.0


From cace064057055bd3fcb719250690397c2af5e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 54/72] fix: compressed encodings of no curve point must not
 decode

---
 xcrypto/secp256k1/sec.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 9113976..7b49681 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -43,10 +43,15 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 
 	// y^2 = x^3 + b
 	X.SetBytes(data[1:])
+	if X.Cmp(curveParams.P) >= 0 {
+		return nil, nil
+	}
 	ySquared := big.NewInt(0)
 	ySquared.Exp(X, three, nil)
 	ySquared.Add(ySquared, curveParams.B)
-	Y.ModSqrt(ySquared, curveParams.P)
+	if Y.ModSqrt(ySquared, curveParams.P) == nil {
+		return nil, nil
+	}
 
 	// Y is odd or even.
 	if Y.Bit(0) != uint(data[0]&1) {
-- 
2.43.0


From 0dfd2d7d84488e8aea0d4d2a0f2cdccb331ca868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 55/72] fix: the builder must report missing addresses, not
 panic or pay to nobody

---
 xcore/transactionbuilder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 6e454f1..539d925 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -226,6 +226,10 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					}
 				}
 
+				if grpoutput.addr == nil && grpoutput.script == "" {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_SENDTO_EMPTY)
+				}
+
 				if grpoutput.script != "" {
 					script, err = hex.DecodeString(grpoutput.script)
 					if err != nil {
@@ -282,7 +286,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Change.
 	{
 		if changeAmount > 0 {
-			if b.change == nil {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
 			script, err := b.change.addr.LockingScript()
-- 
2.43.0


From d15cb40fbe94cae8fe4a37ab1158880e3e09f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 56/72] fix: an input's transaction id must have 32 bytes

---
 xcore/error.go       | 2 ++
 xcore/transaction.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index 7af3899..dbc684b 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -25,6 +25,7 @@ const (
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
 	ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY     int = 5003
+	ER_TRANSACTION_TXID_LENGTH                     int = 5004
 	ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR int = 5101
 	ER_TRANSACTION_BUILDER_FROM_EMPTY              int = 5102
 	ER_TRANSACTION_BUILDER_CHANGETO_EMPTY          int = 5103
@@ -54,6 +55,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
 	ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY:     {Num: ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY, State: "TTX00", Message: "transaction.witness.input[%v].unlocking.is.not.empty"},
+	ER_TRANSACTION_TXID_LENGTH:                     {Num: ER_TRANSACTION_TXID_LENGTH, State: "TTX00", Message: "transaction.txid.length[%v].is.not.32"},
 	ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR: {Num: ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR, State: "TTB00", Message: "transaction.builder.amount.totalout[%v].more.than.totalin[%v]"},
 	ER_TRANSACTION_BUILDER_FROM_EMPTY:              {Num: ER_TRANSACTION_BUILDER_FROM_EMPTY, State: "TTB00", Message: "transaction.builder.from.is.empty"},
 	ER_TRANSACTION_BUILDER_CHANGETO_EMPTY:          {Num: ER_TRANSACTION_BUILDER_CHANGETO_EMPTY, State: "TTB00", Message: "transaction.builder.changeto.is.empty"},
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 848cdb0..f89fbb5 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -61,6 +61,10 @@ type TxIn struct {
 
 // NewTxIn -- build a TxIn.
 func NewTxIn(txHash []byte, n uint32, value uint64, script []byte, redeemScript []byte) (*TxIn, error) {
+	// The outpoint hash has a fixed size on the wire.
+	if len(txHash) != 32 {
+		return nil, xerror.NewError(Errors, ER_TRANSACTION_TXID_LENGTH, len(txHash))
+	}
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From bfbfba11ac986b13a7e4996c5fbab15cda442549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 57/72] fix: running a script must not print the whole stack at
 every step

---
 xvm/engine.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 454a2cd..2157183 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -150,6 +150,14 @@ func (vm *Engine) PrintTrace() {
 func (vm *Engine) execute(program []byte, final bool) error {
 	vm.cstack = vm.cstack[:0]
 	vm.reader = NewScriptReader(program)
+
+	// The last stack is only printed once, at the end.
+	var last *Stack
+	defer func() {
+		if last != nil {
+			vm.lastStack = last.String()
+		}
+	}()
 	for {
 		done, err := vm.Step()
 		if err != nil {
@@ -159,17 +167,16 @@ func (vm *Engine) execute(program []byte, final bool) error {
 			break
 		}
 
-		cur := vm.dstack.String()
 		if vm.debug && final && vm.instruction != nil {
 			trace := Trace{
 				Step:      vm.pc,
 				Executed:  vm.instruction.op.name,
-				Stack:     cur,
+				Stack:     vm.dstack.String(),
 				Remaining: vm.reader.DisasmRemaining(),
 			}
 			vm.traces = append(vm.traces, trace)
 		}
-		vm.lastStack = cur
+		last = &Stack{stk: vm.dstack.stk}
 		vm.lastOp = vm.instruction.op.name
 	}
 
-- 
2.43.0


From 592e2a48f65efb764e0e205005d509c6ac596b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 58/72] fix: scripts must not exceed the limits of bitcoin

---
 xvm/engine.go             | 72 ++++++++++++++++++++++++++++++++++++---
 xvm/instruction_crypto.go |  3 ++
 2 files changed, 70 insertions(+), 5 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 2157183..d606a80 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -13,6 +13,14 @@ import (
 	"github.com/keyfuse/tokucore/xerror"
 )
 
+// Limits of the bitcoin scripts.
+const (
+	maxScriptSize        = 10000 // Bytes of a script.
+	maxScriptElementSize = 520   // Bytes of a pushed element.
+	maxOpsPerScript      = 201   // Non-push opcodes of a script.
+	maxStackSize         = 1000  // Elements on the stack.
+)
+
 // SigHashFn -- hash function for checksig.
 type SigHashFn func(hashType byte) ([]byte, error)
 
@@ -30,6 +38,8 @@ type Engine struct {
 	reader      *ScriptReader
 	instruction *Instruction // Current instruction
 	traces      []Trace
+	ops         int    // Non-push opcodes of the current script so far.
+	boundary    int    // Position in the program where another script begins.
 	cleanStack  bool   // Whether the final stack must be exactly one item.
 	finalDepth  int    // Depth of the final stack.
 	lastStack   string // Last stack.
@@ -74,29 +84,75 @@ func (vm *Engine) SetSigVerifyFn(fn SigVerifyFn) {
 func (vm *Engine) Step() (bool, error) {
 	var err error
 
+	if vm.reader.buffer.Seek() == vm.boundary {
+		vm.ops = 0
+	}
 	vm.pc++
 	if vm.instruction, err = vm.reader.NextInstruction(); err != nil || vm.instruction == nil {
 		return true, err
 	}
+	// The last element of a witness is its script, which is limited as such.
+	isWitnessScript := vm.cleanStack && vm.reader.buffer.Seek() == vm.boundary
+	if len(vm.instruction.data) > maxScriptElementSize && !isWitnessScript {
+		return true, xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "push.size.out.of.limit")
+	}
+	if vm.instruction.op.value > OP_16 {
+		if err = vm.countOps(1); err != nil {
+			return true, err
+		}
+	}
 	if vm.branchShouldSkip() && !vm.instruction.isConditional() {
 		return false, nil
 	}
 	if err = vm.instruction.op.opfunc(vm); err != nil {
 		return true, err
 	}
+	if vm.dstack.Depth() > maxStackSize {
+		return true, xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "stack.size.out.of.limit")
+	}
 	return false, nil
 }
 
+// countOps -- counts the executed non-push opcodes of the script.
+func (vm *Engine) countOps(n int) error {
+	vm.ops += n
+	if vm.ops > maxOpsPerScript {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "op.count.out.of.limit")
+	}
+	return nil
+}
+
+// checkScriptSize -- checks the size of a script.
+func checkScriptSize(script []byte) error {
+	if len(script) > maxScriptSize {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "script.size.out.of.limit")
+	}
+	return nil
+}
+
 // Execute -- execute the scripts.
 func (vm *Engine) Execute(program []byte) error {
-	return vm.execute(program, true)
+	if err := checkScriptSize(program); err != nil {
+		return err
+	}
+	return vm.execute(program, 0, true)
 }
 
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
+	// The unlocking of a witness is a list of elements, not a script of its own.
+	if !vm.cleanStack {
+		if err := checkScriptSize(unlocking); err != nil {
+			return err
+		}
+	}
+	if err := checkScriptSize(locking); err != nil {
+		return err
+	}
+
 	// Unlocking.
 	vm.reset()
-	if err := vm.execute(unlocking, false); err != nil {
+	if err := vm.execute(unlocking, len(unlocking), false); err != nil {
 		return err
 	}
 	copyStk := vm.dstack.Copy()
@@ -104,7 +160,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	// Reset.
 	vm.reset()
 	script := append(append([]byte{}, unlocking...), locking...)
-	if err := vm.execute(script, true); err != nil {
+	if err := vm.execute(script, len(unlocking), true); err != nil {
 		return err
 	}
 
@@ -118,7 +174,10 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 		if err != nil {
 			return err
 		}
-		if err := vm.execute(redeem, true); err != nil {
+		if err := checkScriptSize(redeem); err != nil {
+			return err
+		}
+		if err := vm.execute(redeem, 0, true); err != nil {
 			return err
 		}
 	}
@@ -147,7 +206,10 @@ func (vm *Engine) PrintTrace() {
 	w.Flush()
 }
 
-func (vm *Engine) execute(program []byte, final bool) error {
+// execute -- runs the program, the unlocking ends at the boundary.
+func (vm *Engine) execute(program []byte, boundary int, final bool) error {
+	vm.ops = 0
+	vm.boundary = boundary
 	vm.cstack = vm.cstack[:0]
 	vm.reader = NewScriptReader(program)
 
diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index c712ec8..bcb8185 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -93,6 +93,9 @@ func opCheckMultiSig(vm *Engine) error {
 	if n < 0 || n > maxPubKeysPerMultiSig {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:pubkeys[%v].out.of.range", n))
 	}
+	if err := vm.countOps(n); err != nil {
+		return err
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
-- 
2.43.0


From 430dc6461252e47608d722be5f2050cb72de8e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 59/72] fix: spends must leave a true stack entry, and not by
 OP_RETURN or a multisig dummy

---
 xcore/transaction.go           | 1 +
 xvm/engine.go                  | 9 +++++++++
 xvm/instruction_crypto.go      | 8 +++++---
 xvm/instruction_flowcontrol.go | 3 +++
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index f89fbb5..22d6931 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -744,6 +744,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 func (tx *Transaction) Verify() error {
 	for i, in := range tx.inputs {
 		engine := xvm.NewEngine()
+		engine.EnableStrict()
 
 		script, err := ParseLockingScript(in.RawLockingScript)
 		if err != nil {
diff --git a/xvm/engine.go b/xvm/engine.go
index d606a80..5ce4899 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -41,6 +41,7 @@ type Engine struct {
 	ops         int    // Non-push opcodes of the current script so far.
 	boundary    int    // Position in the program where another script begins.
 	cleanStack  bool   // Whether the final stack must be exactly one item.
+	strict      bool   // Whether the consensus rules of transactions apply.
 	finalDepth  int    // Depth of the final stack.
 	lastStack   string // Last stack.
 	lastOp      string // Last opcode.
@@ -68,6 +69,12 @@ func (vm *Engine) EnableCleanStack() {
 	vm.cleanStack = true
 }
 
+// EnableStrict -- enable the consensus rules for spending a transaction output:
+// the final stack must not be empty and an executed OP_RETURN fails.
+func (vm *Engine) EnableStrict() {
+	vm.strict = true
+}
+
 // SetSigHashFn -- set hasher function.
 func (vm *Engine) SetSigHashFn(fn SigHashFn) {
 	vm.sigHasher = fn
@@ -256,6 +263,8 @@ func (vm *Engine) execute(program []byte, boundary int, final bool) error {
 			if !v {
 				return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "false.stack.entry.at.end.of.script.execution")
 			}
+		} else if vm.strict {
+			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "empty.stack.at.end.of.script.execution")
 		}
 	}
 	return nil
diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index bcb8185..9a646b2 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -130,12 +130,14 @@ func opCheckMultiSig(vm *Engine) error {
 	// whose contents were not checked in any way.
 	//
 	// Unfortunately this is a potential source of mutability,
-	// so optionally verify it is exactly equal to zero prior
-	// to removing it from the stack.
-	_, err = vm.dstack.PopByteArray()
+	// so it must be empty (BIP147).
+	dummy, err := vm.dstack.PopByteArray()
 	if err != nil {
 		return err
 	}
+	if len(dummy) != 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:dummy.is.not.empty")
+	}
 
 	// Signature verify.
 	success := true
diff --git a/xvm/instruction_flowcontrol.go b/xvm/instruction_flowcontrol.go
index 153cb5b..df24574 100644
--- a/xvm/instruction_flowcontrol.go
+++ b/xvm/instruction_flowcontrol.go
@@ -13,6 +13,9 @@ import (
 
 // opReturn --
 func opReturn(vm *Engine) error {
+	if vm.strict {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opReturn")
+	}
 	return nil
 }
 
-- 
2.43.0


From 00e6eb1277702a9deec5035fcf8800bbc519e7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:20 +0000
Subject: [PATCH 60/72] fix: a spend with a malformed signature must not verify
 (BIP66)

---
 xcore/error.go       |  2 ++
 xcore/transaction.go | 21 ++++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/xcore/error.go b/xcore/error.go
index dbc684b..720752b 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -26,6 +26,7 @@ const (
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
 	ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY     int = 5003
 	ER_TRANSACTION_TXID_LENGTH                     int = 5004
+	ER_TRANSACTION_SIGNATURE_ENCODING              int = 5005
 	ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR int = 5101
 	ER_TRANSACTION_BUILDER_FROM_EMPTY              int = 5102
 	ER_TRANSACTION_BUILDER_CHANGETO_EMPTY          int = 5103
@@ -56,6 +57,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
 	ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY:     {Num: ER_TRANSACTION_WITNESS_UNLOCKING_NOT_EMPTY, State: "TTX00", Message: "transaction.witness.input[%v].unlocking.is.not.empty"},
 	ER_TRANSACTION_TXID_LENGTH:                     {Num: ER_TRANSACTION_TXID_LENGTH, State: "TTX00", Message: "transaction.txid.length[%v].is.not.32"},
+	ER_TRANSACTION_SIGNATURE_ENCODING:              {Num: ER_TRANSACTION_SIGNATURE_ENCODING, State: "TTX00", Message: "transaction.signature.encoding.invalid"},
 	ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR: {Num: ER_TRANSACTION_BUILDER_AMOUNT_NOT_ENOUGH_ERROR, State: "TTB00", Message: "transaction.builder.amount.totalout[%v].more.than.totalin[%v]"},
 	ER_TRANSACTION_BUILDER_FROM_EMPTY:              {Num: ER_TRANSACTION_BUILDER_FROM_EMPTY, State: "TTB00", Message: "transaction.builder.from.is.empty"},
 	ER_TRANSACTION_BUILDER_CHANGETO_EMPTY:          {Num: ER_TRANSACTION_BUILDER_CHANGETO_EMPTY, State: "TTB00", Message: "transaction.builder.changeto.is.empty"},
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 22d6931..fa54bed 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -755,6 +755,7 @@ func (tx *Transaction) Verify() error {
 			engine.EnableCleanStack()
 		}
 		// Set engine handler.
+		var encodingErr error
 		{
 			// Signature hash function.
 			sigHashFn := func(hashType byte) ([]byte, error) {
@@ -773,6 +774,11 @@ func (tx *Transaction) Verify() error {
 
 			// Signature verifier function.
 			sigVerifyFn := func(hash []byte, signature []byte, pubkey []byte) error {
+				// BIP66: a malformed signature fails the whole script.
+				if err := checkSignatureEncoding(signature); err != nil {
+					encodingErr = err
+					return err
+				}
 				pub, err := xcrypto.PubKeyFromBytes(pubkey)
 				if err != nil {
 					return err
@@ -793,13 +799,26 @@ func (tx *Transaction) Verify() error {
 		if scriptVersion == BASE && in.isScriptHash() && isNestedWitness(unlocking) {
 			return xerror.NewError(Errors, ER_SCRIPT_TYPE_UNKNOWN, xvm.DisasmString(unlocking))
 		}
-		if err := engine.Verify(unlocking, locking); err != nil {
+		if err := engine.Verify(unlocking, locking); err != nil || encodingErr != nil {
 			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
 		}
 	}
 	return nil
 }
 
+// checkSignatureEncoding -- checks that the signature (without the hash type) is strict DER.
+// https://github.com/bitcoin/bips/blob/master/bip-0066.mediawiki
+func checkSignatureEncoding(signature []byte) error {
+	sig := xcrypto.NewSignatureEcdsa()
+	if err := sig.Deserialize(signature); err != nil {
+		return err
+	}
+	if len(signature) > 72 || sig.R.Sign() < 0 || sig.S.Sign() < 0 {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGNATURE_ENCODING)
+	}
+	return nil
+}
+
 // BaseSize -- the size of the transaction serialised with the witness data stripped.
 // https://github.com/bitcoin/bips/blob/master/bip-0141.mediawiki
 func (tx *Transaction) BaseSize() int {
-- 
2.43.0


From 7cb1e62c2d996c3a928a32164f819aa1e2e7eb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 61/72] fix: extended keys of unknown versions must not import

---
 xcore/bip32/hdkey.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 66fbe5c..838c524 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -325,12 +325,17 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 		}
 	}
 
-	// The key data must agree with the version, and a private key be in 1..n-1.
-	version := data[0:4]
+	// The version must be a known one that agrees with the key data, and a private key be in 1..n-1.
+	version, known := data[0:4], false
 	for _, net := range []*network.Network{network.MainNet, network.TestNet} {
-		if (k.isPrivate && bytes.Equal(version, net.HDPublicKeyID)) || (!k.isPrivate && bytes.Equal(version, net.HDPrivateKeyID)) {
-			return nil, fmt.Errorf("hdkey.version.mismatch[%x]", version)
+		id := net.HDPublicKeyID
+		if k.isPrivate {
+			id = net.HDPrivateKeyID
 		}
+		known = known || bytes.Equal(version, id)
+	}
+	if !known {
+		return nil, fmt.Errorf("hdkey.version.mismatch[%x]", version)
 	}
 	if k.isPrivate && (k.prvkey.D.Sign() == 0 || k.prvkey.D.Cmp(k.prvkey.Curve.Params().N) >= 0) {
 		return nil, fmt.Errorf("hdkey.private.key.out.of.range")
-- 
2.43.0


From 482e7d3d579b11ffad6ebf858089efc0c7e6c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 62/72] fix: a mnemonic's checksum must count whatever white
 space separates its words

---
 xcore/bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index a6921a2..1a3179f 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -225,7 +225,7 @@ func newMnemonic(entropy []byte, wordList []string) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice    = strings.Split(mnemonic, " ")
+		mnemonicSlice    = strings.Fields(mnemonic)
 		entropyBitSize   = len(mnemonicSlice) * 11
 		checksumBitSize  = entropyBitSize % 32
 		fullByteSize     = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From 488ec6d4c108eba087fcc068340546a5d44f1f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 63/72] fix: a decoded reject message must not keep the hash of
 an earlier one

---
 xprotocol/msgreject.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 40d07cc..752c0ed 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -67,6 +67,7 @@ func (m *MsgReject) Decode(data []byte) error {
 	if m.Reason, err = buffer.ReadVarString(); err != nil {
 		return err
 	}
+	m.Hash = nil
 	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
 		if m.Hash, err = buffer.ReadBytes(32); err != nil {
 			return err
-- 
2.43.0


From dfa40d93f528b97f276f566c100259cbfc35ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:42 +0000
Subject: [PATCH 64/72] fix: a reject of a tx or block without a hash must
 encode a payload that peers can read

---
 xprotocol/msgreject.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 752c0ed..112e975 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -41,6 +41,14 @@ func NewMsgReject(command string, code RejectCode, reason string) *MsgReject {
 	}
 }
 
+// hash -- the hash to encode, the zero hash if there is none.
+func (m *MsgReject) hash() []byte {
+	if len(m.Hash) == 0 {
+		return make([]byte, 32)
+	}
+	return m.Hash
+}
+
 // Encode -- encoding to bitcoin protocol format.
 func (m *MsgReject) Encode() []byte {
 	buffer := xbase.NewBuffer()
@@ -48,7 +56,7 @@ func (m *MsgReject) Encode() []byte {
 	buffer.WriteU8(m.Code)
 	buffer.WriteVarString(m.Reason)
 	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
-		buffer.WriteBytes(m.Hash)
+		buffer.WriteBytes(m.hash())
 	}
 	return buffer.Bytes()
 }
@@ -81,7 +89,7 @@ func (m *MsgReject) Size() int {
 	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1 +
 		xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
 	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
-		size += len(m.Hash)
+		size += len(m.hash())
 	}
 	return size
 }
-- 
2.43.0


From a6ce574d20e703fc6b7faa8141cd46af4129b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:59 +0000
Subject: [PATCH 65/72] fix: an rpc answer followed by garbage or cut short
 must be an error

---
 xrpc/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xrpc/client.go b/xrpc/client.go
index 4d5f7af..9cbe2a9 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -10,6 +10,7 @@ import (
 	"context"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"net/http"
 	"time"
 )
@@ -79,8 +80,12 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	}
 	defer rawResp.Body.Close()
 
+	body, err := ioutil.ReadAll(rawResp.Body)
+	if err != nil {
+		return nil, err
+	}
 	resp := &Response{}
-	if err := json.NewDecoder(rawResp.Body).Decode(resp); err != nil {
+	if err := json.Unmarshal(body, resp); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 49ddf89d86e0951eb69cf63a883d9c39c604c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 66/72] fix: schnorr nonce and challenge must not write into
 the caller's buffers

---
 xcrypto/schnorr/schnorr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index ed4937e..53c18e5 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -110,7 +110,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 
 // GetK0 -- used get k0 under schnorr BIP.
 func GetK0(m []byte, d []byte, N *big.Int) (*big.Int, error) {
-	hash := sha256.Sum256(append(d, m[:]...))
+	hash := sha256.Sum256(append(append([]byte{}, d...), m...))
 	i := new(big.Int).SetBytes(hash[:])
 	k0 := i.Mod(i, N)
 	if k0.Sign() == 0 {
@@ -133,7 +133,8 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 // GetE -- used get e under schnorr BIP.
 func GetE(curve elliptic.Curve, m []byte, Px, Py *big.Int, rX []byte) *big.Int {
 	N := curve.Params().N
-	r := append(rX, secp256k1.SecMarshal(curve, Px, Py)...)
+	r := append([]byte{}, rX...)
+	r = append(r, secp256k1.SecMarshal(curve, Px, Py)...)
 	r = append(r, m[:]...)
 	h := sha256.Sum256(r)
 	i := new(big.Int).SetBytes(h[:])
-- 
2.43.0


From be5ac689ef834ebb998a3cea9b42376e44a17dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 67/72] fix: xrpc: getblock of a stale block, which has -1
 confirmations, was an error

---
 xrpc/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 1875df4..3fcbb7f 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -26,7 +26,7 @@ type BlockHeaderResult struct {
 // BlockResult --
 type BlockResult struct {
 	Hash          string              `json:"hash"`
-	Confirmations uint64              `json:"confirmations"`
+	Confirmations int64               `json:"confirmations"`
 	StrippedSize  int32               `json:"strippedsize"`
 	Size          int32               `json:"size"`
 	Weight        int32               `json:"weight"`
-- 
2.43.0


From dc43937c49bf0186398b2f91c9bf75543fab5944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:05 +0000
Subject: [PATCH 68/72] fix: xrpc: getblock failed on transaction versions from
 2^31, which newer nodes write without a sign

---
 xrpc/models.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 3fcbb7f..e482567 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -80,7 +80,7 @@ type Vout struct {
 type TransactionResult struct {
 	Hex      string `json:"hex"`
 	Txid     string `json:"txid"`
-	Version  int32  `json:"version"`
+	Version  int64  `json:"version"`
 	Size     uint32 `json:"size"`
 	Vsize    uint32 `json:"vsize"`
 	Weight   uint32 `json:"weight"`
-- 
2.43.0


From 4043d091a707079a355be104d97c481ea9dbc829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:13 +0000
Subject: [PATCH 69/72] fix: executing a script starts from an empty stack,
 whatever the engine ran before

---
 xvm/engine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xvm/engine.go b/xvm/engine.go
index 5ce4899..81f4aa3 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -142,6 +142,9 @@ func (vm *Engine) Execute(program []byte) error {
 	if err := checkScriptSize(program); err != nil {
 		return err
 	}
+
+	// Reset.
+	vm.reset()
 	return vm.execute(program, 0, true)
 }
 
-- 
2.43.0


From 61438b64ce93fe75bf621ee7e7465dca23a1ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:50 +0000
Subject: [PATCH 70/72] fix: bytes taken from a buffer do not change when it is
 reset and written again

---
 xbase/buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index e6274bb..2cb363f 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -251,7 +251,7 @@ func (b *Buffer) ReadVarString() (string, error) {
 
 // Bytes -- returns all the datas in the buffer.
 func (b *Buffer) Bytes() []byte {
-	return b.data
+	return b.data[:len(b.data):len(b.data)]
 }
 
 // Remaining -- returns the remaining datas in the buffer.
@@ -281,5 +281,5 @@ func (b *Buffer) End() bool {
 func (b *Buffer) Reset() {
 	b.seek = 0
 	b.length = 0
-	b.data = b.data[0:0]
+	b.data = nil
 }
-- 
2.43.0


From 37bdf5f070e1fe63bbf42f95f218639997ab678a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:53 +0000
Subject: [PATCH 71/72] fix: writing to a buffer made for reading leaves the
 caller's bytes alone

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 2cb363f..723da07 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -24,7 +24,7 @@ func NewBuffer() *Buffer {
 // NewBufferReader -- creates a new buffer with data initialize.
 func NewBufferReader(data []byte) *Buffer {
 	return &Buffer{
-		data:   data,
+		data:   data[:len(data):len(data)],
 		length: len(data),
 	}
 }
-- 
2.43.0


From 13ded9044fc1926f6afef33ee7b8b7be9849b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:15 +0000
Subject: [PATCH 72/72] fix: errors print their text with %s and %q

---
 xerror/error.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xerror/error.go b/xerror/error.go
index 11b93b0..21536f1 100644
--- a/xerror/error.go
+++ b/xerror/error.go
@@ -44,14 +44,18 @@ func (e *Error) Error() string {
 // Format -- implements the error interface.
 func (e *Error) Format(s fmt.State, verb rune) {
 	switch verb {
-	case 'v':
+	case 'q':
+		if _, err := io.WriteString(s, fmt.Sprintf("%q", e.Error())); err != nil {
+			return
+		}
+	case 'v', 's':
 		if _, err := io.WriteString(s, e.Message); err != nil {
 			return
 		}
 		if _, err := io.WriteString(s, fmt.Sprintf(" (errno %d) (state %s)", e.Num, e.State)); err != nil {
 			return
 		}
-		if s.Flag('+') {
+		if verb == 'v' && s.Flag('+') {
 			if _, err := io.WriteString(s, "\n"+e.stack.trace()); err != nil {
 				return
 			}
-- 
2.43.0

